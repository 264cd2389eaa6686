"""P16: observables of uniform states equal the infinite-chain values of the given tensors."""
import numpy as np
import scipy.linalg as la
from hypothesis import strategies as st
from ..core import facet, Skip
from .. import gens, dense, uniform as un

KINDS = ("gauss", "gauss", "real", "positive", "decay", "near", "product")


@st.composite
def case(draw, **kw):
    kw.setdefault("maxD", 5)
    kw.setdefault("kinds", KINDS)
    return dict(c=draw(un.cell(**kw)), symm=draw(st.booleans()), cf=draw(st.sampled_from([True, True, False])),
                tdvp=draw(st.sampled_from([False, False, True])),
                k=draw(st.integers(0, 2)), op=draw(gens.op_kinds), seed=draw(gens.seeds), call=draw(st.booleans()))


def state(c, skip=True):
    """(library state brought up to date, dense model of the given tensors, position, tolerance)"""
    from evoMPS.mps_uniform import EvoMPS_MPS_Uniform
    from evoMPS.tdvp_uniform import EvoMPS_TDVP_Uniform
    cc = c["c"]
    As = un.tensors(cc)
    inf = un.Inf(As)
    if skip:
        un.wellposed(inf, gap=.05, smin=1e-3, deficient=False)
    x = inf.cond()
    if x > 1e5:
        raise Skip("ill-conditioned environments")
    if c["tdvp"]:
        r = gens.rng(c["seed"], "ham")
        h = gens.herm(r, cc["q"] ** 2).reshape([cc["q"]] * 4)
        s = un.make(EvoMPS_TDVP_Uniform, cc, As, c["symm"], "arpack", h)
    else:
        s = un.make(EvoMPS_MPS_Uniform, cc, As, c["symm"])
    s.update(restore_CF=c["cf"])
    return s, inf, c["k"] % cc["L"], max(1e-10, 1e-12 * x / inf.gap)


def asfun(op):
    return lambda *i: op[tuple(int(j) for j in i)]


@facet("P16", case(), quick=400, shards=4, rule="bond dimension of at least two")
def local(c, ctx):
    """One-, two- and three-site expectation values, densities and occupations."""
    s, inf, k, t = state(c)
    q, L = inf.q, inf.L
    ctx.nontrivial(c["c"]["D"] > 1)
    ctx.tag("L=%d" % L)
    r = gens.rng(c["seed"], "tp")
    for n, f in ((1, s.expect_1s), (2, s.expect_2s), (3, s.expect_3s)):
        op = gens.local_op(c["seed"], [q] * n, c["op"], n)
        keep = op.copy()
        want = inf.expect(op, k, n)
        # (three-site operators as functions are evaluated entry by entry by the library)
        ctx.close(f(asfun(op) if c["call"] and n < 3 else op, k), want, t, "expect_%ds" % n, scale=max(1, abs(op).sum() ** .5))
        ctx.check(np.array_equal(op, keep), "operator modified")
    if c["call"]:
        op = gens.local_op(c["seed"], [q] * 3, c["op"], 3)
        ctx.close(s.expect_3s(asfun(op), k), inf.expect(op, k, 3), t, "expect_3s of a function", scale=max(1, abs(op).sum() ** .5))
    if k == 0:
        op = gens.local_op(c["seed"], [q], c["op"], 1)
        ctx.close(s.expect_1s(op), inf.expect(op, 0, 1), t, "default position")
    m = 1 + c["seed"] % 3
    tp = [[gens.cgauss(r, q, q), gens.cgauss(r, q, q)] for i in range(m)]
    op = sum(np.einsum('su,tv->stuv', a, b) for a, b in tp)
    ctx.close(s.expect_2s_tp(tp, k), inf.expect(op, k, 2), t, "expect_2s_tp", scale=max(1, abs(op).sum() ** .5))
    ctx.close(s.expect_2s(op, k), inf.expect(op, k, 2), t, "expect_2s of a sum of products", scale=max(1, abs(op).sum() ** .5))
    ctx.close(s.density_1s(k), inf.rho(k, 1), t, "density_1s")
    occ = s.basis_occupancy(k)
    ctx.check(occ.dtype.kind == "f", "occupations are not real")
    ctx.close(occ, np.diag(inf.rho(k, 1)).real, t, "basis_occupancy")


@st.composite
def ccase(draw):
    c = draw(case(maxD=4))
    c.update(d=draw(st.integers(1, 7)), same=draw(st.booleans()), inter=draw(st.booleans()), op2=draw(gens.op_kinds), call2=draw(st.booleans()))
    return c


@facet("P16", ccase(), quick=300, shards=2, rule="bond dimension of at least two")
def correlations(c, ctx):
    s, inf, k, t = state(c)
    q, L, d = inf.q, inf.L, c["d"]
    ctx.nontrivial(c["c"]["D"] > 1)
    o1 = gens.local_op(c["seed"], [q], c["op"], "a")
    o2 = o1 if c["same"] else gens.local_op(c["seed"], [q], c["op2"], "b")
    a1 = asfun(o1) if c["call"] else o1
    a2 = a1 if c["same"] else (asfun(o2) if c["call2"] else o2)
    sc = max(1, abs(o1).max() * abs(o2).max())
    want = np.array([inf.expect(o1.dot(o2), k, 1)] + [inf.string([o1] + [None] * (j - 1) + [o2], k) for j in range(1, d + 1)])
    got = s.expect_1s_1s(a1, a2, d, k, return_intermediates=c["inter"])
    ctx.close(got, want if c["inter"] else want[-1], t, "expect_1s_1s", scale=sc)
    e1 = np.array([inf.expect(o1, k + j, 1) for j in range(d + 1)])
    e2 = np.array([inf.expect(o2, k + j, 1) for j in range(d + 1)])
    # correlation_1s_1s evaluates the product at distance zero, too, and so needs arrays (functions are not documented to be multipliable)
    res = s.correlation_1s_1s(a1, a2, d, k, return_exvals=c["inter"])
    if c["inter"]:
        cc, x1, x2 = res
        ctx.close(x1, e1, t, "expectation values of the first operator", scale=sc)
        ctx.close(x2, e2, t, "expectation values of the second operator", scale=sc)
    else:
        cc = res
    ctx.close(cc, want - e1[0] * e2, t, "correlation_1s_1s", scale=sc)
    if k == 0:
        ctx.close(s.expect_1s_1s(o1, o2, d), want[-1], t, "expect_1s_1s (default position)", scale=sc)
    x = s.expect_string_1s(a1, k, d)
    ctx.close(x, np.array([inf.string([o1] * j, k) for j in range(1, d + 1)]), t, "expect_string_1s", scale=max(1, abs(o1).max() * q) ** d)


@st.composite
def scase(draw):
    c = draw(case(maxD=draw(st.sampled_from([3, 5, 9]))))
    c.update(solver=draw(st.sampled_from(["default", "sparse", "dense"])), L2=draw(st.integers(1, 3)), D2=draw(st.integers(1, 4)),
             rel=draw(st.sampled_from(["same", "near", "other", "size", "scaled"])), s2=draw(gens.seeds), left=draw(st.booleans()), full=draw(st.booleans()))
    return c


@facet("P16", scase(), quick=300, shards=4, rule="bond dimension of at least two")
def spectral(c, ctx):
    """Schmidt weights, entropies, gaps, correlation lengths, fidelities."""
    from evoMPS.mps_uniform import EvoMPS_MPS_Uniform
    s, inf, k, t = state(c)
    cc = c["c"]
    D, L = cc["D"], cc["L"]
    ctx.nontrivial(D > 1)
    w = inf.schmidt(k) ** 2
    got = np.asarray(s.schmidt_sq(k))
    ctx.close(np.sort(got.real)[::-1], w, t, "schmidt_sq")
    ctx.close(np.imag(got), 0 * w, t, "schmidt_sq: imaginary part")
    S = -np.sum(w[w > 1e-15] * np.log2(w[w > 1e-15]))
    ctx.close(s.entropy(k), S, 100 * t, "entropy")
    S2, l2 = s.entropy(k, ret_schmidt_sq=True)
    ctx.close(S2, S, 100 * t, "entropy")
    ctx.close(np.sort(np.real(l2))[::-1], w, t, "Schmidt weights returned with the entropy")
    if D > 1:
        a = np.sort(abs(inf.spec))[::-1]
        # nearly degenerate or defective second eigenvalues are badly conditioned, so compare loosely
        ctx.close(s.calc_E_gap(), 1 - a[1], 1e-5, "calc_E_gap")
        xi = -L / np.log(a[1])
        ctx.close(s.correlation_length(), xi, 1e-4 * max(1, xi ** 2 / L), "correlation_length", scale=1.)
    else:
        ctx.close(s.correlation_length(), 0., 0, "correlation length of a product state")
    rel = c["rel"]
    cb = dict(cc, seed=c["s2"], kind="gauss")
    if rel == "same":
        Bs = [A.copy() for A in inf.As]
    elif rel == "near":
        Bs = [A + .05 * B for A, B in zip(inf.As, un.tensors(cb))]
    elif rel == "other":
        Bs = un.tensors(cb)
    elif rel == "scaled":
        Bs = [A * np.exp(.7j) for A in inf.As]
    else:
        Bs = un.tensors(dict(cb, L=c["L2"], D=c["D2"]))
    binf = un.Inf(Bs)
    un.wellposed(binf, gap=.05, smin=1e-3)
    if binf.cond() > 1e5:
        raise Skip("ill-conditioned second state")
    b = un.make(EvoMPS_MPS_Uniform, cb, Bs, c["symm"])
    b.update()
    # relative to the stored tensors, to keep track of phases and vectors
    E = dense.tm([np.asarray(A) for A in s.A] * (b.L // np.gcd(L, b.L)), [np.asarray(A) for A in b.A] * (L // np.gcd(L, b.L)))
    Lc = L * b.L // np.gcd(L, b.L)
    ev = la.eigvals(E)
    ev = ev[np.argsort(abs(ev))[::-1]]
    kw = dict(force_dense=c["solver"] == "dense", force_sparse=c["solver"] == "sparse")
    r = s.fidelity_per_site(b, full_output=c["full"], left=c["left"], **kw)
    we, _ = un.fidelity(inf.As, binf.As)
    gap = 1 - (abs(ev[1] / ev[0]) if ev.size > 1 else 0)
    tt = 1e-8 + (1e-6 if gap < .05 else 0)
    ctx.close(r[0], abs(we) ** (1. / Lc), tt, "fidelity per site")
    ctx.close(abs(r[1]), abs(we), tt, "fidelity: eigenvalue")
    if gap > .02:
        ctx.close(r[1], ev[0], 1e-7 / gap, "fidelity: eigenvalue")
        if c["full"]:
            v = r[2].reshape(D, b.D)
            v = v / la.norm(v)
            A, B = [np.asarray(x) for x in s.A] * (Lc // L), [np.asarray(x) for x in b.A] * (Lc // b.L)
            x = v
            if c["left"]:
                for m in range(Lc):
                    x = np.einsum('sba,bc,scd->ad', A[m].conj(), x, B[m])
                ctx.close(x, ev[0].conj() * v, 1e-7 / gap, "left eigenvector")
            else:
                for m in range(Lc - 1, -1, -1):
                    x = np.einsum('sab,bc,sdc->ad', A[m], x, B[m].conj())
                ctx.close(x, ev[0] * v, 1e-7 / gap, "right eigenvector")


@facet("P16", case(), quick=200, shards=2, rule="bond dimension of at least two")
def string_rate(c, ctx):
    """The asymptotic factor per site of the expectation value of a string."""
    s, inf, k, t = state(c)
    q, L = inf.q, inf.L
    op = gens.local_op(c["seed"], [q], c["op"], "a")
    ctx.nontrivial(c["c"]["D"] > 1)
    M = np.eye(c["c"]["D"] ** 2)
    for A in inf.As:
        M = M.dot(dense.tm_op(A, op))
    w = la.eigvals(M)
    w = w[np.argsort(abs(w))[::-1]]
    if abs(w[0]) < 1e-6 or (w.size > 1 and abs(w[1]) > .97 * abs(w[0])):
        raise Skip("dominant eigenvalue of the string not unique")
    got = s.expect_string_per_site_1s(asfun(op) if c["call"] else op)
    ctx.check(np.ndim(got) == 0, "string rate is not a number")
    ctx.close(complex(got) ** L, w[0], 1e-6, "string rate", scale=max(1., abs(w[0])))
    ctx.close(abs(got), abs(w[0]) ** (1. / L), 1e-6, "string rate (modulus)", scale=max(1., abs(w[0])))


@st.composite
def symcase(draw):
    return dict(q=draw(st.integers(2, 3)), L=draw(st.integers(1, 3)), D=draw(st.integers(1, 5)), group=draw(st.sampled_from(["Z2", "Z3", "U1", "U1"])),
                symm=draw(st.booleans()), k=draw(st.integers(0, 2)), call=draw(st.booleans()), ret=draw(st.booleans()),
                theta=draw(st.sampled_from([0., 0., .5])), rot=draw(st.booleans()), seed=draw(gens.seeds))


def symmetric(c):
    """Tensors with a symmetry: A^s on site k connects bond charges v_(k-1), v_k only if v_k - v_(k-1) = charge(s)."""
    r = gens.rng(c["seed"], "sym")
    q, L, D = c["q"], c["L"], c["D"]
    n = dict(Z2=2, Z3=3, U1=0)[c["group"]]
    if n:
        ch = np.arange(q) % n
        v = [r.randint(0, n, D) for k in range(L)]
    elif q == 3:
        ch = np.array([-1, 0, 1])
        v = [r.randint(0, 3, D) for k in range(L)]
    else:
        ch = np.array([-1, 1])
        L = 2
        v = [2 * r.randint(0, 2, D), 1 + 2 * r.randint(0, 2, D) - 2 * r.randint(0, 2)]
    As = []
    for k in range(L):
        A = gens.cgauss(r, q, D, D)
        dv = v[k][None, :] - v[k - 1][:, None]
        for s in range(q):
            x = dv - ch[s]
            A[s][(x % n if n else x) != 0] = 0
        As.append(A)
    W = gens.rand_unitary(r, q) if c["rot"] else np.eye(q)
    if n:
        op = W.dot(np.diag(np.exp(2j * np.pi * ch / n))).dot(W.conj().T)
    else:
        op = W.dot(np.diag(ch)).dot(W.conj().T)
    Bs = [np.einsum('st,tab->sab', W, A) for A in As]
    if min(abs(A).max() for A in As) == 0 or la.norm(dense.tm(As)) < 1e-8 or abs(la.eigvals(dense.tm(As))).max() < 1e-6:
        raise Skip("no state with these charges")
    inf = un.Inf(Bs)
    un.wellposed(inf, gap=.05, smin=1e-2)
    # hide the block structure
    g = [gens.cgauss(r, D, D) + 2 * np.eye(D) for k in range(L)]
    if max(np.linalg.cond(x) for x in g) > 50:
        raise Skip("ill-conditioned gauge transformation")
    Gs = [np.array([la.inv(g[k - 1]).dot(x).dot(g[k]) for x in A]) for k, A in enumerate(inf.As)]
    return Gs, inf, op, v, n, L


@facet("P16", symcase(), quick=500, shards=2, rule="Schmidt vectors of different charge across the cut")
def halfchain(c, ctx):
    """Charges (values of strings or sums) of the half-chain Schmidt vectors of symmetric states."""
    from evoMPS.mps_uniform import EvoMPS_MPS_Uniform
    Gs, inf, op, v, n, L = symmetric(c)
    D, q = c["D"], c["q"]
    if un.Inf(Gs).cond() > 1e6:
        raise Skip("ill-conditioned environments")
    k = c["k"] % L
    b = (k - 1) % L
    s = un.make(EvoMPS_MPS_Uniform, None, Gs, c["symm"])
    s.update()
    # Schmidt weights by charge, from the tensors with visible charges
    w, ch = [], []
    for x in np.unique(v[b]):
        i = np.nonzero(v[b] == x)[0]
        M = inf.r[b].dot(inf.l[b].T)
        e = la.eigvals(M[np.ix_(i, i)]).real
        w += list(e)
        ch += [x] * len(i)
    o = np.argsort(w)[::-1]
    w, ch = np.array(w)[o], np.array(ch)[o]
    ctx.close(w, inf.schmidt(b) ** 2, 1e-8, "harness: weights by charge")
    if D > 1 and (w[:-1] - w[1:]).min() < 1e-5:
        raise Skip("degenerate Schmidt weights")
    ctx.nontrivial(len(set(ch)) > 1)
    o = np.argsort(np.asarray(s.schmidt_sq(b)).real)[::-1]
    A = asfun(op) if c["call"] else op
    t = 1e-6
    if n:
        A = asfun(op * np.exp(1j * c["theta"])) if c["call"] else op * np.exp(1j * c["theta"])
        res = s.expect_string_1s_density_hc(A, k, return_g=c["ret"])
        want = np.exp(2j * np.pi * (ch[0] - ch) / n)
        ctx.close(res[1], np.exp(1j * c["theta"]) * np.exp(2j * np.pi * 0), t, "string overlap per site")
    else:
        res = s.expect_sum_1s_density_hc(A, k, tol=1e-12, return_g=c["ret"])
        want = (w * ch).sum() - ch
        ctx.close(res[1], 0., t, "sum per site")
    ctx.check(len(res) == (3 if c["ret"] else 2), "number of results")
    ctx.close(np.asarray(res[0])[o], want, t, "values on the Schmidt vectors")
    if c["ret"]:
        ctx.close(np.diag(dense.arr(res[2]).reshape(D, D)), res[0], 1e-10, "virtual operator: diagonal")
        g = dense.arr(res[2]).reshape(D, D)[np.ix_(o, o)]
        ctx.close(g, np.diag(want), 1e-4, "virtual operator")


@facet("P16", st.fixed_dictionaries(dict(c=un.cell(minD=2, maxD=4, kinds=("deficient",)), symm=st.booleans(), k=st.integers(0, 2))), quick=120, shards=2,
       rule="always (some Schmidt weights vanish)")
def deficient(c, ctx):
    """Spectra, entropies and local values of states whose bond dimension is larger than needed."""
    from evoMPS.mps_uniform import EvoMPS_MPS_Uniform
    cc = c["c"]
    inf = un.Inf(un.tensors(cc))
    if inf.gap < .05 or max(np.linalg.cond(A.reshape(-1, A.shape[2])) for A in inf.As) > 1e18:
        raise Skip("nearly degenerate transfer matrix")
    s = un.make(EvoMPS_MPS_Uniform, cc, inf.As, c["symm"])
    s.zero_tol = 1e-9
    s.update()
    ctx.nontrivial(True)
    k = c["k"] % cc["L"]
    w = inf.schmidt(k) ** 2
    ctx.close(np.sort(np.asarray(s.schmidt_sq(k)).real)[::-1], w, 1e-6, "schmidt_sq")
    w = w[w > 1e-9]
    ctx.close(s.entropy(k), -np.sum(w * np.log2(w)), 1e-4, "entropy")
    ctx.close(s.density_1s(k), inf.rho(k, 1), 1e-6, "density_1s")
    op = gens.local_op(cc["seed"], [cc["q"]] * 2)
    ctx.close(s.expect_2s(op, k), inf.expect(op, k, 2), 1e-5, "expect_2s")
