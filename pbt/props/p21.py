"""P21: the excitation Hamiltonian is the momentum-space tangent projection of H - E."""
import copy
import numpy as np
import scipy.linalg as la
from hypothesis import strategies as st
from ..core import facet, Skip
from .. import gens, dense, uniform as un
from . import p18

MOMENTA = [0., 0., np.pi, -np.pi / 2, .37, -1.3, 2.9, .01]


@st.composite
def case(draw, **kw):
    kw.setdefault("maxD", 4)
    kw.setdefault("maxL", 1)
    c = draw(p18.case(kinds=("gauss", "gauss", "real", "positive", "near"), **kw))
    c["p"] = draw(st.sampled_from(MOMENTA))
    c["second"] = draw(st.sampled_from(["same", "gauge", "gauge", "symmetric", "symmetric"]))
    return c


class Heff(object):
    """<Phi_p(B')|H - E|Phi_p(B)> per site for ket tensors  A..A B A_..A_  and bra tensors A..A B' A_..A_ , summed over the relative
    position with phase e^{ip(position of B - position of B')}, by dense block transfer matrices. A, A_ have norm one; l, r are the
    fixed points of A and A_; same: whether mixed transfer matrices have an eigenvalue of modulus one."""

    def __init__(self, A, A_, h, n, p, same):
        self.A, self.A_, self.n, self.p, self.same = A, A_, n, p, same
        self.D, self.q = A.shape[1], A.shape[0]
        self.a, self.b = un.Inf([A]), un.Inf([A_])
        self.e = self.a.expect(h, 0, n)
        self.h = np.asarray(h).reshape(self.q ** n, -1) - self.e * np.eye(self.q ** n)
        self.l, self.r = self.a.l[0].ravel(), self.b.r[0].ravel()
        D = self.D
        # positions of the four sectors (ket sector, bra sector) in the doubled pair space
        x = np.arange(4 * D * D).reshape(2 * D, 2 * D)
        self.ix = {(k, b): x[k * D:(k + 1) * D, b * D:(b + 1) * D].ravel() for k in (0, 1) for b in (0, 1)}

    def aug(self, B):
        D = self.D
        M = np.zeros((self.q, 2 * D, 2 * D), complex)
        M[:, :D, :D] = np.exp(1j * self.p) * self.A
        M[:, :D, D:] = B
        M[:, D:, D:] = self.A_
        return M

    def solve(self, E, y, rv, lv):
        """(1 - E) x = y, without the part belonging to an eigenvalue one with right and left vectors rv, lv (if given)."""
        M = np.eye(E.shape[0]) - E
        if rv is not None:
            P = np.outer(rv, lv) / lv.dot(rv)
            y = y - P.dot(y)
            M = M + P
        return la.solve(M, y)

    def __call__(self, B2, B1):
        K, N = self.aug(B1), self.aug(B2)
        E = dense.tm([K], [N])
        T = un.tm_op2([K] * self.n, self.h, [N] * self.n)
        ix = self.ix
        order = [(1, 1), (1, 0), (0, 1), (0, 0)]
        X1 = np.zeros(E.shape[0], complex)
        X0 = np.zeros(E.shape[0], complex)

        def modes(s):
            if s == (1, 1):
                return self.b.r[0].ravel(), self.b.l[0].ravel()
            if s == (0, 0):
                return self.a.r[0].ravel(), self.a.l[0].ravel()
            if not self.same:
                return None, None
            EE = E[np.ix_(ix[s], ix[s])]
            w, l, r = dense.fixed_points(EE)
            if abs(w - 1) > 1e-7:            # at this momentum it is no eigenvalue one
                return None, None
            return r, l
        X1[ix[1, 1]] = self.r
        for s in order[1:]:
            y = E[ix[s]].dot(X1)
            X1[ix[s]] = 0
            X1[ix[s]] = self.solve(E[np.ix_(ix[s], ix[s])], y, *modes(s))
        TX = T.dot(X1)
        for s in order:
            if s == (0, 0):
                break
            y = TX[ix[s]] + E[ix[s]].dot(X0)
            X0[ix[s]] = self.solve(E[np.ix_(ix[s], ix[s])], y, *modes(s))
        res = TX[ix[0, 0]] + E[ix[0, 0]].dot(X0)
        return self.l.dot(res)


def base(c, gap=.1):
    """(state, stored model, Hamiltonian array, sites, tolerance); its Hamiltonian has the symmetry U if one is needed"""
    from evoMPS.tdvp_uniform import EvoMPS_TDVP_Uniform
    cc = c["c"]
    As = un.tensors(cc)
    inf = un.Inf(As)
    un.wellposed(inf, gap=gap, smin=2e-2)
    if inf.cond() > 3e3:
        raise Skip("ill-conditioned environments")
    h, tp = p18.operator(c)
    n = 2 if tp else c["sites"]
    q = cc["q"]
    W = gens.rand_unitary(gens.rng(c["seed"], "W"), q)
    U = W.dot(np.diag([(-1.) ** j for j in range(q)])).dot(W.conj().T)       # U^2 = 1
    if c["second"] == "symmetric":
        if tp:
            tp = tp + [[U.dot(a).dot(U), U.dot(b).dot(U)] for a, b in tp]
            h = sum(np.einsum('su,tv->stuv', a, b) for a, b in tp)
        else:
            UU = U
            for i in range(n - 1):
                UU = np.kron(UU, U)
            H = h.reshape(q ** n, -1)
            h = ((H + UU.dot(H).dot(UU)) / 2).reshape(h.shape)
            h = (h + h.reshape(q ** n, -1).conj().T.reshape(h.shape)) / 2
    s = make(c, As, h, tp, n)
    sto = un.Inf(s.A)
    return s, sto, h, tp, n, U, max(1e-8, 1e-9 * max(inf.cond(), sto.cond()) / inf.gap)


def make(c, As, h, tp, n):
    from evoMPS.tdvp_uniform import EvoMPS_TDVP_Uniform
    s = un.make(EvoMPS_TDVP_Uniform, c["c"], As, c["symm"], "arpack", p18.asfun(h) if c["form"] == "func" else h,
                n if c["form"] == "func" else None)
    s.ham_tp = copy.deepcopy(tp)
    s.update()
    return s


def second(c, s, h, tp, n, U):
    """The state on the right half, and whether it is the same physical state."""
    kind = c["second"]
    A = np.array(s.A[0])
    r = gens.rng(c["seed"], "second")
    D = A.shape[1]
    if kind == "symmetric":
        A = np.tensordot(U, A, (1, 0))
    X = gens.rand_unitary(r, D) + .1 * gens.cgauss(r, D, D)
    A = np.array([la.inv(X).dot(a).dot(X) for a in A]) * np.exp(1j * r.uniform(0, 2 * np.pi))
    s2 = make(c, [A], h, tp, n)
    w = la.eigvals(dense.tm([np.asarray(s.A[0])], [np.asarray(s2.A[0])]))
    return s2, abs(w).max()


def Bof(s, s2, x):
    D, q = s.D, s.q
    return s2.get_B_from_x(x.reshape(D, (q - 1) * D), s2.Vsh[0], s.l_sqrt_i[0], s2.r_sqrt_i[0])


def check_op(c, ctx, s, s2, w, V, Hm, h, n, t, same, sc):
    """Eigenpairs from the library against the dense matrix elements, and Hermiticity."""
    d = (s.q - 1) * s.D ** 2
    ctx.close(np.asarray(w).shape[0], d, 0, "number of eigenvalues of the full problem")
    ctx.close(V.conj().T.dot(V), np.eye(d), 1e-9, "eigenvectors orthonormal")
    if Hm is not None:
        ctx.close(Hm, Hm.conj().T, t, "effective Hamiltonian is Hermitian", scale=sc)
    A, A_ = np.array(s.A[0]), np.array(s2.A[0])
    ref = Heff(A, A_, h, n, c["p"], same)
    r = gens.rng(c["seed"], "pairs")
    for i in range(3):
        x, y = gens.cgauss(r, d), gens.cgauss(r, d)
        x, y = x / la.norm(x), y / la.norm(y)
        Bx, By = Bof(s, s2, x), Bof(s, s2, y)
        if i == 0:
            # the parametrisation is an isometry onto right-gauge-fixed tensors
            g = np.einsum('sab,bc,sdc->ad', Bx, ref.b.r[0], A_.conj())
            ctx.close(g, 0 * g, t, "tangent tensors are gauge fixed", scale=max(1, abs(Bx).max()))
            ctx.close(np.einsum('ab,sac,cd,sbd->', ref.a.l[0], Bx, ref.b.r[0], By.conj()), np.vdot(y, x), t,
                      "parametrisation of tangent vectors is an isometry")
        want = ref(By, Bx)
        got = y.conj().dot(V).dot(w * V.conj().T.dot(x))
        ctx.close(got, want, t, "matrix element of the effective Hamiltonian", scale=sc)
        if Hm is not None:
            ctx.close(y.conj().dot(Hm).dot(x), want, t, "matrix element of the returned matrix", scale=sc)


@facet("P21", case(), quick=220, shards=3, rule="bond dimension of at least two and a nonzero momentum")
def trivial(c, ctx):
    """All matrix elements of the topologically trivial problem."""
    c["second"] = "same"
    s, sto, h, tp, n, U, t = base(c)
    ctx.nontrivial(c["c"]["D"] > 1 and c["p"] != 0)
    ctx.tag("%d-site %s p=%.2f" % (n, c["form"], c["p"]))
    sc = p18.nrm(h) * 2 * n / sto.gap
    A0 = np.array(s.A[0])
    h0 = np.array(h)
    (w, V), Hm = s.excite_top_triv_brute(c["p"], return_eigenvectors=True, return_H=True)
    check_op(c, ctx, s, s, w, V, Hm, h, n, t, True, sc)
    ctx.close(s.excite_top_triv_brute(c["p"]), w, t, "eigenvalues only", scale=sc)
    ctx.close(s.A[0], A0, 0, "the state changed")
    ctx.close(h, h0, 0, "the Hamiltonian changed")
    e = s.h_expect
    s.update(restore_CF=False)
    ctx.close(s.h_expect, e, 1e-9, "energy after a refresh", scale=p18.nrm(h))
    if c["form"] == "tp":
        s2 = make(c, [A0], h, None, n)
        ctx.close(s2.excite_top_triv_brute(c["p"]), w, t, "product form and array form agree", scale=sc)
    # gauge independence, and reflection of the momentum for a conjugated system
    s3 = make(c, [A0.conj()], h.conj(), None, n)
    ctx.close(s3.excite_top_triv_brute(-c["p"]), w, t, "complex conjugate system at opposite momentum", scale=sc)


@facet("P21", case(), quick=220, shards=3, rule="bond dimension of at least two and two distinct objects")
def domain_walls(c, ctx):
    """Two states: gauge-equivalent ones reproduce the trivial problem, symmetry-related ones the dense matrix elements."""
    s, sto, h, tp, n, U, t = base(c)
    sc = p18.nrm(h) * 2 * n / sto.gap
    kind = c["second"]
    ctx.tag(kind)
    p = c["p"]
    if kind == "same":
        w = s.excite_top_triv_brute(p)
        w2, V = s.excite_top_nontriv_brute(s, p, return_eigenvectors=True)
        ctx.nontrivial(c["c"]["D"] > 1)
        ctx.close(w2, w, t, "the state with itself agrees with the trivial problem", scale=sc)
        return
    s2, f = second(c, s, h, tp, n, U)
    same = f > 1 - 1e-9
    if kind == "gauge" and not same:
        raise Skip("numerically different")
    if not same and f > .9:
        raise Skip("nearly equal states")
    ctx.nontrivial(c["c"]["D"] > 1)
    force = same
    if same:
        w0 = copy.deepcopy(s).excite_top_triv_brute(p)
    align = same or c["seed"] % 2 == 0
    (w, V), Hm = s.excite_top_nontriv_brute(s2, p, return_eigenvectors=True, force_pseudo=force, phase_align=align, return_H=True)
    if align:
        ev = la.eigvals(dense.tm([np.asarray(s.A[0])], [np.asarray(s2.A[0])]))
        ev = ev[abs(ev).argmax()]
        if f > 1e-3 and kind == "gauge":
            ctx.close(ev, abs(ev), t, "largest overlap eigenvalue after aligning the phases")
    if same:
        ctx.close(w, w0, t, "gauge-equivalent states agree with the trivial problem", scale=sc)
    check_op(c, ctx, s, s2, w, V, Hm, h, n, t, same, sc)
    if not same:
        w3 = s.excite_top_nontriv_brute(s2, p, phase_align=False)
        ctx.close(w3, w, t, "repeated without aligning", scale=sc)
    elif abs(np.exp(1j * p) - 1) > .5:
        w3 = s.excite_top_nontriv_brute(s2, p, phase_align=False)
        ctx.close(w3, w0, t, "without forcing pseudo-inverses at nonzero momentum", scale=sc)


@st.composite
def solver_case(draw):
    c = draw(case(minD=2, maxD=4))
    c["nev"] = draw(st.integers(1, 4))
    c["which"] = draw(st.sampled_from(["SM", "SA", "LA", "LM"]))
    c["vecs"] = draw(st.booleans())
    c["v0"] = draw(st.booleans())
    return c


@facet("P21", solver_case(), quick=60, shards=2, rule="more than one eigenvalue")
def solvers(c, ctx):
    """The iterative eigensolvers find the extreme eigenvalues of the full problem, with eigenvectors."""
    s, sto, h, tp, n, U, t = base(c)
    d = (s.q - 1) * s.D ** 2
    nev = min(c["nev"], d - 2)
    if nev < 1:
        raise Skip("too small")
    p = c["p"]
    ctx.nontrivial(nev > 1)
    ctx.tag(c["which"] + " " + c["second"])
    sc = p18.nrm(h) * 2 * n / sto.gap
    kw = dict(nev=nev, which=c["which"], return_eigenvectors=c["vecs"], tol=1e-10)
    if c["v0"]:
        kw["v0"] = gens.cgauss(gens.rng(c["seed"], "v0"), d)
    if d < 20:
        kw["ncv"] = d
    if c["second"] in ("same",):
        w, V0 = s.excite_top_triv_brute(p, return_eigenvectors=True)
        res = s.excite_top_triv(p, **kw)
    else:
        s2, f = second(c, s, h, tp, n, U)
        same = f > 1 - 1e-9
        if not same and f > .9:
            raise Skip("nearly equal states")
        al = bool(same)              # (aligning is ambiguous for leading eigenvalues of equal modulus)
        w, V0 = s.excite_top_nontriv_brute(s2, p, return_eigenvectors=True, force_pseudo=same, phase_align=al)
        res = s.excite_top_nontriv(s2, p, force_pseudo=same, phase_align=al, **kw)
    got, V = res if c["vecs"] else (res, None)
    if c["which"] in ("SM", "LM"):
        o = np.argsort(abs(w))
    else:
        o = np.argsort(w)
    if c["which"][0] == "L":
        o = o[::-1]
    key = abs if c["which"][1] == "M" else (lambda x: x)
    want = np.sort(key(w[o[:nev]]))
    ctx.close(np.sort(key(got)), want, max(t, 1e-7), "extreme eigenvalues", scale=sc)
    if V is not None:
        ctx.close(V.conj().T.dot(V), np.eye(nev), 1e-7, "eigenvectors orthonormal")
        HV = V0.dot(w[:, None] * V0.conj().T.dot(V))
        ctx.close(HV, V * got, max(t, 1e-6), "eigenvectors", scale=sc)


@st.composite
def tangent_case(draw):
    c = draw(case(maxD=3))
    c["d"] = draw(st.integers(1, 3))
    c["nb"] = draw(st.one_of(st.none(), st.integers(0, 4)))
    c["fixed"] = draw(st.booleans())
    return c


@facet("P21", tangent_case(), quick=200, shards=2, rule="bond dimension of at least two and a window of more than three sites")
def tangent_values(c, ctx):
    """Expectation values and correlations of a localised disturbance."""
    s, sto, h, tp, n, U, t = base(c)
    q, D, d = s.q, s.D, c["d"]
    r = gens.rng(c["seed"], "tv")
    ctx.nontrivial(D > 1 and d > 1)
    B = gens.cgauss(r, q, D, D)
    Wn = 2 * d + 1
    nb = None if c["nb"] is None else min(c["nb"], 2 * d)
    pos = d + 1 if nb is None else nb                       # number of sites left of the disturbance, in a window of 2d + 2
    s2, A_, r_ = None, sto.As[0], sto.r[0]
    if c["second"] != "same":
        s2, f = second(c, s, h, tp, n, U)
        b = un.Inf(s2.A)
        A_, r_ = b.As[0], b.r[0]
    # tensors of sites 0 .. 2d+1; values are reported for sites 1 .. 2d+1
    T = [sto.As[0]] * pos + [B] + [A_] * (Wn - pos)
    T = T[1:]
    l = sto.l[0].ravel()
    if pos == 0:
        raise Skip("disturbance outside of the reported window")

    def val(ops):
        v = l
        for j, A in enumerate(T):
            o = ops.get(j)
            v = v.dot(dense.tm_op(A, np.eye(q) if o is None else o))
        return v.dot(r_.ravel())
    o1, o2 = gens.cgauss(r, q, q), gens.cgauss(r, q, q)
    sc = max(1., abs(val({})))
    lim = max(t, 1e-9)
    kw = dict(nb=nb, s2=s2)
    want1 = np.array([val({j: o1}) for j in range(Wn)])
    want2 = np.array([val({j: o2}) for j in range(Wn)])
    # the library splits the norm between l and r in its own way
    f = 1. if s2 is None else np.trace(dense.arr(s.l[0])) * np.trace(dense.arr(s2.r[0])) / (np.trace(sto.l[0]) * np.trace(r_))
    ctx.close(s.expect_tangent_1s(B, o1, d, **kw), f * want1, lim, "one-site values", scale=sc)
    cc, g = s.correlation_tangent_1s_1s(B, o1, o2, d, **kw)
    wg = np.array([val({0: o1.dot(o2)})] + [val({0: o1, j: o2}) for j in range(1, Wn)])
    ctx.close(g, f * wg, lim, "correlations with the first site", scale=sc)
    ctx.close(cc, f * wg - f * f * want1[0] * want2, lim, "connected correlations with the first site", scale=sc ** 2)
    if nb is None and s2 is None:
        O = gens.cgauss(r, q * q, q * q).reshape([q] * 4)
        want = []
        for j in range(Wn - 1):
            v = l
            i = 0
            while i < Wn:
                if i == j:
                    v = v.dot(un.tm_op2(T[i:i + 2], O, T[i:i + 2]))
                    i += 2
                else:
                    v = v.dot(dense.tm([T[i]]))
                    i += 1
            want.append(v.dot(r_.ravel()))
        ctx.close(s.expect_tangent_2s(B, O, d), want, lim, "two-site values", scale=sc)
