"""P13: structured matrices and factorisations behave like dense linear algebra."""
import numpy as np
import scipy.linalg as la
from hypothesis import strategies as st
from ..core import facet, Skip
from .. import gens, dense

KINDS = ["eye", "eyec", "diag", "diagc", "dense", "densec", "fort", "view", "rect"]
UNARY = ["conj", "T", "H", "copy", "inv", "sqrt", "neg", "scal", "cscal", "lscal", "A", "array"]
BINARY = ["dot", "dot", "dot_left", "mmul", "mmul3", "add", "sub", "mul", "inplace", "row"]
FINAL = ["trace", "trace1", "diagonal", "ravel", "adot", "adot_noconj", "asarray", "allclose"]


@st.composite
def expr_case(draw):
    return dict(D=draw(st.integers(1, 5)), kinds=draw(st.lists(st.sampled_from(KINDS), min_size=2, max_size=4)),
                ops=draw(st.lists(st.tuples(st.sampled_from(UNARY + BINARY), st.integers(0, 9), st.integers(0, 9)), min_size=1, max_size=6)),
                final=draw(st.sampled_from(FINAL)), seed=draw(gens.seeds))


def make(kind, D, r):
    import evoMPS.matmul as mm
    if kind == "eye":
        return mm.eyemat(D), np.eye(D)
    if kind == "eyec":
        return mm.eyemat(D, dtype=np.complex128), np.eye(D, dtype=complex)
    if kind in ("diag", "diagc"):
        d = r.uniform(0.3, 2, D)
        if kind == "diagc":
            d = d * np.exp(1j * r.uniform(-3, 3, D))
        return mm.simple_diag_matrix(d), np.diag(d)
    m = r.standard_normal((D, D)) if kind == "dense" else gens.cgauss(r, D, D)
    if kind == "fort":
        m = np.asfortranarray(m)
    if kind == "view":
        m = gens.cgauss(r, 2 * D, 3 * D)[::2, ::3]
    return m, np.array(m)


def special(x):
    return not isinstance(x, np.ndarray)


@facet("P13", expr_case(), quick=1500, shards=3, rule="an expression mixes stored forms and the matrices are not 1x1")
def expressions(c, ctx):
    """Random expressions over identity, diagonal and dense matrices against the same expression over dense ones."""
    import evoMPS.matmul as mm
    r = gens.rng(c["seed"], "13")
    D = c["D"]
    pool = [make(k, D, r) for k in c["kinds"]]
    inputs = [(x, np.array(d)) for x, d in pool]
    kinds = set("s" if special(x) else "d" for x, _ in pool)
    sc = 1.
    for op, i, j in c["ops"]:
        (x, X), (y, Y) = pool[i % len(pool)], pool[j % len(pool)]
        if max(np.abs(X).max(), np.abs(Y).max()) > 1e6:
            continue
        z = None
        if op == "conj":
            z = x.conj(), X.conj()
        elif op == "T":
            z = x.T, X.T
        elif op == "H":
            z = mm.H(x), X.conj().T
        elif op == "copy":
            z = x.copy(), X.copy()
            ctx.check(z[0] is not x, "copy returns the same object")
        elif op == "inv" and special(x):
            if abs(np.diag(X)).min() < 1e-3:
                continue
            z = x.inv(), la.inv(X)
        elif op == "sqrt" and special(x):
            z = x.sqrt(), np.diag(np.lib.scimath.sqrt(np.diag(X)))
        elif op in ("scal", "neg"):
            f = -1 if op == "neg" else 1.5
            z = x * f, X * f
        elif op == "cscal":
            z = x * (0.5 - 2j), X * (0.5 - 2j)
        elif op == "lscal":
            z = np.float64(0.7) * x, 0.7 * X
        elif op == "A" and special(x):
            z = x.A, X
        elif op == "array":
            z = np.array(x), X
        elif op == "dot":
            z = x.dot(y), X.dot(Y)
        elif op == "dot_left" and special(x):
            z = x.dot_left(y), Y.dot(X)
        elif op == "mmul":
            z = mm.mmul(x, y), X.dot(Y)
        elif op == "mmul3":
            z = mm.mmul(x, y, x, y), X.dot(Y).dot(X).dot(Y)
        elif op == "add":
            z = x + y, X + Y
        elif op == "sub":
            z = x - y, X - Y
        elif op == "mul":
            z = x * y, X * Y
        elif op == "inplace":
            if special(x) and special(y):
                continue
            out = np.full((D, D), 3, dtype=np.result_type(x.dtype, y.dtype))
            ret = mm.dot_inplace(x, y, out)
            ctx.close(out, X.dot(Y), 1e-12, "dot_inplace", scale=1 + abs(X).max() * abs(Y).max() * D)
            z = ret, X.dot(Y)
        elif op == "row" and special(x):
            # non-square partners
            B = gens.cgauss(r, D, 3)
            ctx.close(x.dot(B), X.dot(B), 1e-12, "dot with a rectangular matrix", scale=1 + abs(X).max() * 9)
            ctx.close(x.dot_left(B.T), B.T.dot(X), 1e-12, "dot_left with a rectangular matrix", scale=1 + abs(X).max() * 9)
            ctx.close(mm.mmul(B.T, x, B), B.T.dot(X).dot(B), 1e-12, "mmul with rectangular matrices", scale=1 + abs(X).max() * 90)
            ctx.close(B.T.dot(x), B.T.dot(X), 1e-12, "array.dot", scale=1 + abs(X).max() * 9)
            continue
        if z is None:
            continue
        got = dense.arr(z[0])
        ctx.check(got.shape == z[1].shape, "%s: shape %r" % (op, got.shape))
        ctx.check(tuple(z[0].shape) == z[1].shape, "%s: .shape %r" % (op, z[0].shape))
        # (conditioning: every value stays below 1e6 and exact up to rounding of what was combined)
        sc = max(sc, np.abs(z[1]).max(), abs(X).max() * abs(Y).max() * D)
        ctx.close(got, z[1], 1e-11, op, scale=sc)
        if np.abs(z[1]).max() < 1e6:
            pool.append((z[0], np.array(z[1])))
    x, X = pool[-1]
    y, Y = pool[0]
    f = c["final"]
    sc = (1 + abs(X).max()) * (1 + abs(Y).max()) * D * D * sc
    if f == "trace":
        ctx.close(x.trace(), np.trace(X), 1e-11, f, scale=sc)
    elif f == "trace1":
        if D > 1:
            ctx.close(x.trace(1), np.trace(X, 1), 1e-11, f, scale=sc)
            ctx.close(x.trace(offset=-1), np.trace(X, -1), 1e-11, f, scale=sc)
    elif f == "diagonal":
        ctx.close(x.diagonal(), np.diag(X), 1e-11, f, scale=sc)
    elif f == "ravel":
        ctx.close(x.ravel(), X.ravel(), 1e-11, f, scale=sc)
    elif f == "adot":
        ctx.close(mm.adot(x, y), np.vdot(X, Y), 1e-11, f, scale=sc)
        ctx.close(mm.adot(x, y), np.trace(X.conj().T.dot(Y)), 1e-11, f, scale=sc)
    elif f == "adot_noconj":
        ctx.close(mm.adot_noconj(x, y), np.trace(X.dot(Y)), 1e-11, f, scale=sc)
    elif f == "asarray":
        ctx.close(np.asarray(x), X, 1e-11, f, scale=sc)
    else:
        ctx.check(np.allclose(x, X, atol=1e-9 * sc), "allclose")
    for a, b in inputs:
        ctx.check((np.array(dense.arr(a)) == b).all(), "an operand was modified")
    ctx.nontrivial(D > 1 and len(kinds) == 2)


# ---------------------------------------------------------------- factorisations
@st.composite
def herm_case(draw):
    return dict(D=draw(st.integers(1, 7)), rank=draw(st.integers(0, 7)), real=draw(st.booleans()),
                spread=draw(st.sampled_from([0., 1., 3., 6.])), scale=draw(st.sampled_from([1., 1., 1e-6, 1e6])),
                lay=draw(st.sampled_from(["C", "F", "view"])), diag=draw(st.sampled_from([False, False, True, "eye"])),
                degen=draw(st.booleans()), noise=draw(st.booleans()), lower=draw(st.booleans()), evd=draw(st.booleans()), rk=draw(st.booleans()),
                inv=draw(st.sampled_from([True, True, False])), checks=draw(st.booleans()), seed=draw(gens.seeds))


def psd(c, indef=False):
    from .p12 import layout
    r = gens.rng(c["seed"], "psd")
    D = c["D"]
    k = min(D, c["rank"])
    w = np.zeros(D)
    w[:k] = c["scale"] * (10. ** (-r.uniform(0, c["spread"], k)))
    if c["degen"] and k:
        w[:k] = c["scale"]
    if indef:
        w = w * np.sign(r.uniform(-1, 1, D))
    U = la.qr(r.standard_normal((D, D)))[0] if c["real"] else gens.rand_unitary(r, D)
    X = (U * w).dot(U.conj().T)
    X = (X + X.conj().T) / 2
    return layout(X, c["lay"]), np.array(X), w, k, U


@facet("P13", herm_case(), quick=900, shards=3, rule="at least two-dimensional and not zero")
def square_roots(c, ctx):
    import evoMPS.tdvp_common as tm
    import evoMPS.matmul as mm
    x, X, w, k, U = psd(c)
    s, D = c["scale"], c["D"]
    ctx.nontrivial(D > 1 and k > 0)
    ztol = 1e-10 * s
    if c["spread"] >= 6 and k and min(w[:k]) < 1e-8 * s:
        raise Skip("eigenvalues close to the threshold")
    P = (U[:, :k]).dot(U[:, :k].conj().T)
    if c["diag"] == "eye":
        x, X, k, P, w = mm.eyemat(D, dtype=complex), np.eye(D), D, np.eye(D), np.ones(D)
        s, ztol = 1., 1e-10
    elif c["diag"]:
        d = np.array(w, dtype=float if c["real"] else complex)
        x, X, P = mm.simple_diag_matrix(d), np.diag(w), np.diag((w > 0) * 1.)
    X0 = np.array(dense.arr(x))
    out = tm.herm_sqrt_inv(x, zero_tol=ztol, sanity_checks=c["checks"], return_rank=c["rk"])
    ctx.check(len(out) == (3 if c["rk"] else 2), "number of results")
    R, Ri = dense.arr(out[0]), dense.arr(out[1])
    if c["rk"]:
        ctx.check(out[2] == k, "rank %r instead of %d" % (out[2], k))
    cond = 10. ** c["spread"]
    ctx.close(R.dot(R), X, 1e-9, "square of the square root", scale=s)
    ctx.close(R, R.conj().T, 1e-11, "Hermitian root", scale=np.sqrt(s))
    ctx.le(-1e-5 * np.sqrt(s), la.eigvalsh((R + R.conj().T) / 2).min(), "positive root")
    ctx.close(R.dot(Ri), P, 1e-9 * cond, "root times its inverse")
    ctx.close(Ri.dot(X).dot(Ri), P, 1e-9 * cond, "inverse root applied twice")
    ctx.check((dense.arr(x) == X0).all(), "the input was modified")
    # the pair used by every step
    y, Y, w2, k2, U2 = psd(dict(c, seed=c["seed"] + 1, rank=c["D"], spread=1.))
    a, ai, b, bi = tm.calc_l_r_roots(x, y, zero_tol=ztol)
    ctx.close(dense.arr(a), R, 1e-10, "calc_l_r_roots (left)", scale=np.sqrt(s))
    ctx.close(dense.arr(ai), Ri, 1e-10 * cond, "calc_l_r_roots (left inverse)", scale=1 / np.sqrt(s))
    ctx.close(dense.arr(b).dot(dense.arr(b)), Y, 1e-9, "calc_l_r_roots (right)", scale=c["scale"])
    ctx.close(dense.arr(b).dot(dense.arr(bi)), np.eye(D), 1e-8, "calc_l_r_roots (right inverse)")


@facet("P13", herm_case(), quick=900, shards=3, rule="at least two-dimensional and not zero")
def factors(c, ctx):
    """herm_fac_with_inv"""
    import evoMPS.tdvp_common as tm
    x, X, w, k, U = psd(c)
    s, D = c["scale"], c["D"]
    ctx.nontrivial(D > 1 and k > 0)
    if c["spread"] >= 6 and k and min(w[:k]) < 1e-8 * s:
        raise Skip("eigenvalues close to the threshold")
    ztol = 1e-10 * s
    out = tm.herm_fac_with_inv(x, lower=c["lower"], zero_tol=ztol, return_rank=c["rk"], calc_inv=c["inv"], force_evd=c["evd"],
                               sanity_checks=c["checks"])
    out = out if isinstance(out, tuple) else (out,)
    ctx.check(len(out) == 1 + c["rk"] + c["inv"], "number of results")
    F = dense.arr(out[0])
    ctx.check((np.array(x) == X).all(), "the input was modified")
    got = F.dot(F.conj().T) if c["lower"] else F.conj().T.dot(F)
    ctx.close(got, X, 1e-9, "product of the factors", scale=s)
    sharp = c["evd"] or k == D
    if c["rk"] and sharp:
        ctx.check(out[-1] == k, "rank %r instead of %d" % (out[-1], k))
    if c["inv"] and sharp:
        Fi = dense.arr(out[1])
        cond = 10. ** c["spread"]
        a, b = (Fi, F) if c["lower"] else (F, Fi)
        one = a.dot(b)
        # a projector of the right rank: the identity if there are no zeros
        want = np.diag(np.r_[np.zeros(D - k), np.ones(k)])
        ctx.close(one, want, 1e-8 * cond, "factor times its inverse")
        M = Fi.dot(X).dot(Fi.conj().T) if c["lower"] else Fi.conj().T.dot(X).dot(Fi)
        ctx.close(M, want, 1e-8 * cond, "matrix between the inverse factors")
        back = F.dot(Fi).dot(F)
        ctx.close(back, F, 1e-8 * cond, "pseudo-inverse", scale=np.sqrt(s))


@facet("P13", herm_case(), quick=700, shards=2, rule="at least two-dimensional")
def inverses(c, ctx):
    """sqrtmh, invmh, invtr, H, mmul_diag, randomize_cmplx"""
    import evoMPS.matmul as mm
    from .p12 import layout
    c["rank"] = c["D"]
    s, D = c["scale"], c["D"]
    ctx.nontrivial(D > 1)
    x, X, w, k, U = psd(c, indef=True)
    cond = 10. ** c["spread"]
    R = mm.sqrtmh(x)
    ctx.close(R.dot(R), X, 1e-9, "square of the (complex) root", scale=s)
    R2, (ev, EV) = mm.sqrtmh(x, ret_evd=True)
    ctx.close(R2, R, 1e-12, "root with decomposition", scale=np.sqrt(s))
    ctx.close((EV * ev).dot(EV.conj().T), R, 1e-9, "decomposition of the root", scale=np.sqrt(s))
    ctx.close(mm.sqrtmh(x, evd=la.eigh(X)), R, 1e-8, "root from a given decomposition", scale=np.sqrt(s))
    V = mm.invmh(x)
    ctx.close(V.dot(X), np.eye(D), 1e-9 * cond, "inverse")
    V2, (ev, EV) = mm.invmh(x, ret_evd=True)
    ctx.close((EV * ev).dot(EV.conj().T).dot(X), np.eye(D), 1e-9 * cond, "decomposition of the inverse")
    ctx.close(mm.invmh(x, evd=la.eigh(X)).dot(X), np.eye(D), 1e-9 * cond, "inverse from a given decomposition")
    ctx.check((np.array(x) == X).all(), "the input was modified")
    # triangular
    r = gens.rng(c["seed"], "tr")
    T = r.standard_normal((D, D)) if c["real"] else gens.cgauss(r, D, D)
    T = 0.3 * (np.tril(T) if c["lower"] else np.triu(T))
    T[np.arange(D), np.arange(D)] = (1 + r.uniform(0, 1, D)) * (1 if c["real"] else np.exp(1j * r.uniform(0, 6, D)))
    T *= s
    t = layout(T, c["lay"])
    Ti = mm.invtr(t, lower=c["lower"])
    ctx.check((np.array(t) == T).all(), "invtr modified its input")
    ctx.close(Ti.dot(T), np.eye(D), 1e-8 * 2. ** D, "triangular inverse")
    ctx.close(Ti, np.tril(Ti) if c["lower"] else np.triu(Ti), 1e-12, "triangular form of the inverse", scale=1 / s)
    Ti = mm.invtr(t.copy(order="F"), overwrite=True, lower=c["lower"])
    ctx.close(Ti.dot(T), np.eye(D), 1e-8 * 2. ** D, "triangular inverse (overwriting)")
    T[D // 2, D // 2] = 0
    try:
        mm.invtr(T, lower=c["lower"])
        raised = None
    except Exception as e:
        raised = e
    ctx.check(isinstance(raised, la.LinAlgError), "singular triangular matrix: %r" % (raised,))
    # adjoints, also in place
    m = gens.cgauss(r, D, D)
    M = m.copy()
    ctx.close(mm.H(m), M.conj().T, 1e-15, "H")
    out = np.zeros((D, D), dtype=complex)
    ret = mm.H(m, out)
    ctx.check(ret is out, "H does not return its output")
    ctx.close(out, M.conj().T, 1e-15, "H with output")
    ctx.check((m == M).all(), "H modified its input")
    mm.H(m, m)
    ctx.close(m, M.conj().T, 1e-15, "H in place")
    # diagonal products
    d = gens.cgauss(r, D)
    B = layout(gens.cgauss(r, D, 4), c["lay"])
    ctx.close(mm.mmul_diag(d, B), np.diag(d).dot(B), 1e-12, "mmul_diag", scale=10)
    ctx.close(mm.mmul_diag(d, B.T, act_right=False), B.T.dot(np.diag(d)), 1e-12, "mmul_diag from the right", scale=10)
    for lay in "C", "F":
        o = layout(np.zeros((D, 4), dtype=complex), lay)
        mm.mmul_diag(d, B, out=o)
        ctx.close(o, np.diag(d).dot(B), 1e-12, "mmul_diag with output", scale=10)
    z = np.zeros((3, D, 2), dtype=complex)
    z2 = mm.randomize_cmplx(z, a=-1, b=2, aj=0.5, bj=0.75)
    ctx.check(z2 is z and ((z.real >= -1) & (z.real < 2) & (z.imag >= 0.5) & (z.imag < 0.75)).all(), "randomize_cmplx range")
    ctx.check(len(set(z.ravel())) == z.size, "randomize_cmplx repeats values")


@st.composite
def null_case(draw):
    return dict(m=draw(st.integers(1, 6)), k=draw(st.integers(1, 7)), rank=draw(st.integers(0, 6)), real=draw(st.booleans()),
                lay=draw(st.sampled_from(["C", "F", "view"])), flat=draw(st.booleans()), q=draw(st.integers(1, 4)), D=draw(st.integers(1, 4)),
                Dm=draw(st.integers(1, 4)), spread=draw(st.sampled_from([0., 1., 3.])), env=draw(st.sampled_from(["dense", "diag", "eye"])),
                checks=draw(st.booleans()), seed=draw(gens.seeds))


@facet("P13", null_case(), quick=800, shards=2, rule="there is a null space")
def null_spaces(c, ctx):
    import evoMPS.nullspace as ns
    import evoMPS.tdvp_common as tm
    import evoMPS.matmul as mm
    from .p12 import layout
    r = gens.rng(c["seed"], "null")
    g = (lambda *s: r.standard_normal(s)) if c["real"] else (lambda *s: gens.cgauss(r, *s))
    m, k = c["m"], c["k"]
    rank = min(m, k, c["rank"])
    U, V = la.qr(g(m, m))[0][:, :rank], la.qr(g(k, k))[0][:, :rank]
    w = 10. ** (-r.uniform(0, c["spread"], rank))
    A = (U * w).dot(V.conj().T)
    a = layout(A, c["lay"])
    ctx.check(ns.rank(a, atol=1e-10) == rank, "rank")
    ctx.check(ns.rank(1e4 * A, rtol=1e-8) == rank, "rank with relative tolerance")
    N = ns.nullspace(a, atol=1e-10)
    ctx.check(N.shape == (k, k - rank), "shape of the null space %r" % (N.shape,))
    ctx.close(A.dot(N), 0 * A.dot(N), 1e-10, "matrix times null space")
    ctx.close(N.conj().T.dot(N), np.eye(k - rank), 1e-10, "orthonormal basis")
    ctx.check(ns.nullspace(1e4 * A, rtol=1e-8).shape == (k, k - rank), "null space with relative tolerance")
    ctx.check((np.array(a) == A).all(), "the input was modified")
    v = g(k)
    ctx.check(ns.rank(v) == 1 and ns.nullspace(v).shape == (k, k - 1), "vectors as one-row matrices")
    if m <= k:
        B = layout(g(m, k), c["lay"])
        N = ns.nullspace_qr(B)
        ctx.check(N.shape == (k, k - m), "shape of the QR null space %r" % (N.shape,))
        sv = la.svdvals(B)
        if sv[-1] > 1e-3 * sv[0]:
            ctx.close(B.dot(N), 0 * B.dot(N), 1e-11, "matrix times QR null space", scale=10)
        ctx.close(N.conj().T.dot(N), np.eye(k - m), 1e-11, "orthonormal QR basis")
    # tangent space bases of a site tensor
    q, D, Dm = c["q"], c["D"], c["Dm"]
    T = gens.cgauss(r, q, Dm, D)

    def root(n):
        if c["env"] == "eye":
            return mm.eyemat(n, dtype=complex), np.eye(n)
        if c["env"] == "diag":
            d = r.uniform(.1, 1, n).astype(complex)
            return mm.simple_diag_matrix(d), np.diag(d)
        M = gens.cgauss(r, n, n)
        M = M.dot(M.conj().T) + 0.1 * np.eye(n)
        return M, M
    rs, RS = root(D)
    ls, LS = root(Dm)
    Vr = tm.calc_Vsh(T, rs, sanity_checks=c["checks"])
    n = q * D - Dm
    ctx.nontrivial(n > 0 or rank < k)
    ctx.check((Vr is None) == (n <= 0), "calc_Vsh: presence of a null space")
    if Vr is not None:
        ctx.check(Vr.shape == (q, D, n), "calc_Vsh: shape %r" % (Vr.shape,))
        Vs = np.transpose(Vr, (0, 2, 1)).conj()
        ctx.close(np.einsum('sab,sdb->ad', Vs, Vs.conj()), np.eye(n), 1e-10, "calc_Vsh: orthonormal")
        z = np.einsum('sab,bc,sdc->ad', Vs, RS, T.conj())
        ctx.close(z, 0 * z, 1e-10, "calc_Vsh: orthogonal to the tensor", scale=1 + abs(RS).max() * 10)
    n = q * Dm - D
    Vl = tm.calc_Vsh_l(T, ls, sanity_checks=c["checks"])
    ctx.check((Vl is None) == (n <= 0), "calc_Vsh_l: presence of a null space")
    if Vl is not None:
        ctx.check(Vl.shape == (q, n, Dm), "calc_Vsh_l: shape %r" % (Vl.shape,))
        Vs = np.transpose(Vl, (0, 2, 1)).conj()
        ctx.close(np.einsum('sba,sbd->ad', Vs.conj(), Vs), np.eye(n), 1e-10, "calc_Vsh_l: orthonormal")
        z = np.einsum('sba,bc,scd->ad', T.conj(), LS, Vs)
        ctx.close(z, 0 * z, 1e-10, "calc_Vsh_l: orthogonal to the tensor", scale=1 + abs(LS).max() * 10)
