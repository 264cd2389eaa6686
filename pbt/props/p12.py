"""P12: transfer maps and local contractions equal their defining sums."""
import numpy as np
from hypothesis import strategies as st
from ..core import facet
from .. import gens, dense

TOL = 1e-11
dim = st.integers(1, 4)
phys = st.integers(1, 3)


@st.composite
def case(draw):
    return dict(q=[draw(phys) for _ in range(3)], Dk=[draw(dim) for _ in range(4)], Db=[draw(dim) for _ in range(4)],
                same=draw(st.booleans()), real=draw(st.sampled_from([False, False, False, True])),
                env=draw(st.sampled_from(["dense", "dense", "real", "fortran", "view", "diag", "diagreal", "eye"])),
                lay=draw(st.sampled_from(["C", "C", "F", "view"])), op=draw(gens.op_kinds), seed=draw(gens.seeds),
                M=[draw(st.integers(1, 3)) for _ in range(2)])


def layout(a, lay):
    if lay == "F":
        return np.asfortranarray(a)
    if lay == "view":
        b = np.zeros(tuple(2 * x for x in a.shape), dtype=a.dtype)
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    return np.ascontiguousarray(a)


class Box(object):
    """Inputs of one case, with a memory of their values."""

    def __init__(self, c):
        self.c = c
        self.r = gens.rng(c["seed"], "12")
        self.seen = []
        if c["same"]:
            c["Db"] = c["Dk"]
        elif c["env"] in ("diag", "diagreal", "eye"):
            # these environments are square
            c["Db"] = list(c["Db"])
            for i in (0, 1, 2, 3):
                c["Db"][i] = c["Dk"][i]

    def keep(self, a):
        self.seen.append((a, np.array(a, copy=True)))
        return a

    def arr(self, *shape):
        a = self.r.standard_normal(shape) if self.c["real"] else gens.cgauss(self.r, *shape)
        return self.keep(layout(a, self.c["lay"]))

    def ket(self, n, prefix=()):
        return self.arr(self.c["q"][n], self.c["Dk"][n], self.c["Dk"][n + 1])

    def bra(self, n):
        return self.arr(self.c["q"][n], self.c["Db"][n], self.c["Db"][n + 1])

    def env(self, n):
        from evoMPS import matmul as mm
        k, a, b = self.c["env"], self.c["Dk"][n], self.c["Db"][n]
        if k == "eye":
            x = mm.eyemat(a, dtype=np.float64 if self.c["real"] else np.complex128)
            return x, np.eye(a)
        if k in ("diag", "diagreal"):
            d = self.r.standard_normal(a) if k == "diagreal" or self.c["real"] else gens.cgauss(self.r, a)
            x = mm.simple_diag_matrix(self.keep(d))
            return x, np.diag(d)
        m = self.r.standard_normal((a, b)) if k == "real" or self.c["real"] else gens.cgauss(self.r, a, b)
        m = layout(m, {"fortran": "F", "view": "view"}.get(k, "C"))
        return self.keep(m), np.array(m)

    def op(self, *ns):
        q = [self.c["q"][n] for n in ns]
        o = gens.local_op(self.c["seed"], q, self.c["op"], salt="op%s" % (ns,))
        if self.c["real"]:
            o = o.real.copy()
        return self.keep(layout(o, self.c["lay"]))

    def intact(self, ctx):
        for a, b in self.seen:
            ctx.check(a.shape == b.shape and (a == b).all(), "an input was modified")

    def fresh(self, ctx, res, what):
        for a, _ in self.seen:
            ctx.check(not np.shares_memory(res, a), what + " shares memory with an input")


def scale(*xs):
    s = 1.
    for x in xs:
        s *= max(1., np.linalg.norm(np.asarray(x).ravel()))
    return s


def AAs(*T):
    """T1[s,a,b] T2[t,b,c] ... -> [s,t,..,a,z]"""
    out = T[0]
    for i, t in enumerate(T[1:]):
        n = out.ndim - 2
        out = np.tensordot(out, t, axes=(-1, 1))            # s.., a, t, c
        out = np.moveaxis(out, n + 1, n)
    return out


def R(x, K, B):
    """sum over all physical legs of K x B^+"""
    K, B = K.reshape((-1,) + K.shape[-2:]), B.reshape((-1,) + B.shape[-2:])
    return np.einsum('sab,bc,sdc->ad', K, x, B.conj())


def L(x, K, B):
    """sum of K^+ x B"""
    K, B = K.reshape((-1,) + K.shape[-2:]), B.reshape((-1,) + B.shape[-2:])
    return np.einsum('sba,bc,scd->ad', K.conj(), x, B)


def opon(op, K):
    k = op.ndim // 2
    return np.tensordot(op, K, axes=(list(range(k, 2 * k)), list(range(k))))


class Checker(object):
    def __init__(self, b, ctx):
        self.b, self.ctx = b, ctx

    def __call__(self, got, want, sc, what):
        got = dense.arr(got)
        self.ctx.check(got.shape == want.shape, what + ": shape %r instead of %r" % (got.shape, want.shape))
        self.ctx.close(got, want, TOL, what, scale=sc)
        self.b.fresh(self.ctx, got, what)
        self.b.intact(self.ctx)


def nontriv(c, ctx):
    ctx.nontrivial(max(c["Dk"]) > 1 and max(c["q"]) > 1)


@facet("P12", case(), quick=700, shards=3, rule="some bond and some site dimension exceed one")
def one_site(c, ctx):
    import evoMPS.core_common as cc
    import evoMPS.tdvp_common as tm
    import evoMPS.matmul as mm
    b = Box(c)
    ck = Checker(b, ctx)
    nontriv(c, ctx)
    A1, A2 = b.ket(0), b.bra(0)
    xl, Xl = b.env(0)
    xr, Xr = b.env(1)
    o = b.op(0)
    sc = scale(A1, A2, Xl)
    scr = scale(A1, A2, Xr)
    for mod in (cc, tm):
        l = mod.eps_l_noop(xl, A1, A2)
        r = mod.eps_r_noop(xr, A1, A2)
        ck(l, L(Xl, A1, A2), sc, "eps_l_noop")
        ck(r, R(Xr, A1, A2), scr, "eps_r_noop")
        for lay in ("C", "F", "view"):
            dt = l.dtype
            out = layout(np.full(l.shape, 7, dtype=dt), lay)
            ret = mod.eps_l_noop_inplace(xl, A1, A2, out)
            ck(out, L(Xl, A1, A2), sc, "eps_l_noop_inplace")
            ctx.check(ret is out, "eps_l_noop_inplace does not return its output")
            out = layout(np.full(r.shape, 7, dtype=dt), lay)
            ret = mod.eps_r_noop_inplace(xr, A1, A2, out)
            ck(out, R(Xr, A1, A2), scr, "eps_r_noop_inplace")
            ctx.check(ret is out, "eps_r_noop_inplace does not return its output")
    lo = cc.eps_l_op_1s(xl, A1, A2, o)
    ro = cc.eps_r_op_1s(xr, A1, A2, o)
    ck(ro, R(Xr, opon(o, A1), A2), scr * scale(o), "eps_r_op_1s")
    ck(lo, L(Xl, opon(o, A1), A2), sc * scale(o), "eps_l_op_1s")
    # adjoint pairing, with the library's own inner products
    ctx.close(mm.adot(lo, Xr), mm.adot(Xl, ro), TOL, "left and right maps are adjoint", scale=sc * scr * scale(o))
    ctx.close(mm.adot(l, xr), mm.adot(xl, r), TOL, "left and right maps without operator are adjoint", scale=sc * scr)
    # operator valued environments
    M0, M1 = c["M"]
    q = c["q"][0]
    W = b.arr(M0, M1, q, q)
    X = b.arr(M1, c["Dk"][1], c["Db"][1])
    Y = b.arr(M0, c["Dk"][0], c["Db"][0])
    ck(cc.eps_r_op_MPO(X, A1, A2, W), np.einsum('mnst,tab,nbc,sdc->mad', W, A1, X, A2.conj()), scale(W, X, A1, A2), "eps_r_op_MPO")
    ck(cc.eps_l_op_MPO(Y, A1, A2, W), np.einsum('mnst,tba,mbc,scd->nad', W.conj(), A1.conj(), Y, A2), scale(W, Y, A1, A2), "eps_l_op_MPO")
    want = np.einsum('mnst,tab->sambn', W, A1).reshape(q, c["Dk"][0] * M0, c["Dk"][1] * M1)
    ck(tm.apply_MPO_local(W, A1), want, scale(W, A1), "apply_MPO_local")


@facet("P12", case(), quick=600, shards=3, rule="some bond and some site dimension exceed one")
def two_site(c, ctx):
    import evoMPS.core_common as cc
    import evoMPS.tdvp_common as tm
    b = Box(c)
    ck = Checker(b, ctx)
    nontriv(c, ctx)
    A1, A2, B1, B2 = b.ket(0), b.ket(1), b.bra(0), b.bra(1)
    o = b.op(0, 1)
    xl, Xl = b.env(0)
    xr, Xr = b.env(2)
    K, Bb = AAs(A1, A2), AAs(B1, B2)
    CK = opon(o, K)
    s4 = scale(A1, A2, B1, B2)
    sl, sr = s4 * scale(Xl), s4 * scale(Xr)
    so = scale(o)
    oc = opon(np.conj(np.moveaxis(o, (2, 3), (0, 1))), K)
    AA, BB = cc.calc_AA(A1, A2), cc.calc_AA(B1, B2)
    ck(AA, K, scale(A1, A2), "calc_AA")
    f = lambda s, t, u, v: o[s, t, u, v]
    C = tm.calc_C_mat_op_AA(o, AA)
    ck(C, CK, scale(A1, A2) * so, "calc_C_mat_op_AA")
    ck(tm.calc_C_mat_op_AA_tensordot(o, AA), CK, scale(A1, A2) * so, "calc_C_mat_op_AA_tensordot")
    ck(cc.calc_C_func_op(f, A1, A2), CK, scale(A1, A2) * so, "calc_C_func_op")
    ck(cc.calc_C_func_op_AA(f, AA), CK, scale(A1, A2) * so, "calc_C_func_op_AA")
    ck(tm.calc_C_conj_mat_op_AA(o, AA), oc, scale(A1, A2) * so, "calc_C_conj_mat_op_AA")
    ck(tm.calc_C_conj_mat_op_AA_tensordot(o, AA), oc, scale(A1, A2) * so, "calc_C_conj_mat_op_AA_tensordot")
    want = R(Xr, CK, Bb)
    ck(cc.eps_r_op_2s_A(xr, A1, A2, B1, B2, o), want, sr * so, "eps_r_op_2s_A")
    ck(cc.eps_r_op_2s_AA12(xr, AA, B1, B2, o), want, sr * so, "eps_r_op_2s_AA12")
    ck(cc.eps_r_op_2s_AA_func_op(xr, AA, BB, f), want, sr * so, "eps_r_op_2s_AA_func_op")
    ck(cc.eps_r_op_2s_C12(xr, C, B1, B2), want, sr * so, "eps_r_op_2s_C12")
    ck(tm.eps_r_op_2s_C12_AA34(xr, C, BB), want, sr * so, "eps_r_op_2s_C12_AA34")
    CB = tm.calc_C_mat_op_AA(o, BB)
    wr, wl = R(Xr, K, opon(o, Bb)), L(Xl, K, opon(o, Bb))
    ck(cc.eps_r_op_2s_C34(xr, A1, A2, CB), wr, sr * so, "eps_r_op_2s_C34")
    ck(tm.eps_r_op_2s_AA12_C34(xr, AA, CB), wr, sr * so, "eps_r_op_2s_AA12_C34")
    ck(tm.eps_l_op_2s_AA12_C34(xl, AA, CB), wl, sl * so, "eps_l_op_2s_AA12_C34")
    ck(tm.eps_l_op_2s_A1_A2_C34(xl, A1, A2, CB), wl, sl * so, "eps_l_op_2s_A1_A2_C34")
    ck(cc.eps_r_noop_multi(xr, [A1, A2], [B1, B2]), R(Xr, K, Bb), sr, "eps_r_noop_multi")
    ck(cc.eps_r_noop_multi(xr, [AA], [B1, B2]), R(Xr, K, Bb), sr, "eps_r_noop_multi, grouped ket")
    ck(cc.eps_r_noop_multi(xr, [A1, A2], [CB]), wr, sr * so, "eps_r_noop_multi, grouped bra")
    # operators in tensor-product form
    r = gens.rng(c["seed"], "tp")
    tp = [[b.op(0) if i == 0 else b.arr(c["q"][0], c["q"][0]), b.arr(c["q"][1], c["q"][1])] for i in range(1 + r.randint(3))]
    O = sum(np.einsum('su,tv->stuv', *t) for t in tp)
    st_ = sum(scale(*t) for t in tp)
    if c["lay"] == "C":
        ck(tm.calc_C_mat_op_tp(tp, A1, A2), opon(O, K), scale(A1, A2) * st_, "calc_C_mat_op_tp")
        Ct = tm.calc_C_tp(tp, A1, A2)
        ctx.close(sum(AAs(*t) for t in Ct), opon(O, K), TOL, "calc_C_tp", scale=scale(A1, A2) * st_)
        ck(tm.eps_r_op_2s_C12_tp(xr, Ct, B1, B2), R(Xr, opon(O, K), Bb), sr * st_, "eps_r_op_2s_C12_tp")
        Cb = tm.calc_C_tp(tp, B1, B2)
        ck(tm.eps_l_op_2s_C34_tp(xl, A1, A2, Cb), L(Xl, K, opon(O, Bb)), sl * st_, "eps_l_op_2s_C34_tp")


@facet("P12", case(), quick=350, shards=3, rule="some bond and some site dimension exceed one")
def three_site(c, ctx):
    import evoMPS.core_common as cc
    import evoMPS.tdvp_common as tm
    b = Box(c)
    ck = Checker(b, ctx)
    nontriv(c, ctx)
    A, B = [b.ket(n) for n in range(3)], [b.bra(n) for n in range(3)]
    o = b.op(0, 1, 2)
    xl, Xl = b.env(0)
    xr, Xr = b.env(3)
    K, Bb = AAs(*A), AAs(*B)
    sA = scale(*A)
    sr, sl, so = scale(Xr, *A) * scale(*B), scale(Xl, *A) * scale(*B), scale(o)
    AAA = cc.calc_AAA(*A)
    ck(AAA, K, sA, "calc_AAA")
    ck(cc.calc_AAA_AA(cc.calc_AA(A[0], A[1]), A[2]), K, sA, "calc_AAA_AA")
    ck(cc.calc_AAA_AAr(A[0], cc.calc_AA(A[1], A[2])), K, sA, "calc_AAA_AAr")
    BBB = cc.calc_AAA(*B)
    CK = opon(o, K)
    C = tm.calc_C_3s_mat_op_AAA(o, AAA)
    ck(C, CK, sA * so, "calc_C_3s_mat_op_AAA")
    ck(tm.calc_C_3s_mat_op_AAA_tensordot(o, AAA), CK, sA * so, "calc_C_3s_mat_op_AAA_tensordot")
    ck(tm.eps_r_op_3s_C123_AAA456(xr, C, BBB), R(Xr, CK, Bb), sr * so, "eps_r_op_3s_C123_AAA456")
    CB = tm.calc_C_3s_mat_op_AAA(o, BBB)
    ck(tm.eps_l_op_3s_AAA123_C456(xl, AAA, CB), L(Xl, K, opon(o, Bb)), sl * so, "eps_l_op_3s_AAA123_C456")
    ck(cc.eps_r_noop_multi(xr, A, B), R(Xr, K, Bb), sr, "eps_r_noop_multi")
    ck(cc.eps_r_noop_multi(xr, [A[0], cc.calc_AA(A[1], A[2])], [cc.calc_AA(B[0], B[1]), B[2]]), R(Xr, K, Bb), sr, "eps_r_noop_multi, grouped")


@facet("P12", case(), quick=350, shards=3, rule="some bond and some site dimension exceed one")
def interactions(c, ctx):
    """Energy environments: one recursion step from either side, with the energy they report."""
    import evoMPS.core_common as cc
    import evoMPS.tdvp_common as tm
    c["same"] = True
    c["lay"] = "C"
    b = Box(c)
    ck = Checker(b, ctx)
    nontriv(c, ctx)
    A = [b.ket(n) for n in range(3)]
    o2, o3 = b.op(0, 1), b.op(0, 1, 2)
    s2, s3 = scale(A[0], A[1]) ** 2 * scale(o2), scale(*A) ** 2 * scale(o3)
    K2, K3 = AAs(A[0], A[1]), AAs(*A)
    xl, Xl = b.env(0)
    x2, X2 = b.env(2)
    x3, X3 = b.env(3)
    Kr = b.arr(c["Dk"][1], c["Dk"][1])
    sk = scale(A[0]) ** 2 * scale(Kr)
    AA, AAA = cc.calc_AA(A[0], A[1]), cc.calc_AAA(*A)
    C2, C3 = tm.calc_C_mat_op_AA(o2, AA), tm.calc_C_3s_mat_op_AAA(o3, AAA)
    tp = [[b.arr(c["q"][0], c["q"][0]), b.arr(c["q"][1], c["q"][1])] for i in range(2)]
    O = sum(np.einsum('su,tv->stuv', *t) for t in tp)
    Ct = tm.calc_C_tp(tp, A[0], A[1])
    sp_ = s2 / scale(o2) * sum(scale(*t) for t in tp)
    for lm in (xl, None):
        for name, got, add, sc in (
                ("calc_K", tm.calc_K(Kr, C2, lm, x2, A[0], AA), R(X2, opon(o2, K2), K2), s2 * scale(X2)),
                ("calc_K_tp", tm.calc_K_tp(Kr, lm, x2, A[0], A[1], Ct), R(X2, opon(O, K2), K2), sp_ * scale(X2)),
                ("calc_K_3s", tm.calc_K_3s(Kr, C3, lm, x3, A[0], AAA), R(X3, opon(o3, K3), K3), s3 * scale(X3))):
            ck(got[0], R(Kr, A[0], A[0]) + add, sc + sk, name)
            if lm is None:
                ctx.check(np.isnan(got[1]), name + " reports an energy without the left environment")
            else:
                ctx.close(got[1], np.vdot(Xl, add), TOL, name + ": energy", scale=sc * scale(Xl))
    for name, n, args, add, sc in (
            ("calc_K_l", 1, lambda Kl, r: tm.calc_K_l(Kl, C2, xl, r, A[1], AA), L(Xl, K2, opon(o2, K2)), s2 * scale(Xl)),
            ("calc_K_l_tp", 1, lambda Kl, r: tm.calc_K_l_tp(Kl, xl, r, A[0], A[1], Ct), L(Xl, K2, opon(O, K2)), sp_ * scale(Xl)),
            ("calc_K_3s_l", 2, lambda Kl, r: tm.calc_K_3s_l(Kl, C3, xl, r, A[2], AAA), L(Xl, K3, opon(o3, K3)), s3 * scale(Xl))):
        Kl = b.arr(c["Dk"][n], c["Dk"][n])
        xr, Xr = b.env(n + 1)
        for r in (xr, None):
            got = args(Kl, r)
            ck(got[0], L(Kl, A[n], A[n]) + add, sc + scale(Kl) * scale(A[n]) ** 2, name)
            if r is None:
                ctx.check(np.isnan(got[1]), name + " reports an energy without the right environment")
            else:
                ctx.close(got[1], np.trace(add.dot(Xr)), TOL, name + ": energy", scale=sc * scale(Xr))
    # moving through the chain from the left or from the right gives the same number
    xm, Xm = b.env(3)
    el = np.vdot(L(Xl, opon(o2, K2), K2), R(Xm, A[2], A[2]))
    got = tm.mm.adot(xl, cc.eps_r_op_2s_C12(cc.eps_r_noop(xm, A[2], A[2]), C2, A[0], A[1]))
    ctx.close(got, np.conj(np.conj(el)), TOL, "expectation value from left and right", scale=s2 * scale(A[2]) ** 2 * scale(Xl, Xm))
