"""P15: uniform states are normalised, canonical, and keep their physical content."""
import numpy as np
import scipy.linalg as la
from hypothesis import strategies as st
from ..core import facet, Skip
from .. import gens, dense, uniform as un

METHODS = ["arpack", "arpack", "brute", "power"]


@st.composite
def case(draw, **kw):
    return dict(c=draw(un.cell(**kw)), symm=draw(st.booleans()), method=draw(st.sampled_from(METHODS)), cf=draw(st.sampled_from([True, True, True, False])),
                scale=draw(st.sampled_from([1., 1., 1e-2, 30.])))


def tols(c, method, inf):
    """Iterative fixed points are good to about rtol / gap (power iteration stops at a relative change of 1e-13); canonical forms divide by
    the environments, which multiplies this by their condition number."""
    if c["kind"] == "deficient":
        return 1e-7, 1e-6
    t = (1e-12 if method != "power" else 1e-11) / inf.gap
    x = inf.cond()
    if x > 1e6:
        raise Skip("ill-conditioned environments")
    return max(10 * t, 1e-10), max(10 * t, t * x, 1e-9)


def guard(c, As, method):
    inf = un.Inf(As)
    un.wellposed(inf, gap=.05 if method != "power" else .1, smin=1e-3, deficient=c["kind"] == "deficient")
    return inf


@facet("P15", case(), quick=520, shards=4, rule="bond dimension of at least two and canonical form restored")
def update(c, ctx):
    from evoMPS.mps_uniform import EvoMPS_MPS_Uniform
    cc = c["c"]
    As = un.tensors(cc)
    inf = guard(cc, As, c["method"])
    f = c["scale"] if cc["kind"] != "deficient" else inf.norm ** (-.5 / cc["L"])      # (zeros are detected with an absolute tolerance)
    s = un.make(EvoMPS_MPS_Uniform, cc, [A * f for A in As], c["symm"], c["method"])
    ctx.nontrivial(cc["D"] > 1 and c["cf"])
    ctx.tag("L=%d" % cc["L"])
    t0, t1 = tols(cc, c["method"], inf)
    if cc["kind"] == "deficient":
        s.zero_tol = 1e-9               # (the default is below the rounding error of the fixed points)
    s.update(restore_CF=c["cf"])
    un.check_fixed(ctx, s, t1 if c["cf"] else t0, "update")
    if c["cf"]:
        un.check_form(ctx, s, t1, "update")
    un.check_same(ctx, un.Inf(s.A), inf, t1, "update")
    # repeating the refresh changes nothing any more
    s.update()
    un.check_fixed(ctx, s, t1, "second update")
    un.check_same(ctx, un.Inf(s.A), inf, t1, "second update")


@st.composite
def hist(draw):
    ops = st.one_of(
        st.tuples(st.just("update"), st.booleans()), st.tuples(st.just("symm"), st.booleans()),
        st.tuples(st.just("method"), st.sampled_from(METHODS)), st.tuples(st.just("perturb"), gens.seeds),
        st.tuples(st.just("gauge"), gens.seeds), st.tuples(st.just("scale"), st.sampled_from([.3, 5.])),
        st.tuples(st.just("scf"), st.just(0)), st.tuples(st.just("rcf"), st.booleans()), st.tuples(st.just("lcf"), st.booleans()),
        st.tuples(st.just("phase"), st.sampled_from([1., 2.])), st.tuples(st.just("replace"), gens.seeds),
        st.tuples(st.just("randomize"), gens.seeds), st.tuples(st.just("noise"), st.sampled_from([.01, .3])))
    return dict(c=draw(un.cell(maxD=5, kinds=("gauss", "real", "decay", "near"))), symm=draw(st.booleans()), method=draw(st.sampled_from(METHODS)),
                ops=[list(o) for o in draw(st.lists(ops, min_size=1, max_size=6))])


@facet("P15", hist(), quick=300, shards=4, rule="bond dimension of at least two and at least two effective operations")
def histories(c, ctx):
    from evoMPS.mps_uniform import EvoMPS_MPS_Uniform
    cc = c["c"]
    As = un.tensors(cc)
    inf = guard(cc, As, "power")
    s = un.make(EvoMPS_MPS_Uniform, cc, As, c["symm"], c["method"])
    s.update()
    before = inf
    for n, (op, arg) in enumerate(c["ops"]):
        what = "after %s (%d)" % (op, n)
        full = True
        t0, t = tols(dict(kind="x"), "power", before)
        t0 = max(t0, t)
        if op == "update":
            s.update(restore_CF=arg)
            full = arg
        elif op == "symm":
            s.symm_gauge = arg
            s.update()
        elif op == "method":
            un.setup(s, s.symm_gauge, arg)
            s.update()
        elif op in ("perturb", "gauge", "scale", "phase", "replace"):
            r = gens.rng(arg if op not in ("scale", "phase") else 1, op)
            B = [np.array(a) for a in s.A]
            if op == "perturb":
                B = [b + .1 * abs(b).max() * gens.cgauss(r, *b.shape) for b in B]
            elif op == "gauge":
                g = [gens.cgauss(r, cc["D"], cc["D"]) + 2 * np.eye(cc["D"]) for b in B]
                if max(np.linalg.cond(x) for x in g) > 100:
                    raise Skip("ill-conditioned gauge transformation")
                B = [np.array([la.inv(g[k - 1]).dot(x).dot(g[k]) for x in b]) for k, b in enumerate(B)]
            elif op == "scale":
                B[-1] = B[-1] * arg
            elif op == "phase":
                B[0] = B[0] * np.exp(1j * arg)
            else:
                B = un.tensors(dict(cc, seed=arg))
            new = guard(dict(cc, kind="x"), B, "power")
            if op in ("perturb", "replace"):
                inf = new
            else:
                un.check_same(ctx, new, inf, 1e-8, what + " (harness)")
            for k in range(cc["L"]):
                s.A[k][:] = B[k]
            t0, t = tols(dict(kind="x"), "power", new)
            t0 = max(t0, t)
            s.update()
        elif op in ("randomize", "noise"):
            if op == "randomize":
                s.randomize(do_update=False)
            else:
                s.add_noise(arg, do_update=False)
            inf = guard(dict(cc, kind="x"), s.A, "power")
            t0, t = tols(dict(kind="x"), "power", inf)
            t0 = max(t0, t)
            s.update()
        elif op == "scf":
            s.calc_lr()
            s.restore_SCF()
        elif op == "rcf":
            s.calc_lr()
            s.restore_RCF(diag_l=arg)
        elif op == "lcf":
            s.calc_lr()
            s.restore_LCF(diag_r=arg)
        ctx.nontrivial(cc["D"] > 1 and n > 0)
        un.check_fixed(ctx, s, t0, what)
        if op == "scf" or (op not in ("rcf", "lcf") and full and s.symm_gauge):
            for k in range(s.L):
                ctx.close(dense.arr(s.l[k]), np.diag(inf.schmidt(k)), 10 * t0, what + ": l holds the Schmidt coefficients")
                ctx.close(dense.arr(s.r[k]), np.diag(inf.schmidt(k)), 10 * t0, what + ": r holds the Schmidt coefficients")
        elif op == "rcf" or (op != "lcf" and full):
            for k in range(s.L):
                ctx.close(dense.arr(s.r[k]), np.eye(cc["D"]), t0, what + ": r = 1")
                l = dense.arr(s.l[k])
                ctx.close(np.sort(la.eigvalsh(l))[::-1], inf.schmidt(k) ** 2, 10 * t0, what + ": l holds the squared Schmidt coefficients")
                if op != "rcf" or arg:
                    ctx.close(l, np.diag(np.diag(l)), t0, what + ": l diagonal")
        elif op == "lcf":
            for k in range(s.L):
                ctx.close(dense.arr(s.l[k]), np.eye(cc["D"]), t0, what + ": l = 1")
                r_ = dense.arr(s.r[k])
                ctx.close(np.sort(la.eigvalsh(r_))[::-1], inf.schmidt(k) ** 2, 10 * t0, what + ": r holds the squared Schmidt coefficients")
                if arg:
                    ctx.close(r_, np.diag(np.diag(r_)), t0, what + ": r diagonal")
        before = un.Inf(s.A)
        un.check_same(ctx, before, inf, t, what)


@st.composite
def rcase(draw):
    return dict(c=draw(un.cell(maxD=4, kinds=("gauss", "decay", "real"))), which=draw(st.sampled_from(["rcf", "lcf"])), diag=draw(st.booleans()),
                ks=draw(st.booleans()), seed=draw(gens.seeds))


@facet("P15", rcase(), quick=250, shards=2, rule="bond dimension of at least two")
def gauge_matrices(c, ctx):
    """The matrices restore_RCF and restore_LCF return perform the change of gauge they made."""
    from evoMPS.mps_uniform import EvoMPS_MPS_Uniform
    cc = c["c"]
    As = un.tensors(cc)
    inf = guard(cc, As, "arpack")
    s = un.make(EvoMPS_MPS_Uniform, cc, As, False)
    s.update(restore_CF=False)
    L, D = cc["L"], cc["D"]
    A0 = [np.array(a) for a in s.A]
    l0, r0 = [dense.arr(x) for x in s.l], [dense.arr(x) for x in s.r]
    r = gens.rng(c["seed"], "ks")
    ks = None
    if c["ks"]:
        ks = [k for k in range(L) if r.rand() < .6]
    ctx.nontrivial(D > 1)
    if c["which"] == "rcf":
        G, Gi = s.restore_RCF(diag_l=c["diag"], ks=ks, ret_g=True)
    else:
        G, Gi = s.restore_LCF(diag_r=c["diag"], ks=ks, ret_g=True)
    sel = list(range(L)) if ks is None else ks
    t = 1e-7
    for k in range(L):
        ctx.check((G[k] is not None) == (k in sel), "gauge matrices for the wrong bonds")
        if k not in sel:
            G[k] = Gi[k] = np.eye(D)
        ctx.close(dense.arr(G[k]).dot(dense.arr(Gi[k])), np.eye(D), t, "g g^-1")
    for k in range(L):
        want = np.array([dense.arr(Gi[k - 1]).dot(a).dot(dense.arr(G[k])) for a in A0[k]])
        ctx.close(s.A[k], want, t, "transformed tensors", scale=max(1, abs(want).max()))
        g, gi = dense.arr(G[k]), dense.arr(Gi[k])
        ctx.close(dense.arr(s.l[k]), g.conj().T.dot(l0[k]).dot(g), t, "transformed l")
        ctx.close(dense.arr(s.r[k]), gi.dot(r0[k]).dot(gi.conj().T), t, "transformed r")
        if k in sel:
            ctx.close(dense.arr(s.r[k] if c["which"] == "rcf" else s.l[k]), np.eye(D), t, "canonical side")
            if c["diag"]:
                x = dense.arr(s.l[k] if c["which"] == "rcf" else s.r[k])
                ctx.close(x, np.diag(np.diag(x)), t, "other side diagonal")
    un.check_fixed(ctx, s, 1e-8, c["which"])


@facet("P15", case(minD=1, maxD=6), quick=200, shards=2, rule="bond dimension of at least two")
def from_tensors(c, ctx):
    """Construction from tensors, and agreement of the three ways to find the fixed points."""
    from evoMPS.mps_uniform import EvoMPS_MPS_Uniform
    cc = c["c"]
    As = un.tensors(cc)
    inf = guard(cc, As, "power")
    keep = [A.copy() for A in As]
    s = EvoMPS_MPS_Uniform.from_tensors(As)
    ctx.nontrivial(cc["D"] > 1)
    for a, b in zip(As, keep):
        ctx.check(np.array_equal(a, b), "from_tensors modified its input")
    ctx.check((s.D, s.q, s.L) == (cc["D"], cc["q"], cc["L"]), "dimensions")
    t = 1e-8 if cc["kind"] != "deficient" else 1e-6
    un.check_fixed(ctx, s, t, "from_tensors")
    un.check_same(ctx, un.Inf(s.A), inf, t, "from_tensors")
    f = s.A[0].ravel()[0] / As[0].ravel()[0]
    for k in range(cc["L"]):
        x = np.vdot(As[k], s.A[k]) / np.vdot(As[k], As[k])
        ctx.close(s.A[k], As[k] * x, 1e-10, "tensors beyond a factor")
    for k in range(cc["L"]):
        n = np.vdot(inf.lmat(k), inf.r[k])
        l, r = dense.arr(s.l[k]), dense.arr(s.r[k])
        # (the split of the norm between l and r is free)
        ctx.close(l / np.trace(l), inf.lmat(k) / np.trace(inf.lmat(k)), t / inf.gap, "left environment")
        ctx.close(r / np.trace(r), inf.r[k] / np.trace(inf.r[k]), t / inf.gap, "right environment")
