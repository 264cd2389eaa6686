"""P11: the Krylov exponential action equals the dense matrix exponential."""
import numpy as np
import scipy.linalg as la
from hypothesis import strategies as st
from ..core import facet, Skip
from .. import gens

KINDS = ["gauss", "real", "herm", "antiherm", "diag", "jordan", "blocks", "lowrank", "zero", "nonneg", "int", "ident", "stiff"]


@st.composite
def case(draw, maxn=24):
    n = draw(st.one_of(st.integers(1, 6), st.integers(1, maxn)))
    return dict(n=n, kind=draw(st.sampled_from(KINDS)), seed=draw(gens.seeds),
                v=draw(st.sampled_from(["gauss", "real", "basis", "eig", "invariant", "zero", "small", "big"])),
                m=draw(st.one_of(st.none(), st.integers(1, 30))),
                t=draw(st.sampled_from([0., 1e-18, 1e-9, 1e-3, 0.1, 0.3, 1., 2.5, 7.])),
                angle=draw(st.sampled_from([0, 0, 180, 90, 270, 33, 200])),
                logtol=draw(st.sampled_from([None, 4, 6, 8, 10, 12, 13])),
                anorm=draw(st.sampled_from([1., 1., 0.5, 3., 10.])),
                op=draw(st.booleans()))


def build(c):
    r = gens.rng(c["seed"], "A")
    n = c["n"]
    k = c["kind"]
    A = gens.cgauss(r, n, n) / np.sqrt(n)
    if k == "real":
        A = r.standard_normal((n, n)) / np.sqrt(n)
    elif k == "herm":
        A = A + A.conj().T
    elif k == "antiherm":
        A = A - A.conj().T
    elif k == "diag":
        A = np.diag(gens.cgauss(r, n))
    elif k == "jordan":
        A = np.diag(np.ones(n - 1), 1) + .3 * np.eye(n)
    elif k == "blocks":
        j = r.randint(1, n + 1)
        A[:j, j:] = 0
        A[j:, :j] = 0
    elif k == "lowrank":
        A = np.outer(gens.cgauss(r, n), gens.cgauss(r, n)) / n
    elif k == "zero":
        A = np.zeros((n, n))
    elif k == "nonneg":
        A = r.rand(n, n)
    elif k == "int":
        A = r.randint(-1, 2, (n, n))
    elif k == "ident":
        A = np.eye(n) * 1.7
    elif k == "stiff":
        U = gens.rand_unitary(r, n)
        A = (U * (-10. ** r.uniform(-2, 1.3, n))).dot(U.conj().T)
    v = gens.cgauss(r, n)
    if c["v"] == "real":
        v = r.standard_normal(n)
    elif c["v"] == "basis":
        v = np.zeros(n)
        v[r.randint(n)] = 1.
    elif c["v"] == "eig":
        w, V = la.eig(A)
        v = V[:, r.randint(n)]
    elif c["v"] == "invariant":
        w, V = la.eig(A)
        v = V[:, :max(1, n // 2)].dot(gens.cgauss(r, max(1, n // 2)))
    elif c["v"] == "zero":
        v = np.zeros(n)
    elif c["v"] == "small":
        v = v * 1e-8
    elif c["v"] == "big":
        v = v * 1e6
    return A, v


class Op(object):
    """A minimal linear operator, as the split-step integrator passes one."""
    def __init__(self, A):
        self.M = A
        self.shape = A.shape
        self.dtype = A.dtype
        self.calls = 0

    def matvec(self, x):
        self.calls += 1
        return self.M.dot(x)


@facet("P11", case(), quick=6000, shards=4, rule="exp(tA) v differs from v and the space has more than one dimension")
def action(c, ctx):
    from evoMPS.sexpmv import gexpmv
    A, v = build(c)
    n = c["n"]
    z = np.exp(1j * np.deg2rad(c["angle"]))
    t = c["t"] * complex(round(z.real, 15), round(z.imag, 15))
    if c["angle"] in (0, 180):
        t = t.real
    m = c["m"]
    if m is not None:
        m = min(m, n)
    an = la.norm(A, 2)
    anorm = an * c["anorm"]
    tol = 0. if c["logtol"] is None else 10. ** -c["logtol"]
    A0, v0 = A.copy(), v.copy()
    kw = {} if c["logtol"] is None else dict(tol=tol)
    if m is not None:
        kw["m"] = m
    w, conv, nstep, brk, mb, (xe, se) = gexpmv(Op(A) if c["op"] else A, v, t, anorm, **kw)
    ctx.check(np.array_equal(A, A0) and np.array_equal(v, v0), "inputs were modified")
    want = la.expm(t * A.astype(complex)).dot(v)
    ctx.nontrivial(n > 1 and la.norm(want - v) > 1e-12 * la.norm(v))
    vn = la.norm(v)
    ctx.check(w is not v, "the result is the input vector itself")
    mm = min(20, n) if m is None else m
    ctx.check(1 <= mb <= mm, "breakdown index %r outside 1..%d" % (mb, mm))
    ctx.check(0 <= nstep <= 500, "step count %r" % nstep)
    ctx.check(xe <= se * (1 + 1e-9) + 1e-300 and se >= 0, "largest local error %g above their sum %g" % (xe, se))
    if not conv:
        # only plausible for hard problems: tiny subspaces or long times at high accuracy
        ctx.check((mm <= 5 and mm < n) or abs(t) * an > 30, "no convergence in %d steps with m=%d, |t| |A| = %g" % (nstep, mm, abs(t) * an))
        return
    # conditioning: the largest growth of errors made on the way
    mu = la.eigvalsh((t * A + np.conj(t) * A.conj().T) / 2.).max()       # |exp(s t A)| <= exp(s mu)
    g = np.exp(max(0., mu))
    tl = tol if tol > 2.3e-16 else 1.5e-8
    bound = 4 * g * tl * (abs(t) * (1 + anorm * vn)) + 3e-14 * g * vn * (1 + abs(t) * an) * 10
    d = la.norm(w - want)
    ctx.worst["error/bound"] = d / bound if bound else 0
    ctx.check(w.shape == want.shape and np.all(np.isfinite(w)), "shape or finiteness of the result")
    ctx.check(d <= bound, "error %g exceeds %g (tol %g, t %s, |A| %g, |v| %g, m %s)" % (d, bound, tl, t, an, vn, m))


@facet("P11", case(maxn=14), quick=800, shards=2, rule="exp(tA) v differs from v and the space has more than one dimension")
def semigroup(c, ctx):
    """Two consecutive steps equal one, linearity in v, and the inverse step undoes a step."""
    from evoMPS.sexpmv import gexpmv
    A, v = build(c)
    n = c["n"]
    an = la.norm(A, 2)
    t = min(c["t"], 1.)
    ctx.nontrivial(n > 1 and t > 0 and la.norm(A.dot(v)) > 1e-8 * la.norm(v))

    def ex(x, s):
        w, conv = gexpmv(A, x, s, max(an, 1e-3), tol=1e-12)[:2]
        ctx.check(conv, "no convergence")
        return w
    g = np.exp(t * an)
    sc = g * g * la.norm(v) * (1 + t * an) + g * g * t
    a = ex(ex(v, t * .4), t * .6)
    ctx.close(a, ex(v, t), 1e-9, "semigroup", scale=sc)
    ctx.close(ex(ex(v, t), -t), v, 1e-9, "inverse", scale=sc)
    ctx.close(ex(v * (2 - 1j), t), (2 - 1j) * ex(v, t), 1e-9, "linearity", scale=3 * sc)
