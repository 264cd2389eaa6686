"""P22: sandwich states describe one infinite state, whatever their window, gauge, growth or persistence history."""
import copy, os, shutil, tempfile
import numpy as np
import scipy.linalg as la
from hypothesis import strategies as st
from ..core import facet, Skip
from .. import gens, dense, uniform as un, sand
from .p16 import asfun


def quiet(f, *a, **k):
    """Some methods report on standard output."""
    import io, contextlib
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


@st.composite
def case(draw, **kw):
    c = dict(s=draw(sand.case(**kw)))
    c["how"] = draw(st.sampled_from(["tensors", "tensors", "function", "uniform", "two"]))
    c["form"] = draw(st.sampled_from(["cf", "cf", "norm", "plain"]))
    c["seed"] = draw(gens.seeds)
    return c


def build(c, ctx=None):
    """(sandwich, dense model of the state that was asked for, tolerance)"""
    from evoMPS.mps_sandwich import EvoMPS_MPS_Sandwich, sandwich_from_tensors
    from evoMPS.mps_uniform import EvoMPS_MPS_Uniform
    left, W, right = sand.tensors(c["s"])
    N = c["s"]["N"]
    if c["how"] in ("uniform", "two"):
        a = un.Inf(left)
        un.wellposed(a, gap=.05, smin=1e-3)
        u = EvoMPS_MPS_Uniform.from_tensors([A.copy() for A in left])
        v = None
        if c["how"] == "two":
            right = un.tensors(dict(D=c["s"]["DL"], q=c["s"]["q"], L=c["s"]["LR"], kind=c["s"]["kind"], seed=c["s"]["seed"] + 7))
            b = un.Inf(right)
            un.wellposed(b, gap=.05, smin=1e-3)
            v = EvoMPS_MPS_Uniform.from_tensors([A.copy() for A in right])
        s = quiet(EvoMPS_MPS_Sandwich, N, u, uni_right=v)
        m = sand.model_of(s)
        if v is not None:
            sand.wellposed(m)
        elif N % a.L == 0:
            m = sand.Sand(left, [a.As[k % a.L] for k in range(N)], right=left)
        else:
            sand.wellposed(m)
    else:
        m = sand.Sand(left, W, right)
        sand.wellposed(m)
        f = EvoMPS_MPS_Sandwich.from_tensors if c["how"] == "tensors" else sandwich_from_tensors
        given = [copy.deepcopy(x) for x in (left, W, right)]
        s = quiet(f, *given)
        if ctx is not None:
            ctx.given = given, copy.deepcopy((left, W, right))
    return s, m, max(1e-9, 1e-11 * max(m.cond(), sand.model_of(s).cond()) / min(m.a.gap, m.b.gap))


def refresh(s, form):
    s.update(**dict(cf=dict(), norm=dict(restore_CF=False), plain=dict(restore_CF=False, normalize=False))[form])


def same(ctx, s, m, t, what):
    """The tensors stand for the model's state, in and around the window."""
    g = sand.model_of(s)
    for x, y, n in ((g.a, m.a, "left"), (g.b, m.b, "right")):
        w, L = un.fidelity(x.As, y.As)
        ctx.close(abs(w), 1., t, what + ": %s bulk" % n)
        ctx.close(x.norm, 1., t, what + ": norm of the %s bulk" % n)
    for k in range(-1, m.N + 2):
        ctx.close(g.rho(k, 2), m.rho(k, 2), t, what + ": two-site density at %d of %d" % (k, m.N))
    if m.N <= 3 and m.q == 2:
        ctx.close(g.rho(0, m.N + 2), m.rho(0, m.N + 2), t, what + ": density of the window")
    return g


def values(ctx, s, m, t, r, norm=None, what="", full=True):
    """Everything the state reports, anywhere."""
    q, N = m.q, m.N
    z = 1. if norm is None else norm
    sc = max(1., abs(z))
    o1, o2 = gens.cgauss(r, q, q), gens.cgauss(r, q, q)
    O2 = gens.cgauss(r, q * q, q * q).reshape([q] * 4)
    O3 = gens.cgauss(r, q ** 3, q ** 3).reshape([q] * 6)
    L = max(m.a.L, m.b.L)
    for n in range(-L - 1, N + L + 2):
        ctx.close(np.vdot(dense.arr(s.get_l(n)), dense.arr(s.get_r(n))), z, t, what + "norm at bond %d of %d" % (n, N), scale=sc)
    ks = range(-L - 1, N + L + 2) if full else sorted(set(r.randint(-L - 1, N + L + 2) for i in range(3)))
    for k in ks:
        w = what + "at %d (window of %d) " % (k, N)
        ctx.close(s.expect_1s(o1, k), z * m.expect(o1, k, 1), t, w + "expect_1s", scale=4 * sc)
        ctx.close(s.expect_2s(O2, k), z * m.expect(O2, k, 2), t, w + "expect_2s", scale=6 * sc)
        ctx.close(s.expect_3s(O3, k), z * m.expect(O3, k, 3), t, w + "expect_3s", scale=10 * sc)
        d = 1 + k % 3
        ctx.close(s.expect_1s_1s(o1, o2, k, k + d), z * m.string([o1] + [None] * (d - 1) + [o2], k), t, w + "expect_1s_1s", scale=10 * sc)
        ctx.close(s.expect_string_1s(o1, k, 3), [z * m.string([o1] * (j + 1), k) for j in range(3)], t, w + "string", scale=30 * sc)
        if norm is None:
            cc = s.correlation_1s_1s(o1, o2, k, 2)
            want = [m.expect(o1.dot(o2), k, 1)] + [m.string([o1] + [None] * (j - 1) + [o2], k) for j in (1, 2)]
            want = [x - m.expect(o1, k, 1) * m.expect(o2, k + j, 1) for j, x in enumerate(want)]
            ctx.close(cc, want, t, w + "correlation", scale=20)
            # (eigenvalues of products of environments lose half of the digits where they are not in the canonical form)
            lam = np.sort(np.asarray(s.schmidt_sq(k)).real)[::-1]
            ctx.close(lam, m.schmidt_sq(k), 10 * t, w + "Schmidt coefficients")
            p = m.schmidt_sq(k)
            p = p[p > 0]
            ctx.close(s.entropy(k), -(p * np.log2(p)).sum(), 1e3 * t, w + "entropy")
        M = [gens.cgauss(r, 1, 2, q, q), gens.cgauss(r, 2, 1, q, q)]
        O = np.einsum('abst,bcuv->sutv', *M)
        ctx.close(s.expect_MPO(M, k), z * m.expect(O, k, 2), t, w + "expect_MPO", scale=10 * sc)
    if callable(getattr(s, "density_1s")):
        for n in range(1, N + 1):
            ctx.close(s.density_1s(n), z * m.rho(n, 1), t, what + "density_1s(%d)" % n, scale=sc)
        for n in range(1, N):
            ctx.close(s.density_2s(n, n + 1), z * m.rho(n, 2), t, what + "density_2s(%d)" % n, scale=sc)
    k = r.randint(1, N + 1)
    ctx.close(s.expect_1s(asfun(o1), k), z * m.expect(o1, k, 1), t, what + "operator given as a function", scale=4 * sc)


def canonical(ctx, s, t, what):
    nc, N = s.N_centre, s.N
    for n in range(0, N + 1):
        l, r = dense.arr(s.l[n]), dense.arr(s.r[n])
        D = l.shape[0]
        if n < nc:
            ctx.close(l, np.eye(D), t, what + ": left environment left of the centre")
            ctx.close(r, np.diag(np.diag(r)), t, what + ": right environment left of the centre is diagonal")
        else:
            ctx.close(r, np.eye(D), t, what + ": right environment right of the centre")
            ctx.close(l, np.diag(np.diag(l)), t, what + ": left environment right of the centre is diagonal")
        ctx.close(np.trace(l.conj().T.dot(r)), 1., t, what + ": norm")


@facet("P22", case(), quick=250, shards=4, rule="window of at least two sites that is no part of a bulk, or different bulks")
def reported(c, ctx):
    """All local values, inside, across and outside of the window, for every construction and kind of refresh."""
    s, m, t = build(c, ctx)
    N = m.N
    ctx.tag("%s %s N=%d L=%d,%d" % (c["how"], c["form"], N, m.a.L, m.b.L))
    ctx.nontrivial(N > 1 and c["s"]["window"] != "bulk" and c["how"] != "uniform" or c["s"]["right"] == "other")
    same(ctx, s, m, t, "after construction")
    refresh(s, c["form"])
    g = same(ctx, s, m, t, "after the refresh")
    norm = None
    if c["form"] == "plain":
        norm = np.vdot(dense.arr(s.l[0]), dense.arr(s.r[0]))
        # the norm the tensors have in the library's convention for bulk environments
        want = g.norm
        fl = np.trace(dense.arr(s.uni_l.l[-1])) / np.trace(g.a.l[-1])
        fr = np.trace(dense.arr(s.uni_r.r[-1])) / np.trace(g.b.r[-1])
        ctx.close(norm, want * fl * fr, t, "norm of the tensors", scale=max(1, abs(norm)))
    values(ctx, s, m, t, gens.rng(c["seed"], "v"), norm)
    if c["how"] in ("tensors", "function"):
        for x, y in zip(*ctx.given):
            for a, b in zip(x, y):
                ctx.close(a, b, 0, "the given tensors were changed")


@facet("P22", case(), quick=200, shards=3, rule="window of at least two sites that is no part of a bulk, or different bulks")
def canonical_form(c, ctx):
    """Restoring the canonical form: form, stored environments, unchanged state; repeated; from any centre."""
    s, m, t = build(c)
    N = m.N
    ctx.tag("%s N=%d" % (c["how"], N))
    ctx.nontrivial(N > 1 and c["s"]["window"] != "bulk" and c["how"] != "uniform" or c["s"]["right"] == "other")
    if c["seed"] % 3 == 0:
        s.N_centre = 1 + c["seed"] % N
    for i in range(2):
        s.update()
        g = same(ctx, s, m, t, "after restoring the canonical form")
        canonical(ctx, s, t, "canonical form")
        for u, x in ((s.uni_l, g.a), (s.uni_r, g.b)):
            ctx.close(np.vdot(dense.arr(u.l[-1]), dense.arr(u.r[-1])), 1., t, "normalisation of a bulk")
            for e, want, nm in ((u.l, x.l, "left"), (u.r, x.r, "right")):
                a, b = dense.arr(e[-1]), want[-1].T if nm == "left" else want[-1]
                ctx.close(a / np.trace(a), b / np.trace(b), 10 * t, "%s environment of a bulk" % nm)
        values(ctx, s, m, t, gens.rng(c["seed"], "v", i), full=False)
    # a refresh that does not change the gauge
    B = [np.array(s.A[n]) for n in range(1, N + 1)]
    s.update(restore_CF=False)
    for n in range(1, N + 1):
        ctx.close(s.A[n], B[n - 1], t, "tensors after a refresh in canonical form", scale=max(1, abs(B[n - 1]).max()))
    values(ctx, s, m, t, gens.rng(c["seed"], "w"), full=False)


OPS = ["grow_left", "grow_right", "update", "update", "op", "tensor", "saveload", "from_file", "noise", "centre"]


@st.composite
def hist_case(draw):
    c = draw(case(maxN=3, maxD=2, maxL=2))
    c["ops"] = [(draw(st.sampled_from(OPS)), draw(st.integers(0, 10 ** 6))) for i in range(draw(st.integers(1, 5)))]
    return c


@facet("P22", hist_case(), quick=250, shards=4, rule="at least three operations, including growth or loading")
def histories(c, ctx):
    """Growing, editing, refreshing, saving and loading in any order."""
    s, m, t = build(c)
    ctx.nontrivial(len(c["ops"]) >= 3 and any(o[0][:4] in ("grow", "save", "from") for o in c["ops"]))
    refresh(s, c["form"])
    tmp = tempfile.mkdtemp(prefix="pbt")
    fresh = True
    try:
        for i, (op, k) in enumerate(c["ops"]):
            what = "%d:%s" % (i, op)
            r = gens.rng(k, "op")
            L, N = m.a.L, m.N
            if N > 8 and op[:4] == "grow":
                continue
            ctx.tag(op)
            sto = sand.model_of(s)
            W = sto.W
            if op == "grow_left":
                x = 1 + k % 2
                s.grow_left(x)
                m = sand.Sand(m.a.As, m_W(m, -x * L + 1, N), m.b.As)
                fresh = False
            elif op == "grow_right":
                x = 1 + k % 2
                s.grow_right(x)
                m = sand.Sand(m.a.As, m_W(m, 1, N + x * m.b.L), m.b.As)
                fresh = False
            elif op == "update":
                s.update(restore_CF=bool(k % 3))
                fresh = True
            elif op == "op":
                n = 1 + k % N
                o = gens.cgauss(r, m.q, m.q) + 2 * np.eye(m.q)
                s.apply_op_1s(o, n, do_update=bool(k % 2))
                W = list(sto.W)
                W[n - 1] = np.tensordot(o, W[n - 1], (1, 0))
                m = sand.Sand(sto.a.As, W, sto.b.As)
                fresh = bool(k % 2)
            elif op == "tensor":
                n = 1 + k % N
                X = gens.cgauss(r, *s.A[n].shape)
                s.A[n][:] = X
                W = list(sto.W)
                W[n - 1] = X
                m = sand.Sand(sto.a.As, W, sto.b.As)
                fresh = False
            elif op == "noise":
                s.add_noise(fac=.01, do_update=False)
                g = sand.model_of(s)
                for n in range(N):
                    ctx.check(0 < abs(g.W[n] - W[n]).max() < .2, what + ": noise on site %d" % (n + 1))
                m = g
                fresh = False
            elif op == "centre":
                s.N_centre = 1 + k % N
                fresh = False
            elif op in ("saveload", "from_file"):
                f = os.path.join(tmp, "s%d.npy" % i)
                s.save_state(f, userdata={"k": k})
                if op == "from_file":
                    s2 = quiet(type(s).from_file, f)
                    s = s2
                    fresh = False                       # (it is refreshed without normalising)
                else:
                    s2, auto = receiver(s, k)
                    before = sand.model_of(s)
                    data = quiet(s2.load_state, f, autogrow=auto)
                    ctx.check(data == {"k": k}, what + ": user data came back as %r" % (data,))
                    ctx.check([s2.grown_left, s2.grown_right] == [s.grown_left, s.grown_right], what + ": growth counters")
                    s = s2
                    fresh = True
            if m.a.gap < .05 or m.cond() > 1e5 or min(min(np.sqrt(m.schmidt_sq(n))) for n in range(m.N + 1)) < 1e-4:
                raise Skip("became ill-conditioned")
            t2 = max(t, 1e-11 * max(m.cond(), sand.model_of(s).cond()) / m.a.gap)
            ctx.check(s.N == m.N, what + ": window of %d sites instead of %d" % (s.N, m.N))
            same(ctx, s, m, t2, what)
            if fresh:
                values(ctx, s, m, t2, gens.rng(k, "hv"), what=what + " ", full=False)
                t = t2
        s.update()
        same(ctx, s, m, t2, "in the end")
        canonical(ctx, s, 10 * t2, "in the end")
        values(ctx, s, m, t2, gens.rng(c["seed"], "hv"), what="in the end ", full=False)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def m_W(m, lo, hi):
    return [m.A(n) for n in range(lo, hi + 1)]


def receiver(s, k):
    """An unrelated state of the same kind to load into, perhaps with a smaller window."""
    r = gens.rng(k, "recv")
    left = [gens.cgauss(r, *A.shape) for A in s.uni_l.A]
    right = [gens.cgauss(r, *A.shape) for A in s.uni_r.A]
    W = [gens.cgauss(r, *s.A[n].shape) for n in range(1, s.N + 1)]
    if k % 3 == 0:                                        # other bond dimensions inside
        d = [left[0].shape[1]] + [r.randint(1, 4) for n in range(s.N - 1)] + [right[0].shape[1]]
        W = [gens.cgauss(r, W[0].shape[0], d[n], d[n + 1]) for n in range(s.N)]
    auto = False
    L = s.uni_l.L
    if k % 4 == 1 and s.N > L and all(w.shape[1:] == left[0].shape[1:] for w in W[:L]):
        W = W[L:]
        auto = True
    s2 = quiet(type(s).from_tensors, left, W, right)
    s2.N_centre = min(s.N_centre, s2.N)
    return s2, auto


@facet("P22", case(maxD=3, maxN=4), quick=200, shards=2, rule="two windows that differ, in different gauges")
def overlaps(c, ctx):
    """Overlaps of states with the same bulks, in any gauge; different bulks give zero."""
    if c["how"] in ("uniform", "two"):
        c["how"] = "tensors"
    from evoMPS.mps_sandwich import EvoMPS_MPS_Sandwich
    s, m, t = build(c)
    s.update()
    r = gens.rng(c["seed"], "other")
    left, W, right = sand.tensors(c["s"])
    W2 = [w + .5 * abs(w).max() * gens.cgauss(r, *w.shape) for w in W] if c["seed"] % 3 else [w.copy() for w in W]
    ctx.nontrivial(bool(c["seed"] % 3))
    m2 = sand.Sand(left, W2, right)
    sand.wellposed(m2)
    v = m.a.l[-1].ravel()
    for x, y in zip(W, W2):
        v = v.dot(dense.tm([x], [y]))
    want = abs(v.dot(m.b.r[-1].ravel())) / np.sqrt(abs(m.norm * m2.norm))
    # another gauge, on every bond including those inside the bulks
    D = [w.shape[1] for w in W2] + [W2[-1].shape[2]]
    X = [gens.rand_unitary(r, d) + .2 * gens.cgauss(r, d, d) for d in D]
    X = [x * np.exp(1j * r.uniform(0, 6)) * r.uniform(.5, 2) for x in X]
    tr = lambda A, x, y: np.array([la.inv(x).dot(a).dot(y) for a in A])
    bulk = lambda As, x: [tr(A, x if k == 0 else np.eye(len(x)), x if k == len(As) - 1 else np.eye(len(x))) for k, A in enumerate(As)]
    s2 = quiet(EvoMPS_MPS_Sandwich.from_tensors, bulk(left, X[0]), [tr(w, X[k], X[k + 1]) for k, w in enumerate(W2)], bulk(right, X[-1]))
    if c["seed"] % 2:
        s2.N_centre = 1 + c["seed"] % m.N
    s2.update()
    got = quiet(s.overlap, s2)
    ctx.close(abs(got), want, 100 * t, "modulus of the overlap")
    ctx.close(abs(quiet(s2.overlap, s)), want, 100 * t, "modulus of the reverse overlap")
    ctx.close(abs(quiet(s.overlap, s)), 1., 100 * t, "overlap with itself")
    # other bulks
    left3 = [A + gens.cgauss(r, *A.shape) for A in left]
    w, L = un.fidelity(left, left3)
    if abs(w) < .99 and un.Inf(left3).gap > .05 and un.Inf(left3).cond() < 1e5:
        s3 = quiet(EvoMPS_MPS_Sandwich.from_tensors, left3, [w.copy() for w in W2], [A.copy() for A in right])
        s3.update()
        ctx.close(abs(quiet(s.overlap, s3)), 0., 0, "overlap with a different bulk")


@st.composite
def tangent_case(draw):
    c = draw(case(maxL=1, maxN=4))
    c["p"] = draw(st.sampled_from([0., np.pi, .37, -1.3, 2.9]))
    return c


@facet("P22", tangent_case(), quick=120, shards=2, rule="window of at least two sites")
def tangent_overlaps(c, ctx):
    """Overlaps with momentum tangent vectors of the bulks."""
    from evoMPS.mps_sandwich import EvoMPS_MPS_Sandwich
    c["how"] = "tensors"
    cs = c["s"]
    cs["DR"] = cs["DL"]                                   # the tangent vector needs one bond space
    s, m, t = build(c)
    triv = cs["right"] == "same"
    if triv:
        s.update(restore_CF=False)                        # both bulks keep the same tensors
    else:
        s.update()
    g = sand.model_of(s)
    AL, AR = g.a.As[0], g.b.As[0]
    w = la.eigvals(dense.tm([AL], [AR]))
    if not triv and abs(w).max() > .9:
        raise Skip("nearly equal bulks")
    ctx.nontrivial(m.N > 1)
    ctx.tag("trivial" if triv else "nontrivial")
    B = un.gauge_fixed(g.b, gens.rng(c["seed"], "B"))[0]
    p = c["p"]
    N = m.N
    got, win = quiet(s.overlap_tangent, B, p, top_triv=triv, return_contributions=True)
    # <tangent vector with B on site j, left bulk tensors left of it, right ones right of it | state>
    l, r = np.array(dense.arr(s.uni_l.l[0])).conj().ravel(), dense.arr(s.uni_r.r[0]).ravel()
    rs = {N: r}
    for n in range(N, 0, -1):
        rs[n - 1] = dense.tm([g.W[n - 1]], [AR]).dot(rs[n])
    v = l
    want = []
    for n in range(1, N + 1):
        want.append(np.exp(1j * p * n) * v.dot(dense.tm([g.W[n - 1]], [B])).dot(rs[n]))
        v = v.dot(dense.tm([g.W[n - 1]], [AL]))
    sc = max(1., abs(B).max())
    ctx.close(win, want, 10 * t, "contributions of the window", scale=sc)
    E = dense.tm([AL], [AR])
    y = l.dot(dense.tm([AL], [B]))
    M = np.eye(E.shape[0]) - np.exp(-1j * p) * E
    if triv:
        P = np.outer(g.a.r[0].ravel(), g.a.l[0].ravel())
        M = M + np.exp(-1j * p) * P                       # (the tangent vector has no part along the fixed point)
    want_l = la.solve(M.T, y).dot(rs[0])                  # (the library solves this one to a relative 1e-6)
    ctx.close(got, want_l, max(1e-5, 100 * t), "contribution of the left bulk", scale=sc / g.a.gap)
    ctx.close(quiet(s.overlap_tangent, B, p, top_triv=triv), want_l + sum(want), max(1e-5, 100 * t), "overlap with the tangent vector", scale=sc / g.a.gap)
