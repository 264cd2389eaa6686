"""P20: tangent-vector overlaps of uniform states, gauge fixing, line searches and conjugate gradients."""
import copy
import numpy as np
import scipy.linalg as la
from hypothesis import strategies as st
from ..core import facet, Skip
from .. import gens, dense, uniform as un
from . import p18, p19


@st.composite
def case(draw, **kw):
    kw.setdefault("maxD", 4)
    c = draw(p18.case(kinds=("gauss", "gauss", "real", "positive", "near"), **kw))
    c["p"] = draw(st.sampled_from([0., 0., np.pi, np.pi / 2, -1.3, .37, 2.9]))
    c["v1"] = draw(st.sampled_from(["gauss", "gauss", "fixed", "single", "null", "null_one", "mixed"]))
    c["v2"] = draw(st.sampled_from(["gauss", "fixed", "single", "null", "null_one", "mixed", "same"]))
    return c


def null_vector(inf, p, X):
    """The tangent vector of a gauge transformation: A_k X_{k+1} - e^{-ip} X_k A_k (it represents the zero vector)."""
    L = inf.L
    return [np.einsum('sab,bc->sac', inf.As[k], X[(k + 1) % L]) - np.exp(-1j * p) * np.einsum('ab,sbc->sac', X[k], inf.As[k])
            for k in range(L)]


def vector(inf, p, kind, r):
    L = inf.L
    D = inf.D[0]
    if kind == "gauss":
        return [gens.cgauss(r, *A.shape) for A in inf.As]
    if kind == "fixed":
        return un.gauge_fixed(inf, r)
    if kind == "single":
        B = [0 * A for A in inf.As]
        k = r.randint(L)
        B[k] = gens.cgauss(r, *inf.As[k].shape)
        return B
    X = [gens.cgauss(r, D, D) for k in range(L)]
    if kind == "null_one":
        k = r.randint(L)
        X = [x if j == k else 0 * x for j, x in enumerate(X)]
    N = null_vector(inf, p, X)
    return N if kind != "mixed" else [a + b for a, b in zip(N, un.gauge_fixed(inf, r))]


def overlap(inf, B1, B2, p):
    """sum over k in a cell and all m of e^{ipm} (<B2 at k|B1 at k+m> - <B2 at k|psi><psi|B1 at k+m>)."""
    L = inf.L
    l = [x.ravel() for x in inf.l]
    r = [x.ravel() for x in inf.r]
    E = [dense.tm([A]) - np.outer(r[k - 1], l[k]) for k, A in enumerate(inf.As)]
    E1 = [dense.tm([B], [A]) for A, B in zip(inf.As, B1)]
    E2 = [dense.tm([A], [B]) for A, B in zip(inf.As, B2)]
    E12 = [dense.tm([a], [b]) for a, b in zip(B1, B2)]

    def right(F, ph):
        n = E[0].shape[0]
        M = np.eye(L * n, dtype=complex)
        y = []
        for k in range(L):
            j = (k + 1) % L
            M[k * n:(k + 1) * n, j * n:(j + 1) * n] -= ph * E[k]
            v = F[k].dot(r[k])
            y.append(v - r[k - 1] * l[k - 1].dot(v))
        return la.solve(M, np.concatenate(y)).reshape(L, n)

    R1, R2 = right(E1, np.exp(1j * p)), right(E2, np.exp(-1j * p))
    tot = 0
    for k in range(L):
        tot += l[k - 1].dot(E12[k]).dot(r[k]) - l[k - 1].dot(E1[k]).dot(r[k]) * l[k - 1].dot(E2[k]).dot(r[k])
        tot += np.exp(1j * p) * l[k - 1].dot(E2[k]).dot(R1[(k + 1) % L])
        tot += np.exp(-1j * p) * l[k - 1].dot(E1[k]).dot(R2[(k + 1) % L])
    return tot


def setup(c, **kw):
    s, inf, sto, h, n, t = p19.setup(c, **kw)
    s.calc_B()
    return s, inf, sto, h, n, max(1e-8, 100 * t)


def pair(c, sto):
    r = gens.rng(c["seed"], "vecs")
    B1 = vector(sto, c["p"], c["v1"], r)
    B2 = B1 if c["v2"] == "same" else vector(sto, c["p"], c["v2"], r)
    return B1, B2


def is_fixed(kind):
    return kind == "fixed"


def size(inf, B):
    """A scale for overlaps: norms in the metric of the environments."""
    return np.sqrt(abs(sum(np.einsum('ab,sac,cd,sbd->', inf.l[k - 1], b, inf.r[k], b.conj()) for k, b in enumerate(B)))) + 1e-300


@facet("P20", case(), quick=350, shards=3, rule="bond dimension of at least two and vectors that are not gauge fixed")
def overlaps(c, ctx):
    """Overlaps at all momenta, with and without the gauge-fixing shortcuts."""
    s, inf, sto, h, n, t = setup(c)
    B1, B2 = pair(c, sto)
    p = c["p"]
    ctx.nontrivial(c["c"]["D"] > 1 and not (is_fixed(c["v1"]) and is_fixed(c["v2"])))
    ctx.tag("p=%.2f" % p)
    want = overlap(sto, B1, B2, p)
    sc = size(sto, B1) * size(sto, B2) / inf.gap
    k1, k2 = copy.deepcopy(B1), copy.deepcopy(B2)
    ctx.close(s._B_overlap(B1, B2, p=p), want, t, "overlap", scale=sc)
    ctx.close(s._B_overlap(B2, B1, p=p), np.conj(want), t, "overlap, exchanged", scale=sc)
    if is_fixed(c["v1"]) or c["v2"] == "same" and is_fixed(c["v1"]):
        ctx.close(s._B_overlap(B1, B2, p=p, B1_is_GF=True), want, t, "overlap with a gauge-fixed ket", scale=sc)
    if is_fixed(c["v2"]):
        ctx.close(s._B_overlap(B1, B2, p=p, B2_is_GF=True), want, t, "overlap with a gauge-fixed bra", scale=sc)
        if is_fixed(c["v1"]):
            ctx.close(s._B_overlap(B1, B2, p=p, B1_is_GF=True, B2_is_GF=True), want, t, "overlap, both gauge fixed", scale=sc)
            ctx.close(s._B_overlap_GF(B1, B2), want, t, "gauge-fixed overlap", scale=sc)
            ctx.close(want, un.tangent_ip(sto, B2, B1), t, "model: gauge-fixed inner product", scale=sc)
    for a, b in zip(k1 + k2, B1 + B2):
        ctx.close(b, a, 0, "a tangent vector was changed")


@facet("P20", case(), quick=300, shards=3, rule="bond dimension of at least two and a vector that is not gauge fixed")
def gauge_fixing(c, ctx):
    """Gauge fixing keeps the physical tangent vector: overlaps with everything stay, the difference has norm zero."""
    s, inf, sto, h, n, t = setup(c)
    B1, B2 = pair(c, sto)
    p = c["p"]
    ctx.nontrivial(c["c"]["D"] > 1 and not is_fixed(c["v1"]))
    k1 = copy.deepcopy(B1)
    G, x = s._B_to_B_GF(B1, p=p)
    sc = size(sto, B1)
    for k in range(s.L):
        ctx.close(B1[k], k1[k], 0, "the tangent vector was changed")
        ctx.check(np.shape(G[k]) == B1[k].shape, "shape after gauge fixing")
        g = np.einsum('sab,bc,sdc->ad', G[k], sto.r[k], sto.As[k].conj())
        ctx.close(g, 0 * g, t, "gauge condition", scale=max(1, abs(G[k]).max()) * max(1, abs(sto.r[k]).max()))
        if is_fixed(c["v1"]):
            ctx.close(G[k], B1[k], t, "gauge fixing a gauge-fixed vector", scale=max(1, abs(B1[k]).max()))
    want = overlap(sto, B1, B2, p)
    ctx.close(overlap(sto, list(G), B2, p), want, t, "overlap after gauge fixing", scale=sc * size(sto, B2) / inf.gap)
    ctx.close(s._B_overlap(list(G), B2, p=p, B1_is_GF=True), want, t, "reported overlap after gauge fixing", scale=sc * size(sto, B2) / inf.gap)
    nn = overlap(sto, B1, B1, p)
    ctx.close(sum(la.norm(np.asarray(y).ravel()) ** 2 for y in x), nn, t, "norm of the parameters", scale=sc ** 2 / inf.gap)
    d = [a - b for a, b in zip(B1, G)]
    ctx.close(overlap(sto, d, d, p), 0, t, "norm of the difference", scale=sc ** 2 / inf.gap)
    if c["v1"].startswith("null"):
        ctx.close(nn, 0, t, "model: a gauge transformation is a null vector", scale=sc ** 2 / inf.gap)


# ---------------------------------------------------------------- searches
@st.composite
def cg_case(draw):
    c = draw(case(maxD=3))
    c["PR"] = draw(st.booleans())
    c["reset"] = draw(st.sampled_from([1, 3, 20]))
    c["tau"] = draw(st.sampled_from([.01, .04, .2]))
    c["steps"] = draw(st.integers(1, 6))
    return c


def energy(s, h, n):
    a = un.Inf(s.A)
    if a.gap < .01 or a.cond() > 1e8:
        raise Skip("the search left the well-posed region")
    return sum(a.expect(h, k, n) for k in range(a.L)).real / a.L


def anderson(h, n, q):
    """A rigorous lower bound of the energy density: ground-state energy of an open cluster per term."""
    m = n + 1
    while q ** m < 60:
        m += 1
    H = 0
    for j in range(m - n + 1):
        H = H + np.kron(np.kron(np.eye(q ** j), np.asarray(h).reshape(q ** n, q ** n)), np.eye(q ** (m - n - j)))
    return la.eigvalsh(H)[0] / (m - n + 1)


@facet("P20", cg_case(), quick=150, shards=2, rule="a direction that does not vanish")
def line_search(c, ctx):
    """Energies, slopes and stationarity conditions recorded by a line search along a direction."""
    from evoMPS.tdvp_uniform import EvoMPS_line_search
    s, inf, sto, h, n, t = setup(c)
    B = s.calc_B()
    e2 = s.eta.real ** 2
    L = s.L
    ctx.nontrivial(c["c"]["D"] > 1 and e2 > 1e-6)
    A0 = [np.array(A) for A in s.A]
    e0 = s.h_expect.real
    sc = p18.nrm(h)
    r = gens.rng(c["seed"], "ls")
    W = [b + .3 * w * np.sqrt(e2) / max(size(sto, [x]), 1) for b, w, x in zip(B, un.gauge_fixed(sto, r), sto.As)] if c["PR"] else B
    ls = EvoMPS_line_search(s, W, B)
    slope = -2 * un.tangent_ip(sto, B, W)                  # derivative of the energy per cell: its real part
    ctx.close(np.real(ls.gs[0]), slope.real, t, "slope at zero", scale=sc ** 2)
    ctx.close(ls.hs[0], e0, 0, "energy at zero")
    if slope.real >= 0:
        raise Skip("not a descent direction")
    tau = c["tau"] * p19.timescale(inf, sto, h, W)
    taus = sorted(set([tau, tau / 2, 2 * tau * r.rand()]))
    for x in taus + taus[:1]:
        g = ls.f(x)
        i = ls.taus.index(x)
        X = un.Inf([A - x * b for A, b in zip(sto.As, W)])
        if X.cond() > 1e6:
            raise Skip("ill-conditioned along the line")
        ex = sum(X.expect(h, k, n) for k in range(L)).real / L
        ctx.close(ls.hs[i], ex, t, "recorded energy", scale=sc)
        ctx.close(g, np.real(ls.gs[i]), 0, "recorded slope")
        # slope: derivative of the energy per cell along the line (tensors normalised: per unit of rescaled step)
        d = 1e-4 * p19.timescale(inf, sto, h, W)
        E = lambda y: (lambda a: sum(a.expect(h, k, n) for k in range(L)).real)(un.Inf([A - y * b for A, b in zip(sto.As, W)]))
        der = (8 * (E(x + d) - E(x - d)) - (E(x + 2 * d) - E(x - 2 * d))) / (12 * d)
        # (each tensor may have been rescaled by up to the norm)
        ctx.check(abs(g - der) <= (abs(der) + size(sto, W) * np.sqrt(e2)) * 4 * L * abs(X.norm - 1) + 1e-4 * max(sc ** 2, abs(slope)),
                  "recorded slope %g, derivative of the energy %g" % (g, der))
        if ls.tdvp_tau != x:
            continue                                        # answered from memory
        Y = un.Inf(ls.tdvp.A)
        ctx.close(Y.norm, 1, 1e-8, "norm of the trial state")
        ctx.close(g, np.real(-2 * overlap(Y, un.direction(Y, h, n), W, 0)), 1e-5, "recorded slope", scale=max(sc ** 2, abs(slope)))
        w = ex <= e0 + 1e-4 * x * slope.real and np.real(ls.gs[i]) >= .1 * slope.real
        if abs(ex - e0 - 1e-4 * x * slope.real) > 1e-7 * sc and abs(np.real(ls.gs[i]) - .1 * slope.real) > 1e-7 * sc ** 2:
            ctx.check(bool(ls.Ws[i]) == bool(w), "Wolfe conditions recorded as %s" % ls.Ws[i])
    ctx.check(len(ls.taus) == len(ls.hs) == len(ls.gs) == len(ls.Ws) == len(ls.lLs) == len(ls.rLs) == len(ls.K0s) == len(set(ls.taus)),
              "history lists of different lengths")
    for k in range(L):
        ctx.close(s.A[k], A0[k], 0, "the line search changed the state")
    ls2 = EvoMPS_line_search(s, W, B)
    t2, hmin, i = ls2.brentq(tau)
    if t2 > 0:
        X = un.Inf([A - t2 * b for A, b in zip(sto.As, W)])
        if X.cond() < 1e6:
            ex = sum(X.expect(h, k, n) for k in range(L)).real / L
            ctx.close(hmin, ex, t, "energy found by the line search", scale=sc)
            ctx.check(ls2.taus[i] == t2 and ls2.hs[i] == hmin, "index of the minimum")
    for k in range(L):
        ctx.close(s.A[k], A0[k], 0, "the line search changed the state")


@facet("P20", cg_case(), quick=120, shards=3, rule="a direction that does not vanish and at least two steps")
def conjugate_gradient(c, ctx):
    """Conjugate-gradient steps by hand: reported gradients, and the energy goes down."""
    s, inf, sto, h, n, t = setup(c)
    sc = p18.nrm(h)
    lower = anderson(h, n, c["c"]["q"])
    B0 = g0 = None
    gg = tau = 0
    tau = tau0 = c["tau"] / sc
    e = s.h_expect.real
    eta0 = s.eta.real
    ctx.nontrivial(c["c"]["D"] > 1 and eta0 > 1e-3 and c["steps"] > 1)
    for i in range(c["steps"]):
        reset = i % c["reset"] == 0
        s.update(restore_CF=reset, auto_truncate=False)
        now = un.Inf(s.A)
        if now.cond() > 1e6 or now.gap < .02:
            break
        A0 = [np.array(A) for A in s.A]
        B0, g0, gg, tau = s.calc_B_CG(B0, g0, gg, tau, tau_init=tau0, reset=reset, use_PR=c["PR"])
        if not all((np.abs(a - b) < 1e-12).all() for a, b in zip(A0, s.A)):
            A0 = [np.array(A) for A in s.A]                    # the canonical form was restored in a retry
        now = un.Inf(s.A)
        G = un.direction(now, h, n)
        g2 = un.tangent_ip(now, G, G).real
        tol = max(1e-7, 1e-9 * now.cond())
        ctx.close(gg, g2, tol, "squared norm of the gradient", scale=sc ** 2)
        for k in range(s.L):
            ctx.close(g0[k], G[k], tol, "gradient", scale=max(sc, abs(G[k]).max()))
            if reset:
                ctx.close(B0[k], g0[k], 0, "direction after a reset")
        ctx.check(tau > 0 and np.isfinite(tau), "step %s" % tau)
        s.take_step(tau, B=B0)
        en = energy(s, h, n)
        ctx.check(en <= e + 1e-8 * sc, "step %d raised the energy by %g" % (i, en - e))
        ctx.check(en >= lower - 1e-9 * sc, "energy %.12g below the rigorous bound %.12g" % (en, lower))
        e = en


@facet("P20", cg_case(), quick=60, shards=3, rule="the search took at least two steps")
def search(c, ctx):
    """Whole searches: monotone reported energies, a stationary end, a valid and refreshed state."""
    from evoMPS import dynamics
    c = dict(c, c=dict(c["c"], D=min(2, c["c"]["D"])))
    s, inf, sto, h, n, t = setup(c)
    sc = p18.nrm(h)
    lower = anderson(h, n, c["c"]["q"])
    log = []
    tol = 1e-3 * sc
    maxit = 40
    kind = ("cg", "ground", "gd")[c["steps"] % 3]
    cb = lambda sys, i, **kw: log.append((i, sys.h_expect.real, sys.eta.real))
    if kind == "cg":
        r, its, h0 = dynamics.opt_conj_grad(s, tol=tol, h_init=.05 / sc, reset_every=c["reset"], max_itr=maxit, cb_func=cb)
    elif kind == "ground":
        r, its = dynamics.find_ground(s, tol=tol, h_init=.05 / sc, max_itr=maxit, CG_start_tol=.1 * sc, cb_func=cb), None
    else:
        r, its = dynamics.opt_grad_descent(s, tol=tol, h_init=.05 / sc, max_itr=maxit, cb_func=cb)
    ctx.nontrivial(len(log) > 2)
    ctx.tag(kind)
    ctx.check(r is s, "another state object was returned")
    a = un.Inf(s.A)
    if a.cond() > 1e7 or a.gap < .02:
        raise Skip("the search ended in an ill-conditioned state")
    en = energy(s, h, n)
    ctx.close(s.h_expect.real, en, 1e-7, "energy after the search", scale=sc)
    ctx.check(en >= lower - 1e-9 * sc, "energy %.12g below the rigorous bound %.12g" % (en, lower))
    es = [x[1] for x in log]
    ctx.check(es[-1] <= es[0] + 1e-8 * sc, "the search raised the energy by %g" % (es[-1] - es[0]))
    if kind == "cg":
        for x, y in zip(es, es[1:]):
            ctx.check(y <= x + 1e-7 * sc, "a step raised the energy by %g" % (y - x))
        ctx.check(its == len(log) and its <= maxit + 1, "%d iterations, %d callbacks" % (its, len(log)))
        ctx.check(log[-1][2] < tol or its == maxit + 1, "stopped early: eta %g" % log[-1][2])
    G = un.direction(a, h, n)
    eta = np.sqrt(un.tangent_ip(a, G, G).real)
    if log[-1][2] < tol:
        ctx.check(eta <= tol * 1.01 + 1e-9, "not stationary: eta %g, tolerance %g" % (eta, tol))
