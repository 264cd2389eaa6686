"""P23: sandwich evolution is the projected flow of the window in the infinite chain."""
import copy, os, shutil, tempfile
import numpy as np
import scipy.linalg as la
from hypothesis import strategies as st
from ..core import facet, Skip
from .. import gens, dense, uniform as un, sand
from .p22 import quiet, m_W
from .p19 import ANGLES, phase


@st.composite
def case(draw, **kw):
    kw.setdefault("maxN", 4)
    kw.setdefault("maxq", 2 + draw(st.sampled_from([0, 0, 0, 1])))
    s = draw(sand.case(**kw))
    if s["q"] == 3:
        s["N"] = min(s["N"], 2)
        s["dims"] = s["dims"][:s["N"] - 1]
    c = dict(s=s, how=draw(st.sampled_from(["uniform", "two", "mps", "mps"])), sites=draw(st.sampled_from([2, 2, 3])),
             form=draw(st.sampled_from(["list", "list", "callable"])), bulkform=draw(st.sampled_from(["array", "array", "func"])),
             hams=draw(st.sampled_from(["same", "impurity", "all", "all"])), hr=draw(st.sampled_from(["same", "other"])),
             cf=draw(st.sampled_from([True, True, False])), real=draw(st.booleans()), centre=draw(st.sampled_from([0, 0, 0, 1, 2, 3])),
             angle=draw(st.sampled_from(ANGLES)), seed=draw(gens.seeds))
    if c["how"] == "uniform":
        c["hr"] = "same"
        s["right"] = "same"
    if c["how"] != "mps":
        s["DR"] = s["DL"]
    return c


def fun(h):
    def f(*a):
        return h[tuple(int(i) for i in a)]
    return f


class Ham(object):
    """The Hamiltonian a user asks for: bulk terms, and terms of the window (counted from its original first site)."""

    def __init__(self, c):
        q, k = c["s"]["q"], c["sites"]
        r = gens.rng(c["seed"], "ham")
        mk = lambda: gens.herm(r, q ** k, c["real"]).reshape([q] * (2 * k))
        self.k, self.q, self.N, self.real = k, q, c["s"]["N"], c["real"]
        self.l = mk()
        self.r = self.l if c["hr"] == "same" else mk()
        self.d = {}
        if c["hams"] == "impurity":
            self.d[r.randint(0, self.N + 1)] = mk()
        elif c["hams"] == "all":
            for n in range(self.N + 1):
                self.d[n] = mk()
        if c["form"] == "callable" and c["hams"] == "all" and k == 3:
            self.d[-1] = mk()                     # (lists have no entry for the term on sites -1, 0, 1)

    def __call__(self, n):
        if n in self.d:
            return self.d[n]
        return self.l if n <= self.N else self.r


def install(s, c, H, off=0):
    """Give the Hamiltonian to the sandwich."""
    if c["form"] == "callable":
        s.ham = lambda n, *a: H(n - s.grown_left)[tuple(int(i) for i in a)]
    else:
        s.ham = [H(n - s.grown_left) for n in range(s.N + 1)]


def make(c):
    """(sandwich with the Hamiltonian installed, not yet refreshed after that; Ham; tolerance)"""
    from evoMPS.mps_sandwich import EvoMPS_MPS_Sandwich
    from evoMPS.tdvp_sandwich import EvoMPS_TDVP_Sandwich
    from evoMPS.tdvp_uniform import EvoMPS_TDVP_Uniform
    left, W, right = sand.tensors(c["s"])
    H = Ham(c)
    k = c["sites"]
    bl, br = (H.l, H.r) if c["bulkform"] == "array" else (fun(H.l), fun(H.r))
    if c["s"]["right"] == "other":
        right = un.tensors(dict(D=c["s"]["DR"], q=c["s"]["q"], L=c["s"]["LR"], kind=c["s"]["kind"], seed=c["s"]["seed"] + 7))
    m = sand.Sand(left, W, right)
    sand.wellposed(m, gap=.1, smin=2e-2, cond=3e3)
    if c["how"] == "mps":
        mps = quiet(EvoMPS_MPS_Sandwich.from_tensors, left, W, right)
        mps.update()
        terms = [H(n) for n in range(m.N + 1)]
        s = quiet(EvoMPS_TDVP_Sandwich.from_mps, mps, bl, terms, br, ham_sites=k)
        if c["form"] == "callable":
            install(s, c, H)
    else:
        u = EvoMPS_TDVP_Uniform.from_tensors([A.copy() for A in left], bl, ham_sites=k)
        u.update()
        v = None
        if c["how"] == "two":
            v = EvoMPS_TDVP_Uniform.from_tensors([A.copy() for A in right], br, ham_sites=k)
            v.update()
        s = quiet(EvoMPS_TDVP_Sandwich, m.N, u, uni_right=v)
        r = gens.rng(c["seed"], "W")
        if c["s"]["window"] != "bulk":
            x = {"random": 1., "perturbed": .3}[c["s"]["window"]]
            for n in range(1, m.N + 1):
                s.A[n] = s.A[n] + x * gens.cgauss(r, *s.A[n].shape) * abs(s.A[n]).max()
        install(s, c, H)
    if c["centre"]:
        s.N_centre = 1 + c["centre"] % m.N
    s.update(restore_CF=c["cf"])
    m = sand.model_of(s)
    sand.wellposed(m, gap=.1, smin=2e-2, cond=3e3)
    t = max(1e-9, 1e-11 * m.cond() / min(m.a.gap, m.b.gap))
    return s, m, H, t


def window(s, m, H):
    g = s.grown_left
    return sand.Window(m, H.l, H.r, lambda n: H(n - g), H.k)


def scale(H):
    q = H.q ** H.k
    return max(1., max(la.norm(np.asarray(h).reshape(q, q), 2) for h in [H.l, H.r] + list(H.d.values())))


def check_energies(ctx, s, m, H, w, t, what=""):
    """Local energies and the excess energy."""
    sc = scale(H)
    g = s.grown_left
    psi = w.vec(m.W)
    for n in range(2 - H.k, s.N + 1):
        ctx.close(s.h_expect[n], m.expect(H(n - g), n, H.k), 10 * t, what + "energy of term %d of %d" % (n, s.N), scale=sc)
    for n in range(0, s.N + 1):
        f = s.expect_2s if H.k == 2 else s.expect_3s
        ctx.close(f(H(n - g), n), m.expect(H(n - g), n, H.k), 10 * t, what + "expectation value of a term", scale=4 * sc)
    ctx.close(s.dH_expect, w.energy(psi), 100 * t, what + "excess energy", scale=sc * (s.N + 2) / min(m.a.gap, m.b.gap))


def dir_(s):
    """The direction, zeros where there is nothing to vary."""
    B = s.calc_B()
    return [None] + [B[n] if B[n] is not None else np.zeros_like(s.A[n]) for n in range(1, len(B))]


def check_direction(ctx, s, m, H, w, t, what=""):
    """The evolution direction, its gauge and its norms."""
    sc = scale(H)
    psi = w.vec(m.W)
    nrm = la.norm(psi)
    want = w.direction(m.W) / nrm
    sw = sc * s.N + la.norm(want)
    B = dir_(s)
    ctx.check(len(B) >= s.N + 1, what + "direction of %d sites" % len(B))
    Bs = B[1:s.N + 1]
    v = w.tvec(m.W, Bs) / nrm
    ctx.close(v, want, 1e3 * t, what + "direction", scale=sw)
    ctx.close(s.eta, la.norm(want), 1e3 * t, what + "eta", scale=sw)
    for n in range(1, s.N + 1):
        o = [b if j == n - 1 else 0 * b for j, b in enumerate(Bs)]
        ctx.close(s.eta_sq[n], la.norm(w.tvec(m.W, o) / nrm) ** 2, 1e3 * t, what + "eta_sq", scale=sw ** 2)
        A, b = m.W[n - 1], Bs[n - 1]
        x = sw * 10
        if n > s.N_centre:
            r = dense.arr(s.r[n])
            ctx.close(np.einsum('sab,bc,sdc->ad', b, r, A.conj()), np.zeros((A.shape[1],) * 2), 1e3 * t, what + "right gauge", scale=x * max(1, abs(r).max()))
        if n < s.N_centre:
            l = dense.arr(s.l[n - 1])
            ctx.close(np.einsum('sab,ac,scd->bd', A.conj(), l, b), np.zeros((A.shape[2],) * 2), 1e3 * t, what + "left gauge", scale=x * max(1, abs(l).max()))
    return B, want, nrm


def tags(c, ctx, s):
    ctx.tag("%s %s-site %s N=%d" % (c["how"], c["sites"], c["form"], s.N))


RULE = "a direction that does not vanish in a window of at least two sites"


@facet("P23", case(), quick=250, shards=4, rule=RULE)
def direction(c, ctx):
    """Energies and direction for every construction; a second computation changes nothing; bulk quantities."""
    s, m, H, t = make(c)
    tags(c, ctx, s)
    w = window(s, m, H)
    check_energies(ctx, s, m, H, w, t)
    B, want, nrm = check_direction(ctx, s, m, H, w, t)
    ctx.nontrivial(s.N > 1 and la.norm(want) > 1e-3)
    B2 = dir_(s)
    for n in range(1, s.N + 1):
        ctx.close(B2[n], B[n], 1e-12, "direction computed again", scale=max(1, abs(B[n]).max()))
    g = sand.model_of(s)
    for n in range(1, s.N + 1):
        ctx.close(g.W[n - 1], m.W[n - 1], 0, "tensors after computing the direction")
    # a different refresh of the same state changes neither energies nor norms
    e, eta = s.dH_expect, s.eta
    s.N_centre = 1 + c["seed"] % s.N
    ret = s.update(restore_CF=c["seed"] % 2 == 0)
    ctx.close(ret, s.dH_expect, 0, "excess energy returned by update()")
    m = sand.model_of(s)
    w = window(s, m, H)
    t = max(t, 1e-11 * m.cond() / min(m.a.gap, m.b.gap))
    check_energies(ctx, s, m, H, w, t, "after another refresh: ")
    check_direction(ctx, s, m, H, w, t, "after another refresh: ")


@facet("P23", case(maxN=3), quick=150, shards=3, rule=RULE)
def euler(c, ctx):
    """Euler steps: exact tensors, given directions, energy change, local error."""
    s, m, H, t = make(c)
    tags(c, ctx, s)
    w = window(s, m, H)
    psi = w.vec(m.W)
    want = w.direction(m.W) / la.norm(psi)
    eta = la.norm(want)
    ctx.nontrivial(s.N > 1 and eta > 1e-3)
    sc = scale(H) * s.N
    z = .1 * phase(c) / sc
    B = s.calc_B()
    keep = [None] + [np.zeros_like(s.A[n]) if B[n] is None else B[n].copy() for n in range(1, s.N + 1)]
    for mode in ("own direction", "given direction", "zero step"):
        s1 = copy.deepcopy(s)
        dz = 0. if mode == "zero step" else z
        s1.take_step(dz, **(dict(B=copy.deepcopy(B)) if mode == "given direction" else {}))
        ctx.close(s1.eta, eta, 1e3 * t, "eta after the step", scale=sc)
        for n in range(1, s.N + 1):
            ctx.close(s1.A[n], m.W[n - 1] - dz * keep[n], 1e-12, "tensors after a step, " + mode, scale=max(1, abs(keep[n]).max()))
    # energy change
    E0 = w.energy(psi)
    dE = [w.energy(w.vec([A - y * b for A, b in zip(m.W, keep[1:])])) - E0 for y in (z / 100, -z / 100)]
    rate = (dE[0] - dE[1]) / 2
    ctx.close(rate, -2 * (z / 100).real * eta ** 2, 1e3 * t + 1e-4, "energy change", scale=abs(z / 100) * (eta ** 2 + 1e-3))
    order(ctx, s, m, w, lambda x, y: x.take_step(y), .05, 1, "Euler", 2, c, t)


def order(ctx, s, m, w, step, h0, p, name, sub, c, t):
    psi = w.vec(m.W)
    v = w.direction(m.W)
    n1 = la.norm(w.H, 2)
    stiff = max([n1] + [la.norm(b.ravel()) / la.norm(a.ravel()) for a, b in zip(m.W, dir_(s)[1:])])
    z0 = h0 * phase(c) / stiff * min(1., 5 * smallest(m))
    errs = []
    for j in range(3):
        z = z0 / 2 ** j
        s1 = copy.deepcopy(s)
        step(s1, z)
        x = w.vec([np.array(s1.A[n]) for n in range(1, s.N + 1)])
        ctx.check(np.isfinite(x).all(), name + ": non-finite state")
        errs.append(dense.same_ray(x, w.vec(w.flow(m.W, z, sub))))
    floor = 1e-12 + 100 * t * abs(z0)
    ctx.check(errs[2] <= floor or errs[2] <= 6. * 2. ** (-2 * (p + 1)) * errs[0],
              "%s: local errors %s do not drop like h^%d" % (name, errs, p + 1))


def smallest(m):
    return min(np.sqrt(x[-1] / x[0]) for x in [m.schmidt_sq(n) for n in range(m.N + 1)])


@facet("P23", case(maxN=3), quick=120, shards=4, rule=RULE)
def rk4(c, ctx):
    """Runge-Kutta steps: fifth-order local errors, given directions, bulks untouched."""
    s, m, H, t = make(c)
    tags(c, ctx, s)
    w = window(s, m, H)
    psi = w.vec(m.W)
    ctx.nontrivial(s.N > 1 and la.norm(w.direction(m.W)) > 1e-3 * la.norm(psi))
    order(ctx, s, m, w, lambda x, y: x.take_step_RK4(y), .2, 4, "RK4", 3, c, t)
    z = .1 * phase(c) / la.norm(w.H, 2)
    s1, s2 = copy.deepcopy(s), copy.deepcopy(s)
    B = s2.calc_B()
    eta = s2.eta
    keep = copy.deepcopy(B)
    s1.take_step_RK4(z)
    s2.take_step_RK4(z, B_i=B)
    for n in range(1, s.N + 1):
        ctx.close(s2.A[n], s1.A[n], 1e-10, "RK4 with a given direction", scale=max(1, abs(s1.A[n]).max()))
        ctx.check((B[n] is None) == (keep[n] is None), "the given direction was changed")
        keep[n] is None or ctx.close(B[n], keep[n], 0, "the given direction was changed")
    for a, b in ((s1.uni_l, s.uni_l), (s1.uni_r, s.uni_r)):
        for k in range(a.L):
            ctx.close(a.A[k], b.A[k], 0, "bulk tensors after a step")
    s3 = copy.deepcopy(s)
    s3.take_step_RK4(0.)
    for n in range(1, s.N + 1):
        ctx.close(s3.A[n], m.W[n - 1], 1e-14, "RK4 with a zero step", scale=max(1, abs(m.W[n - 1]).max()))


@st.composite
def dyn_case(draw):
    c = draw(case(maxN=4))
    c["dD"] = draw(st.sampled_from([16, 16, 1, 2]))
    c["D_max"] = draw(st.sampled_from([32, 32, 2, 3, 4]))
    return c


@facet("P23", dyn_case(), quick=120, shards=3, rule="some bond is expanded")
def expansion(c, ctx):
    """Expanding steps add the leading two-site components of H|psi>; limits; the projection error."""
    s, m, H, t = make(c)
    tags(c, ctx, s)
    N, q = s.N, m.q
    w = window(s, m, H)
    psi = w.vec(m.W)
    nrm = la.norm(psi)
    D0 = [int(x) for x in s.D]
    D = [1] + [m.W[n].shape[1] for n in range(N)] + [m.W[-1].shape[2], 1]
    T = dense.Tangent(psi, D)
    x = psi.ravel()
    Hx = w.H.dot(x)
    sc = scale(H) * N + la.norm(Hx) / nrm
    Hx = Hx.reshape(psi.shape)
    lin = w.direction(m.W).copy()
    wantD = list(D0)
    err = 0
    s.eta_keep = None
    pe = s.compute_projection_error()
    for n in range(1, N):
        v = T.two_site(n + 1, Hx)                                   # chain site n + 1 is window site n
        mat = v.reshape(int(np.prod(psi.shape[:n + 1])), -1)
        U, sv, V = la.svd(mat, full_matrices=False)
        ctx.close(pe[n], (sv ** 2).sum() / nrm ** 2, 1e4 * t, "projection error at bond %d" % n, scale=sc ** 2)
        k0 = max(0, min(q * D0[n - 1], q * D0[n + 1]) - D0[n])
        k = max(0, min(c["dD"], c["D_max"] - D0[n], k0))
        if k and sv[k - 1] < 1e-6 * sc * nrm:
            raise Skip("vanishing singular values")
        if k < k0 and k and sv[k - 1] - sv[k] < 1e-3 * sv[0]:
            raise Skip("degenerate singular values")
        wantD[n] = D0[n] + k
        lin = lin + (U[:, :k] * sv[:k]).dot(V[:k]).reshape(psi.shape)
    ctx.nontrivial(sum(wantD) > sum(D0))
    P = N + 2
    rad = .1 * smallest(m) / sc
    acc = 0
    for j in range(P):
        z = rad * np.exp(2j * np.pi * j / P)
        s1 = copy.deepcopy(s)
        dD = s1.take_step(z, dynexp=True, dD_max=c["dD"], D_max=c["D_max"], sv_tol=1e-10)
        ctx.check([int(a) for a in s1.D] == wantD, "bond dimensions %s instead of %s" % (list(s1.D), wantD))
        ctx.check([int(a) + b for a, b in zip(dD, D0)][:N + 1] == wantD[:N + 1], "reported growth %s" % (dD,))
        acc = acc + w.vec([np.array(s1.A[n]) for n in range(1, N + 1)]) * np.exp(-2j * np.pi * j / P) / P
        if j == 0:
            s1.update()
            m1 = sand.model_of(s1)
            for n in range(N + 1):
                ctx.close(np.vdot(dense.arr(s1.l[n]), dense.arr(s1.r[n])), 1., 1e-8, "norm after the refresh")
    ctx.close(-acc / rad / nrm, lin / nrm, 1e4 * t, "direction of the expanding step", scale=sc / smallest(m))


@st.composite
def stat_case(draw):
    c = draw(case(maxN=3, maxD=2, maxL=1, kinds=("gauss", "real", "near")))
    c["s"].update(right="same", window="bulk")
    c.update(how="uniform", hams="same", hr="same", bulkform="array")
    if c["s"]["DL"] > 1 and c["s"]["q"] == 2:
        c["sites"] = 3
    c["ops"] = draw(st.lists(st.sampled_from(["euler", "rk4", "grow_left", "grow_right", "update", "plain"]), min_size=1, max_size=5))
    return c


@facet("P23", stat_case(), quick=120, shards=2, rule="a Hamiltonian that is not a multiple of the identity and at least one time step")
def stationary(c, ctx):
    """An undisturbed bulk that the Hamiltonian does not move stays as it is."""
    from evoMPS.tdvp_sandwich import EvoMPS_TDVP_Sandwich
    from evoMPS.tdvp_uniform import EvoMPS_TDVP_Uniform
    left, W, right = sand.tensors(c["s"])
    q, k = c["s"]["q"], c["sites"]
    inf = un.Inf(left)
    un.wellposed(inf, gap=.1, smin=2e-2)
    if inf.cond() > 1e3:
        raise Skip("ill-conditioned environments")
    Q = null_of(inf, k)
    r = gens.rng(c["seed"], "stat")
    h = Q.dot(gens.herm(r, Q.shape[1], False)).dot(Q.conj().T) + r.normal() * np.eye(q ** k)
    h = h.reshape([q] * (2 * k))
    u = EvoMPS_TDVP_Uniform.from_tensors([A.copy() for A in left], h, ham_sites=k)
    u.update()
    s = quiet(EvoMPS_TDVP_Sandwich, c["s"]["N"], u)
    s.update()
    m0 = sand.model_of(s)
    sc = max(1., la.norm(h.reshape(q ** k, -1), 2))
    ctx.nontrivial(Q.shape[1] > 0 and any(o in ("euler", "rk4") for o in c["ops"]))
    for op in c["ops"]:
        z = .05 * phase(c) / sc
        if op == "euler":
            s.take_step(z)
            ctx.close(s.eta, 0., 1e-6, "eta of a stationary state", scale=sc)
        elif op == "rk4":
            s.take_step_RK4(z)
        elif op.startswith("grow") and s.N < 6:
            getattr(s, op)(1)
        s.update(restore_CF=op != "plain")
        m = sand.model_of(s)
        ctx.close(s.dH_expect, 0., 1e-8, "excess energy of an undisturbed bulk", scale=sc * s.N)
        for n in range(-1, s.N + 2):
            ctx.close(m.rho(n, 2), m0.rho(1, 2), 1e-8, "two-site density of a stationary state at %d" % n)
    s.calc_B()
    ctx.close(s.eta, 0., 1e-6, "eta of a stationary state", scale=sc)


def null_of(inf, k):
    w, v = la.eigh(inf.rho(0, k))
    return v[:, w < 1e-10]


OPS = ["grow_left", "grow_right", "update", "plain", "euler", "euler", "rk4", "saveload", "quench", "centre", "dynexp"]


@st.composite
def hist_case(draw):
    c = draw(case(maxN=2, maxD=2, maxL=2))
    c["ops"] = [(draw(st.sampled_from(OPS)), draw(st.integers(0, 10 ** 6))) for i in range(draw(st.integers(1, 5)))]
    return c


@facet("P23", hist_case(), quick=200, shards=4, rule="at least two operations, including a time step or growth")
def histories(c, ctx):
    """Growth, steps, quenches, refreshes and persistence in any order: energies and direction stay exact; growth changes neither."""
    s, m, H, t = make(c)
    tags(c, ctx, s)
    ctx.nontrivial(len(c["ops"]) >= 2 and any(o[0] not in ("update", "plain", "centre") for o in c["ops"]))
    tmp = tempfile.mkdtemp(prefix="pbt")
    try:
        for i, (op, k) in enumerate(c["ops"]):
            what = "%d:%s: " % (i, op)
            ctx.tag(op)
            sc = scale(H)
            e0 = s.dH_expect
            L = m.a.L
            cf = True
            keep_e = op in ("update", "plain", "centre", "saveload")
            if op in ("grow_left", "grow_right"):
                x = 1 + k % 2
                if (s.N + x * (L if op == "grow_left" else m.b.L)) > 5 or m.q == 3:
                    continue
                old = m
                getattr(s, op)(x)
                if op == "grow_right":
                    # the new terms are those of the right bulk; a list is extended
                    if c["form"] == "list":
                        for n in range(m.N + 1, s.N + 1):
                            H.d.setdefault(n - s.grown_left, H.r)
                if c["form"] == "list":
                    ctx.check(len(s.ham) == s.N + 1, what + "%d Hamiltonian terms for %d sites" % (len(s.ham), s.N))
                cf = bool(k % 3)
                new = sand.model_of(s)
                lo, hi = (1 - x * L, old.N) if op == "grow_left" else (1, old.N + x * m.b.L)
                ref = sand.Sand(old.a.As, m_W(old, lo, hi), old.b.As)
                for n in range(0, s.N + 1):
                    ctx.close(new.rho(n, 2), ref.rho(n, 2), 1e-8, what + "two-site density")
                keep_e = op == "grow_left"
            elif op in ("euler", "rk4"):
                z = .02 * phase(c) / sc / s.N
                (s.take_step if op == "euler" else s.take_step_RK4)(z)
                cf = bool(k % 3)
            elif op == "dynexp":
                if m.q == 3 or s.N > 3:
                    continue
                s.take_step(.05 / sc, dynexp=True, D_max=3, dD_max=1, sv_tol=1e-3)
            elif op == "quench":
                r = gens.rng(k, "quench")
                H.d = dict(H.d)
                H.d[r.randint(0, s.N + 1) - s.grown_left] = gens.herm(r, H.q ** H.k, H.real).reshape([H.q] * (2 * H.k))
                install(s, c, H)
                cf = bool(k % 3)
            elif op == "centre":
                s.N_centre = 1 + k % s.N
                cf = bool(k % 3)
            elif op == "plain":
                cf = False
            elif op == "saveload":
                f = os.path.join(tmp, "s%d.npy" % i)
                s.save_state(f, userdata=k)
                s2 = copy.deepcopy(s)
                rr = gens.rng(k, "trash")
                for n in range(1, s.N + 1):
                    s2.A[n] = s2.A[n] + gens.cgauss(rr, *s2.A[n].shape)
                for u in (s2.uni_l, s2.uni_r):
                    for j in range(u.L):
                        u.A[j] = u.A[j] + .1 * gens.cgauss(rr, *u.A[j].shape)
                s2.update()
                ctx.check(s2.load_state(f) == k, what + "user data")
                s = s2
                install(s, c, H)
            s.update(restore_CF=cf)
            m = sand.model_of(s)
            sand.wellposed(m, gap=.05, smin=1e-2, cond=1e4)
            t = max(1e-9, 1e-11 * m.cond() / min(m.a.gap, m.b.gap))
            w = window(s, m, H)
            check_energies(ctx, s, m, H, w, t, what)
            check_direction(ctx, s, m, H, w, t, what)
            if keep_e:
                ctx.close(s.dH_expect, e0, 1e4 * t, what + "excess energy changed", scale=sc * (s.N + 2) / min(m.a.gap, m.b.gap))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
