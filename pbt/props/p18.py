"""P18: uniform energies, energy environments and the TDVP direction are the exact projections."""
import numpy as np
import scipy.linalg as la
from hypothesis import strategies as st
from ..core import facet, Skip
from .. import gens, dense, uniform as un
from .p16 import asfun

KINDS = ("gauss", "gauss", "real", "positive", "decay", "near")


@st.composite
def case(draw, **kw):
    kw.setdefault("maxD", 4)
    kw.setdefault("kinds", KINDS)
    return dict(c=draw(un.cell(**kw)), symm=draw(st.booleans()), cf=draw(st.sampled_from([True, True, False])),
                form=draw(st.sampled_from(["array", "array", "func", "tp"])), sites=draw(st.sampled_from([2, 2, 3])),
                real=draw(st.booleans()), seed=draw(gens.seeds))


def operator(c):
    """(Hamiltonian as array, products or None)"""
    q, n = c["c"]["q"], c["sites"]
    r = gens.rng(c["seed"], "ham")
    if c["form"] == "tp":
        tp = [[gens.herm(r, q, c["real"]), gens.herm(r, q, c["real"])] for i in range(1 + c["seed"] % 3)]
        return sum(np.einsum('su,tv->stuv', a, b) for a, b in tp), tp
    return gens.herm(r, q ** n, c["real"]).reshape([q] * (2 * n)), None


def setup(c, gap=.05, smin=1e-3, cond=1e5):
    """(state, dense model of the *stored* tensors, Hamiltonian array, number of sites, tolerance)"""
    from evoMPS.tdvp_uniform import EvoMPS_TDVP_Uniform
    cc = c["c"]
    As = un.tensors(cc)
    inf = un.Inf(As)
    un.wellposed(inf, gap=gap, smin=smin)
    if inf.cond() > cond:
        raise Skip("ill-conditioned environments")
    h, tp = operator(c)
    n = 2 if tp else c["sites"]
    s = un.make(EvoMPS_TDVP_Uniform, cc, As, c["symm"], "arpack", asfun(h) if c["form"] == "func" else h, n if c["form"] == "func" else None)
    s.ham_tp = tp
    s.update(restore_CF=c["cf"])
    sto = un.Inf(s.A)
    return s, inf, sto, h, n, max(1e-9, 1e-11 * max(inf.cond(), sto.cond()) / inf.gap)


def nrm(h):
    return max(1., la.norm(np.asarray(h).reshape(int(np.sqrt(h.size)), -1), 2))


@facet("P18", case(), quick=300, shards=4, rule="bond dimension of at least two")
def energy(c, ctx):
    """Energy densities and the energy environments from both sides."""
    s, inf, sto, h, n, t = setup(c)
    L = inf.L
    ctx.nontrivial(c["c"]["D"] > 1)
    ctx.tag("%d-site %s L=%d" % (n, c["form"], L))
    sc = nrm(h)
    e = [inf.expect(h, k, n) for k in range(L)]
    ctx.close(s.h_expect, sum(e) / L, t, "h_expect", scale=sc)
    for k in range(L):
        f = s.expect_2s if n == 2 else s.expect_3s
        ctx.close(f(s.ham, k), e[k], t, "expectation value of the stored Hamiltonian", scale=sc)
        ctx.close(f(h.copy(), k), e[k], t, "expectation value of a copy of the Hamiltonian", scale=sc)
    env = un.Envs(sto, h, n)
    # the library splits the norm between l and r in its own way
    D = c["c"]["D"]
    Kl, hl = s.calc_K_l()
    ctx.close(hl, sum(e) / L, t, "energy density from the left", scale=sc)
    for k in range(L):
        fr = np.trace(dense.arr(s.r[k - 1])) / np.trace(sto.r[k - 1])
        fl = np.trace(dense.arr(s.l[k])) / np.trace(sto.l[k])
        a, b = s.K[k] / fr, env.KR[k].reshape(D, D)
        ctx.close(a, b, 100 * t, "K", scale=max(sc, abs(b).max()))
        a, b = np.asarray(Kl[k]).T / fl, env.KL[k].reshape(D, D)
        ctx.close(a, b, 100 * t, "K_left", scale=max(sc, abs(b).max()))


@facet("P18", case(maxD=3), quick=300, shards=4, rule="bond dimension of at least two and a direction that does not vanish")
def direction(c, ctx):
    """The evolution direction is gauge fixed and represents the energy gradient; its norms and the energy rate."""
    s, inf, sto, h, n, t = setup(c, smin=1e-2, cond=1e4)
    L, D = inf.L, c["c"]["D"]
    B, x = s.calc_B(return_x=True)
    B2 = s.calc_B(set_eta=False)
    sc = nrm(h)
    t = max(1e-8, 100 * t)
    for k in range(L):
        ctx.close(B[k], B2[k], 1e-12, "direction computed twice", scale=sc)
        g = np.einsum('sab,bc,sdc->ad', B[k], sto.r[k], sto.As[k].conj())
        ctx.close(g, 0 * g, t, "gauge condition", scale=sc * max(1, abs(sto.r[k]).max()))
    ctx.nontrivial(D > 1 and abs(s.eta) > 1e-3)
    r = gens.rng(c["seed"], "W")
    for i in range(3):
        W = un.gauge_fixed(sto, r)
        if i == 2:                                   # a single site only
            W = [w if k == c["seed"] % L else 0 * w for k, w in enumerate(W)]
        nW = np.sqrt(abs(un.tangent_ip(sto, W, W)))
        if nW < 1e-8:
            continue
        want = un.gradient(sto.As, W, h, n)
        ctx.close(un.tangent_ip(sto, W, B), want, t, "overlap of the direction with a tangent vector", scale=sc * nW)
    nB = un.tangent_ip(sto, B, B).real
    ctx.close(s.eta ** 2, nB, t, "eta", scale=sc ** 2)
    for k in range(L):
        Bk = [b if j == k else 0 * b for j, b in enumerate(B)]
        ctx.close(s.eta_sq[k], un.tangent_ip(sto, Bk, Bk), t, "eta_sq", scale=sc ** 2)
        ctx.close(s.eta_sq[k], la.norm(x[k]) ** 2, t, "norm of the parameters x", scale=sc ** 2)
    # rate of change of the energy per cell: -2 eta^2
    d = 1e-4 / max(1., sc)
    f = lambda z: un.mixed_energy([A - z * b for A, b in zip(sto.As, B)], [A - z * b for A, b in zip(sto.As, B)], h, n).real
    rate = (8 * (f(d) - f(-d)) - (f(2 * d) - f(-2 * d))) / (12 * d)
    ctx.close(rate, -2 * nB, 1e-5, "energy rate", scale=sc ** 2)


@facet("P18", case(maxD=4, maxdim=27), quick=200, shards=2, rule="bond dimension of at least two")
def representations(c, ctx):
    """The same interaction as array, function, products or with three sites gives the same energies and directions."""
    from evoMPS.tdvp_uniform import EvoMPS_TDVP_Uniform
    cc = c["c"]
    q, L = cc["q"], cc["L"]
    As = un.tensors(cc)
    inf = un.Inf(As)
    un.wellposed(inf, gap=.05, smin=1e-2)
    if inf.cond() > 1e4:
        raise Skip("ill-conditioned environments")
    ctx.nontrivial(cc["D"] > 1)
    c = dict(c, form="tp")
    h, tp = operator(c)
    r = gens.rng(c["seed"], "mix")
    a = r.rand()
    I = np.eye(q)
    h3 = a * np.einsum('stuv,xy->stxuvy', h, I) + (1 - a) * np.einsum('stuv,xy->xstyuv', h, I)
    var = [("array", h, 2, None), ("func", asfun(h), 2, None), ("tp", h, 2, tp), ("three sites", h3, 3, None), ("three sites func", asfun(h3), 3, None)]
    if L > 1:
        var = var[:3] + [("three sites", np.einsum('stuv,xy->stxuvy', h, I), 3, None)]
    ref = None
    # order of setting things must not matter: also exchange the Hamiltonian of an existing state
    s0 = un.make(EvoMPS_TDVP_Uniform, cc, As, c["symm"], "arpack", h)
    s0.update(restore_CF=c["cf"])
    A0 = [np.array(x) for x in s0.A]
    for name, H, n, t in var:
        for mode in ("new", "set_ham"):
            if mode == "new":
                s = EvoMPS_TDVP_Uniform(cc["D"], q, H, n, L=L, do_update=False)
                un.setup(s, c["symm"], "arpack")
                for k in range(L):
                    s.A[k][:] = A0[k]
                s.ham_tp = t
                s.update(restore_CF=False)
            else:
                s = s0
                s.ham_tp = t
                s.set_ham(H, n)
                s.update(restore_CF=False)
            B = s.calc_B()
            if ref is None:
                ref = (s.h_expect, B, s.eta)
            sc = nrm(h)
            ctx.close(s.h_expect, ref[0], 1e-9, "%s (%s): energy density" % (name, mode), scale=sc)
            ctx.close(s.eta, ref[2], 1e-7, "%s (%s): eta" % (name, mode), scale=sc)
            for k in range(L):
                ctx.close(B[k], ref[1][k], 1e-7, "%s (%s): direction" % (name, mode), scale=max(sc, abs(ref[1][k]).max()))
