"""P19: uniform time steps follow the projected flow to their stated order."""
import copy
import numpy as np
import scipy.linalg as la
from hypothesis import strategies as st
from ..core import facet, Skip
from .. import gens, dense, uniform as un
from . import p18

ANGLES = [0., 0., 90., 270., 180., 35., 120.]


@st.composite
def case(draw, **kw):
    kw.setdefault("maxD", 3)
    c = draw(p18.case(kinds=("gauss", "gauss", "real", "positive", "near"), **kw))
    c["angle"] = draw(st.sampled_from(ANGLES))
    return c


def phase(c):
    z = np.exp(1j * np.deg2rad(c["angle"]))
    return complex(round(z.real, 14), round(z.imag, 14))


def setup(c, **kw):
    kw.setdefault("smin", 2e-2)
    kw.setdefault("cond", 3e3)
    kw.setdefault("gap", .1)
    return p18.setup(c, **kw)


def rhos(inf):
    return np.concatenate([inf.rho(k, 2).ravel() for k in range(inf.L)])


@facet("P19", case(maxD=4), quick=250, shards=3, rule="bond dimension of at least two and a direction that does not vanish")
def euler(c, ctx):
    """An Euler step is A - dtau B with the independently projected direction; zero steps; given directions."""
    s, inf, sto, h, n, t = setup(c)
    t = max(1e-8, 100 * t)
    L = inf.L
    z = .1 * phase(c) / p18.nrm(h)
    want = un.direction(sto, h, n)
    sc = max(1., max(abs(b).max() for b in want))
    ctx.nontrivial(c["c"]["D"] > 1 and max(abs(b).max() for b in want) > 1e-3)
    A0 = [np.array(A) for A in s.A]
    B = s.calc_B()
    for k in range(L):
        ctx.close(B[k], want[k], t, "direction", scale=sc)
    eta = np.sqrt(un.tangent_ip(sto, want, want).real)
    keep = copy.deepcopy(B)
    for mode in ("own direction", "given direction"):
        s1 = copy.deepcopy(s)
        s1.take_step(z, **(dict(B=B) if mode == "given direction" else {}))
        ctx.close(s1.eta, eta, t, "eta after the step", scale=sc)
        for k in range(L):
            ctx.close(s1.A[k], A0[k] - z * want[k], t, "tensors after a step, " + mode, scale=sc)
            ctx.close(B[k], keep[k], 0, "the given direction was changed")
    for f in (lambda x: x.take_step(0), lambda x: x.take_step_RK4(0)):
        s1 = copy.deepcopy(s)
        f(s1)
        for k in range(L):
            ctx.close(s1.A[k], A0[k], 1e-13, "tensors after a zero step", scale=max(1, abs(A0[k]).max()))
        s1.update(restore_CF=False)
        ctx.close(s1.h_expect, s.h_expect, 1e-9, "energy after a zero step", scale=p18.nrm(h))
    # a custom direction
    W = un.gauge_fixed(sto, gens.rng(c["seed"], "W"))
    s1 = copy.deepcopy(s)
    s1.take_step(z, B=W)
    for k in range(L):
        ctx.close(s1.A[k], A0[k] - z * W[k], 1e-13, "step along a custom direction", scale=max(1, abs(W[k]).max()))


def flow(As, h, n, z, m):
    """Reference: dA/dtau = -B(A) by m Runge-Kutta substeps (without the constant energy), states as unnormalised tensors."""
    def f(X):
        inf = un.Inf(X)
        B = un.direction(inf, h, n)
        w = inf.norm ** (.5 / inf.L)
        return [-w * b for b in B]
    d = z / m
    for i in range(m):
        k1 = f(As)
        k2 = f([A + d / 2 * b for A, b in zip(As, k1)])
        k3 = f([A + d / 2 * b for A, b in zip(As, k2)])
        k4 = f([A + d * b for A, b in zip(As, k3)])
        As = [A + d / 6 * (a + 2 * b + 2 * e + g) for A, a, b, e, g in zip(As, k1, k2, k3, k4)]
    return As


def timescale(inf, sto, h, B):
    """A step size well inside the asymptotic regime."""
    stiff = max(la.norm(b.ravel()) / la.norm(A.ravel()) for A, b in zip(sto.As, B))
    return 1. / max(p18.nrm(h), stiff) * min(1., 5 * min(inf.schmidt(k)[-1] for k in range(inf.L)))


def order(c, ctx, step, h0, p, name, m):
    s, inf, sto, h, n, t = setup(c)
    B = un.direction(sto, h, n)
    eta = np.sqrt(abs(un.tangent_ip(sto, B, B)))
    ctx.nontrivial(c["c"]["D"] > 1 and eta > 1e-3)
    z0 = h0 * phase(c) * timescale(inf, sto, h, B)
    errs = []
    for j in range(3):
        z = z0 / 2 ** j
        s1 = copy.deepcopy(s)
        step(s1, z)
        ref = un.Inf(flow(sto.As, h, n, z, m))
        errs.append(la.norm(rhos(un.Inf(s1.A)) - rhos(ref)))
    ctx.check(all(np.isfinite(errs)), name + ": non-finite state")
    floor = 1e-11 + 10 * t * abs(z0)
    ctx.check(errs[2] <= floor or errs[2] <= 6. * 2. ** (-2 * (p + 1)) * errs[0],
              "%s: local errors %s do not drop like h^%d" % (name, errs, p + 1))


@facet("P19", case(), quick=120, shards=2, rule="bond dimension of at least two and a direction that does not vanish")
def euler_order(c, ctx):
    order(c, ctx, lambda s, z: s.take_step(z), .05, 1, "Euler", 2)


@facet("P19", case(), quick=120, shards=4, rule="bond dimension of at least two and a direction that does not vanish")
def rk4_order(c, ctx):
    order(c, ctx, lambda s, z: s.take_step_RK4(z), .2, 4, "RK4", 3)


@facet("P19", case(), quick=120, shards=2, rule="bond dimension of at least two and a direction that does not vanish")
def rk4_given(c, ctx):
    """A Runge-Kutta step with a given direction is the same step, leaves the given direction alone and can be repeated."""
    s, inf, sto, h, n, t = setup(c)
    z = .2 * phase(c) * timescale(inf, sto, h, un.direction(sto, h, n))
    s1, s2 = copy.deepcopy(s), copy.deepcopy(s)
    B = s2.calc_B()
    keep = copy.deepcopy(B)
    ctx.nontrivial(c["c"]["D"] > 1 and s2.eta > 1e-3)
    eta = s2.eta
    s1.take_step_RK4(z)
    s2.take_step_RK4(z, B_i=B)
    for k in range(s.L):
        ctx.close(s2.A[k], s1.A[k], 1e-9, "RK4 with a given direction", scale=max(1, abs(s1.A[k]).max()))
        ctx.close(B[k], keep[k], 0, "the given direction was changed")
    ctx.close(s1.eta, eta, 1e-9, "eta after RK4", scale=p18.nrm(h))
    e0 = s.h_expect.real
    s1.update()
    if c["angle"] in (90., 270.):
        s3 = copy.deepcopy(s)
        s3.take_step_RK4(z / 4)
        s3.update()
        a, b = abs(s1.h_expect.real - e0), abs(s3.h_expect.real - e0)
        ctx.check(b <= a / 40 + 1e-10 * p18.nrm(h), "energy drift %g, with a quarter of the step %g" % (a, b))
    if c["angle"] == 0.:
        ctx.check(s1.h_expect.real <= e0 + 1e-10 * p18.nrm(h), "imaginary time raised the energy by %g" % (s1.h_expect.real - e0))


@facet("P19", case(), quick=120, shards=2, rule="bond dimension of at least two and a direction that does not vanish")
def energy_change(c, ctx):
    """Energy rate of small steps: -2 eta^2 cos(angle) to first order, for both integrators."""
    s, inf, sto, h, n, t = setup(c)
    B = un.direction(sto, h, n)
    e2 = un.tangent_ip(sto, B, B).real
    ctx.nontrivial(c["c"]["D"] > 1 and e2 > 1e-6)
    d = 2e-3 / max(p18.nrm(h), max(la.norm(b.ravel()) / la.norm(A.ravel()) for A, b in zip(sto.As, B)))
    for rk in (False, True):
        def E(x):
            s1 = copy.deepcopy(s)
            (s1.take_step_RK4 if rk else s1.take_step)(x * phase(c))
            s1.update()
            a = un.Inf(s1.A)
            e = sum(a.expect(h, k, n) for k in range(a.L)).real / a.L
            ctx.close(s1.h_expect, e, 1e-9, "h_expect after the step and a refresh", scale=p18.nrm(h))
            return e * a.L
        rate = (8 * (E(d) - E(-d)) - (E(2 * d) - E(-2 * d))) / (12 * d)
        ctx.close(rate, -2 * e2 * phase(c).real, 1e-4, "energy rate (%s)" % ("RK4" if rk else "Euler"), scale=p18.nrm(h) ** 2)


@st.composite
def exp_case(draw):
    c = draw(case(maxD=3))
    c["dD"] = draw(st.sampled_from([1, 1, 2, 3, 16]))
    c["room"] = draw(st.sampled_from([0, 1, 2, 100]))
    return c


def captured(sto, h, n, dD):
    tot = cap = 0
    for k in range(sto.L):
        sv = un.two_site_sv(sto, h, n, k)
        if dD < len(sv) and sv[dD - 1] - sv[dD] < 1e-4 * sv[0] and sv[dD] > 1e-9:
            raise Skip("degenerate singular values at the limit")
        tot += (sv ** 2).sum()
        cap += (sv[:dD] ** 2).sum()
    return tot, cap


@facet("P19", exp_case(), quick=250, shards=4, rule="the state is expanded and something was missing from the tangent space")
def expand(c, ctx):
    """Dynamic expansion: limits, reported norms, the energy rate, and exact first-order evolution when everything fits."""
    s, inf, sto, h, n, t = setup(c)
    t = max(1e-8, 100 * t)
    L, D, q = inf.L, c["c"]["D"], c["c"]["q"]
    Dmax = D + c["room"]
    z = phase(c)
    sc = p18.nrm(h)
    B = un.direction(sto, h, n)
    eta2 = un.tangent_ip(sto, B, B).real
    dD = min(c["dD"], c["room"], (q - 1) * D)
    tot, cap = captured(sto, h, n, dD)
    need = max(int((un.two_site_sv(sto, h, n, k) > 1e-8).sum()) for k in range(L))
    ctx.nontrivial(dD > 0 and tot > 1e-6)
    ctx.tag("dD=%d of %d" % (dD, (q - 1) * D))

    def step(x):
        s1 = copy.deepcopy(s)
        s1.take_step(x * z, dynexp=True, D_max=Dmax, dD_max=c["dD"])
        ctx.check(s1.D <= max(D, Dmax) and D <= s1.D <= D + c["dD"], "bond dimension %d after expanding %d (limits %d, +%d)" % (s1.D, D, Dmax, c["dD"]))
        ctx.check(s1.D >= D + min(dD, need), "bond dimension %d, expected %d" % (s1.D, D + min(dD, need)))
        ctx.check(s1.D <= D + dD, "bond dimension %d, expected %d" % (s1.D, D + dD))
        for k in range(L):
            ctx.check(s1.A[k].shape == (q, s1.D, s1.D), "tensor shape")
            ctx.close(s1.A[k][:, :D, :D], sto.As[k] - x * z * B[k], t, "plain part of the expanded tensors", scale=sc)
        ctx.close(s1.eta, np.sqrt(eta2), t, "eta after an expanding step", scale=sc)
        if dD > 0:
            ctx.close(s1.etaBB ** 2, tot, t, "etaBB after an expanding step", scale=sc ** 2)
            ctx.close(np.sum(s1.etaBB_sq), tot, t, "etaBB_sq", scale=sc ** 2)
        return un.Inf(s1.A)

    d = 1e-3 / max(sc, max(la.norm(b.ravel()) / la.norm(A.ravel()) for A, b in zip(sto.As, B)))
    infs = [step(x) for x in (d, -d, 2 * d, -2 * d)]
    der = lambda f: (8 * (f(infs[0]) - f(infs[1])) - (f(infs[2]) - f(infs[3]))) / (12 * d)
    rate = der(lambda a: sum(a.expect(h, k, n) for k in range(L)).real)
    ctx.close(rate, -2 * (eta2 + cap) * z.real, 1e-4, "energy rate of the expanding step", scale=sc ** 2)
    if n == 2:
        env = un.Envs(sto, h, n)
        ctx.close(eta2 + tot, sum(env.with_op(h, k, 2) for k in range(L)), 1e-6, "model: energy variance", scale=sc ** 2)
        if dD == (q - 1) * D:
            # everything that H|psi> contains fits: exact (Heisenberg) rates for all observables
            O = gens.herm(gens.rng(c["seed"], "O"), q, False)
            for k in range(L):
                a, b = env.with_op(O, k, 1), env.with_op(O, k, 1, left=True)
                ctx.close(der(lambda x: x.expect(O, k, 1)), -(z * a + np.conj(z) * b), 1e-4, "exact rate of a local observable", scale=sc * p18.nrm(O))


@st.composite
def hist_case(draw):
    c = draw(case(maxD=2))
    c["ops"] = draw(st.lists(st.tuples(st.sampled_from(["rk4", "rk4", "euler", "expand", "trunc", "quench", "tp"]), st.booleans(), st.integers(1, 2)).map(list),
                             min_size=2, max_size=6))
    return c


@facet("P19", hist_case(), quick=120, shards=3, rule="at least two steps that move the state")
def history(c, ctx):
    """Sequences of steps, expansions, truncations and quenches: refreshed states are valid and energies right and monotone."""
    s, inf, sto, h, n, t = setup(c)
    sc = p18.nrm(h)
    moved = 0
    e = s.h_expect.real
    for i, (op, cf, a) in enumerate(c["ops"]):
        z = .03 * phase(c) / sc
        now = un.Inf(s.A)
        if now.cond() > 1e4 or min(now.schmidt(k)[-1] / now.schmidt(k)[0] for k in range(s.L)) < 1e-2 or now.gap < .05:
            s.update(restore_CF=True, auto_truncate=False)
            if un.Inf(s.A).gap < .05:
                break
            z = 0 * z
        D0 = s.D
        rates = True
        if op == "rk4":
            s.take_step_RK4(z)
        elif op == "euler":
            s.take_step(z / 10)
        elif op == "expand":
            s.take_step(z / 10, dynexp=True, D_max=4, dD_max=a)
            ctx.check(D0 <= s.D <= max(D0, min(4, D0 + a)), "bond dimension %d after expanding %d" % (s.D, D0))
        elif op == "trunc":
            if s.D > 1:
                s.update()                              # truncation is defined in canonical form
                s.truncate(s.D - 1)
            rates = False
        elif op == "quench":
            r = gens.rng(c["seed"], "quench%d" % i)
            h = gens.herm(r, c["c"]["q"] ** n, False).reshape([c["c"]["q"]] * (2 * n))
            s.ham_tp = None
            s.set_ham(h)
            rates = False
        elif op == "tp":
            q, r = c["c"]["q"], gens.rng(c["seed"], "tp%d" % i)
            s.ham_tp = [[gens.herm(r, q, False), gens.herm(r, q, False)]]
            h, n = np.einsum('su,tv->stuv', *s.ham_tp[0]), 2
            s.set_ham(h)
            rates = False
        sc = p18.nrm(h)
        moved += rates and abs(z) > 0
        before = un.Inf(s.A)
        s.update(restore_CF=cf or op in ("expand", "trunc"))
        after = un.Inf(s.A)
        if before.gap < .02 or before.cond() > 1e9:
            break
        tol = max(1e-8, 1e-10 * before.cond())
        un.check_fixed(ctx, s, tol, "after " + op)
        en = sum(after.expect(h, k, n) for k in range(s.L)).real / s.L
        ctx.close(s.h_expect, en, tol, "energy after " + op, scale=sc)
        if rates:
            ctx.check(s.D == after.As[0].shape[1] == len(dense.arr(s.l[0])), "shapes")
            if c["angle"] == 0.:
                ctx.check(en <= e + 1e-8 * sc, "imaginary time raised the energy by %g (%s)" % (en - e, op))
            elif c["angle"] in (90., 270.):
                ctx.check(abs(en - e) <= (1e-3 if op == "rk4" else 1e-2) * sc, "energy drift %g (%s)" % (en - e, op))
        e = en
    ctx.nontrivial(moved >= 2 and c["c"]["D"] > 1)
