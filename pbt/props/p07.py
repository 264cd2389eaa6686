"""P07: explicit integrators of finite chains follow the projected flow to their order."""
import numpy as np
import scipy.linalg as la
from hypothesis import strategies as st
from ..core import facet, Skip
from .. import gens, dense, finite

CH = dict(minN=2, maxN=5, maxq=3, maxD=4, maxdim=110, kinds=("gauss", "real"))
RULE = "the exact direction is not zero and some bond dimension exceeds one"


@st.composite
def case(draw, **kw):
    c = draw(gens.chain(**dict(CH, **kw)))
    k = draw(st.sampled_from([2, 3] if c["N"] >= 3 else [2]))
    p = draw(finite.prep())
    p["normalize"] = True
    return dict(c=c, h=draw(gens.finite_ham(c["N"], sites=k)), p=p,
                angle=draw(st.sampled_from([0., 90., 270., 180., 35., 120.])), callable=draw(st.booleans()))


def phase(c):
    a = np.deg2rad(c["angle"])
    z = np.exp(1j * a)
    return complex(round(z.real, 14), round(z.imag, 14))


def flow(psi, terms, D, dtau, n):
    """Reference: dpsi/dtau = -P(psi) (H - E) psi, integrated in the dense space with n Runge-Kutta substeps."""
    def f(x):
        T = dense.Tangent(x, D)
        Hx = dense.ham_apply(x, terms)
        E = dense.ip(x, Hx).real / dense.ip(x, x).real
        return -T(Hx - E * x)
    h = dtau / n
    x = psi
    for _ in range(n):
        k1 = f(x)
        k2 = f(x + h / 2 * k1)
        k3 = f(x + h / 2 * k2)
        k4 = f(x + h * k3)
        x = x + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
    return x


def setup(c, ctx, smin=0.03):
    s, terms = finite.tdvp(c["c"], c["h"], c["p"], as_callable=c["callable"])
    psi = dense.state_vec(s)
    T = dense.Tangent(psi, s.D)
    if s.N > 1 and T.smin < smin:
        raise Skip("Schmidt values too small")
    H = dense.ham_matrix(c["c"]["q"], terms)
    nH = max(1e-3, la.norm(H, 2))
    want = T(dense.ham_apply(psi, terms) - dense.ip(psi, dense.ham_apply(psi, terms)) * psi)
    ctx.nontrivial(la.norm(want.ravel()) > 1e-3 * nH and max(c["c"]["D"]) > 1)
    return s, terms, psi, H, nH, T.smin, la.norm(want.ravel())


def fresh(c):
    s, terms = finite.tdvp(c["c"], c["h"], c["p"], as_callable=c["callable"])
    return s


def order(c, ctx, step, h0, expect, name):
    """Local error of one step at h0, h0/2, h0/4: the error must drop at least as 2^-(order+1), with slack."""
    s, terms, psi, H, nH, smin, eta = setup(c, ctx)
    h0 = h0 * smin / nH * phase(c)
    errs = []
    for j in range(3):
        h = h0 / 2 ** j
        s = fresh(c)
        step(s, h)
        got = dense.state_vec(s)
        ref = flow(psi, terms, s.D, h, 4 if expect > 2 else 2)
        errs.append(la.norm((got - ref).ravel()))
    ctx.check(all(np.isfinite(errs)), name + ": non-finite state")
    floor = 3e-12
    # two halvings: 2^-2(order+1), with a factor for higher orders
    lim = 4. * 2. ** (-2 * (expect + 1))
    ctx.check(errs[2] <= floor or errs[2] <= lim * errs[0],
              "%s: local errors %s do not drop like h^%d" % (name, errs, expect + 1))
    # and the error constant is of natural size
    ctx.check(errs[0] <= 60 * (abs(h0) * nH / smin) ** (expect + 1) + floor,
              "%s: error %g too large for step %g" % (name, errs[0], abs(h0)))


@facet("P07", case(), quick=350, shards=2, rule=RULE)
def euler_order(c, ctx):
    order(c, ctx, lambda s, h: s.take_step(h), 0.1, 1, "Euler")


@facet("P07", case(), quick=300, shards=3, rule=RULE)
def rk4_order(c, ctx):
    order(c, ctx, lambda s, h: s.take_step_RK4(h), 0.4, 4, "RK4")


@facet("P07", case(maxdim=250, maxN=6, kinds=("gauss", "real", "decay")), quick=250, rule=RULE)
def variants(c, ctx):
    """Zero steps, the memory-saving path and precomputed directions."""
    s, terms, psi, H, nH, smin, eta = setup(c, ctx, 1e-3)
    h = 0.1 / nH * phase(c)
    A0 = dense.mps_tensors(s)
    for f in (lambda x: x.take_step(0.), lambda x: x.take_step_RK4(0.), lambda x: x.take_step(0., save_memory=True)):
        f(s)
        for n in range(s.N):
            ctx.close(s.A[n + 1], A0[n], 1e-15, "tensors after a zero step")
        s.update(restore_CF=False, normalize=False)
    s = fresh(c)
    B = s.calc_B()
    s.take_step(h)
    ref = [np.array(s.A[n]) for n in range(1, s.N + 1)]
    for n in range(1, s.N + 1):
        want = A0[n - 1] if B[n] is None else A0[n - 1] - h * B[n]
        ctx.close(ref[n - 1], want, 1e-11, "A - dtau B", scale=1 + abs(want).max() / smin)
    eta0 = s.eta
    for name, f in (("save_memory", lambda x: x.take_step(h, save_memory=True)),
                    ("given B", lambda x: x.take_step(h, B=x.calc_B()))):
        s2 = fresh(c)
        f(s2)
        for n in range(1, s.N + 1):
            ctx.close(s2.A[n], ref[n - 1], 1e-11, "step with " + name, scale=1 + abs(ref[n - 1]).max() / smin)
        if name != "save_memory":
            ctx.close(s2.eta, eta0, 1e-11, "eta after a step with " + name, scale=1 + eta)
    s1, s2 = fresh(c), fresh(c)
    s1.take_step_RK4(h * .3)
    B = s2.calc_B()
    keep = [None if b is None else b.copy() for b in B]
    s2.take_step_RK4(h * .3, B_i=B)
    for n in range(1, s.N + 1):
        if keep[n] is not None:
            ctx.close(B[n], keep[n], 0, "a direction given to RK4 was changed")
        ctx.close(s2.A[n], s1.A[n], 1e-11, "RK4 with given B", scale=1 + abs(s1.A[n]).max() / smin)
    ctx.close(s1.eta, eta, 1e-9, "eta after RK4", scale=1 + nH / smin)


@facet("P07", case(maxdim=250, maxN=6), quick=250, rule=RULE)
def energy_change(c, ctx):
    """Imaginary steps lower the energy at rate 2 eta^2; real steps conserve energy and norm to second order."""
    s, terms, psi, H, nH, smin, eta = setup(c, ctx, 0.02)
    E0 = s.H_expect.real
    for rk in (False, True):
        errs = {}
        for z in (1., 1j):
            for h in (2e-3, 1e-3):
                s = fresh(c)
                hh = h * smin / nH * z
                (s.take_step_RK4 if rk else s.take_step)(hh)
                s.update()
                dE = s.H_expect.real - E0
                ctx.close(s.H_expect.real, dense.expect(dense.state_vec(s), H.reshape(c["c"]["q"] * 2), list(range(s.N))).real,
                          1e-11, "H_expect after the step", scale=10 + nH)
                if z == 1:
                    want = -2 * abs(hh) * eta ** 2
                    ctx.check(abs(dE - want) <= 30 * abs(hh) ** 2 * nH * eta ** 2 / smin ** 2 + 1e-12 * (1 + nH),
                              "imaginary step (rk4=%s): energy change %g instead of %g" % (rk, dE, want))
                    ctx.check(dE <= 1e-12 * (1 + nH), "imaginary step raised the energy by %g" % dE)
                else:
                    p = 4 if rk else 1
                    ctx.check(abs(dE) <= 60 * nH * (abs(hh) * nH / smin) ** (p + 1) + 1e-12 * (1 + nH),
                              "real step (rk4=%s): energy changed by %g" % (rk, dE))


@facet("P07", case(full=True, maxN=5, maxdim=80), quick=150, rule="the Hamiltonian is not zero")
def exact_when_full(c, ctx):
    """With full bond dimension the flow is the exact Schroedinger evolution."""
    s, terms, psi, H, nH, smin, eta = setup(c, ctx, 0.02)
    ctx.nontrivial(len(terms) > 0)
    h = 0.2 * smin / nH * phase(c)
    ex = psi
    for j in range(3):
        s.take_step_RK4(h)
        s.update(restore_CF=bool(j % 2))
        ex = la.expm(-h * H).dot(ex.ravel()).reshape(psi.shape)
        ctx.check(dense.same_ray(dense.state_vec(s), ex) <= 1e-6,
                  "full-rank RK4 evolution differs from exact evolution by %g" % dense.same_ray(dense.state_vec(s), ex))


@st.composite
def history(draw):
    c = draw(case(maxdim=60, maxN=4))
    c["ops"] = draw(st.lists(st.tuples(st.sampled_from([0., 90., 270., 180., 60.]), st.booleans(), st.booleans()).map(list),
                             min_size=2, max_size=5))
    return c


@facet("P07", history(), quick=120, rule=RULE + "; at least two steps")
def histories(c, ctx):
    """Sequences of RK4 steps in changing directions, forms and refresh modes, against the dense flow."""
    s, terms, psi, H, nH, smin, eta = setup(c, ctx, 0.08)
    x = psi
    for ang, restore, swap in c["ops"]:
        if swap:
            finite.set_form(s, "left" if s.canonical_form == "right" else "right")
            s.update()
        h = 0.05 * smin / nH * np.exp(1j * np.deg2rad(ang))
        s.take_step_RK4(h)
        x = flow(x, terms, s.D, h, 2)
        s.update(restore_CF=restore)
        d = dense.same_ray(dense.state_vec(s), x)
        ctx.check(d <= 3e-7, "after %d steps the state is off the projected flow by %g" % (len(c["ops"]), d))
        if not restore:
            s.update()
