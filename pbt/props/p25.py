"""P25: evolution and search drivers do exactly the steps they promise."""
import contextlib
import copy
import io
import numpy as np
import scipy.linalg as la
from hypothesis import strategies as st
from ..core import facet, Skip
from .. import gens, dense, finite, uniform as un
from . import p07, p18, p19, p20


def duration(c):
    """(t, dt, promised number of steps): whole multiples, computed in different ways, and remainders"""
    dt, k = c["dt"], c["k"]
    t = {"mul": dt * k, "sum": sum([dt] * k), "lit": round(dt * k, 10), "rest": dt * (k + c["rest"])}[c["how"]]
    return t, dt, k


DUR = dict(dt=st.sampled_from([.1, .01, .02, .03, .05, .07, .003]), k=st.integers(0, 8), how=st.sampled_from(["mul", "lit", "lit", "sum", "rest"]),
           rest=st.sampled_from([.1, .5, .9]))


@st.composite
def fin_case(draw):
    c = draw(gens.chain(minN=2, maxN=5, maxq=3, maxD=3, maxdim=81, kinds=("gauss", "gauss", "real")))
    k = draw(st.sampled_from([2, 2, 3] if c["N"] >= 3 else [2]))
    out = dict(c=c, h=draw(gens.finite_ham(c["N"], sites=k)), form=draw(st.sampled_from(["right", "right", "left"])),
               integ=draw(st.sampled_from(["euler", "rk4", "Euler", "RK4"])), dynexp=draw(st.booleans()), D_max=draw(st.sampled_from([2, 3, 4, 128])),
               dD_max=draw(st.sampled_from([1, 2, 128])), trunc=draw(st.booleans()), cb=draw(st.booleans()), default=draw(st.integers(0, 5)),
               refresh=draw(st.booleans()))
    for n in sorted(DUR):
        out[n] = draw(DUR[n])
    return out


def make_finite(c):
    lst, terms = gens.ham_terms(c["c"], c["h"])
    sc = max([1.] + [sum(la.norm(t[0].reshape(int(np.sqrt(t[0].size)), -1), 2) for t in terms)])
    lst = [None if x is None else x / sc for x in lst]
    terms = [(a / sc, b) for a, b in terms]
    import evoMPS.tdvp_gen as tg
    s = tg.EvoMPS_TDVP_Generic(c["c"]["N"], list(c["c"]["D"]), [0] + list(c["c"]["q"]), lst, ham_sites=c["h"]["sites"])
    finite.set_form(s, c.get("form", "right"))
    for n, A in enumerate(gens.tensors(c["c"])):
        s.A[n + 1] = A.copy()
    if c.get("refresh", True):
        s.update()
    return s, terms


def options(c):
    kw = dict(integ=c["integ"], dynexp=c["dynexp"], D_max=c["D_max"], dD_max=c["dD_max"], auto_truncate=c["trunc"], sv_tol=1e-8)
    return kw


def manual(s, dt, k, c, see):
    """The promised steps, by hand."""
    for i in range(k + 1):
        s.update(auto_truncate=c["trunc"])
        see(s, i)
        if i == k:
            break
        grow = c["dynexp"] and s.maxD_is_less_than(c["D_max"])
        kw = dict(dynexp=True, D_max=c["D_max"], dD_max=c["dD_max"], sv_tol=1e-8)
        if c["integ"].lower() == "euler":
            s.take_step(1j * dt, **(kw if grow else {}))
        elif grow:
            s.take_step(1j * dt ** 2.5, **kw)                    # the expansion is done in a short Euler step
            s.update(restore_CF=c["trunc"], auto_truncate=c["trunc"])
            s.take_step_RK4(1j * (dt - dt ** 2.5))
        else:
            s.take_step_RK4(1j * dt)


@facet("P25", fin_case(), quick=260, shards=3, rule="at least two steps that move the state")
def evolve_finite(c, ctx):
    """evolve() on finite chains: number of steps, callbacks, results and refresh, against stepping by hand."""
    from evoMPS import dynamics
    s, terms = make_finite(c)
    t, dt, k = duration(c)
    ctx.tag("%s %s" % (c["integ"].lower(), "expanding" if c["dynexp"] else "fixed"))
    m = copy.deepcopy(s)
    ham = s.ham
    snap = lambda x, log: (lambda s, i: log.append((i, [int(d) for d in s.D], dense.state_vec(s), s.H_expect.real, s.eta)))
    snap_m = lambda x, log: (lambda s, i: log.append((i, [int(d) for d in s.D], dense.state_vec(s), s.H_expect.real, None)))
    got, want = [], []
    if c["dynexp"] and c["integ"].lower() == "rk4":             # (tiny Schmidt values after an expansion: may amplify rounding errors)
        w = []
        p = copy.deepcopy(m)
        for n in range(1, p.N + 1):
            p.A[n] = p.A[n] * (1 + 1e-12 * gens.rng(5, n).standard_normal(p.A[n].shape))
        manual(p, dt, k, c, snap_m(p, w))
    else:
        w = None
    manual(m, dt, k, c, snap_m(m, want))
    if w and any(a[1] != b[1] or not la.norm((a[2] - b[2]).ravel()) < 1e-9 for a, b in zip(w, want)):
        raise Skip("the steps amplify rounding errors")
    r = dynamics.evolve(s, t, dt=dt, cb_func=snap(s, got) if c["cb"] else None, **options(c))
    ctx.check(r is s, "another state object was returned")
    ctx.check(s.ham is ham, "the Hamiltonian was replaced")
    ctx.nontrivial(k >= 2 and la.norm(want[0][2].ravel() - want[-1][2].ravel()) > 1e-6 if want[0][2].shape == want[-1][2].shape else k >= 2)
    if c["cb"]:
        ctx.check([x[0] for x in got] == list(range(k + 1)), "callbacks for steps %s instead of 0 to %d" % ([x[0] for x in got], k))
    for a, b in zip(got, want):
        ctx.check(a[1] == b[1], "bond dimensions %s instead of %s in step %d" % (a[1], b[1], a[0]))
        ctx.close(a[2], b[2], 1e-8, "state seen by the callback")
        ctx.close(a[3], b[3], 1e-8, "energy seen by the callback")
    a, b = dense.state_vec(s), want[-1][2]
    ctx.check([int(d) for d in s.D] == want[-1][1], "final bond dimensions %s instead of %s" % (list(s.D), want[-1][1]))
    ctx.close(a, b, 1e-8, "final state")
    ctx.close(la.norm(a.ravel()), 1, 1e-9, "norm")
    H = dense.ham_apply(a, terms) if terms else 0 * a
    ctx.close(s.H_expect, dense.ip(a, H), 1e-8, "energy")
    T = dense.Tangent(a, [int(d) for d in s.D])
    if s.N > 1 and T.smin > 1e-3:
        ctx.close(s.eta, la.norm(T(H - dense.ip(a, H).real * a).ravel()), 1e-7 / T.smin, "eta")
    for n in range(1, s.N + 1):
        o = gens.cgauss(gens.rng(c["c"]["seed"], "o", n), s.q[n], s.q[n])
        ctx.close(s.expect_1s(o, n), dense.expect(a, o, [n - 1]), 1e-9, "expectation value after evolving", scale=10)


@facet("P25", fin_case(), quick=150, shards=2, rule="the state moves by more than a per cent")
def evolve_accuracy(c, ctx):
    """evolve() with complete bond dimensions approaches the exact evolution at the integrator's order."""
    from evoMPS import dynamics
    c["c"]["D"] = gens.fix_bonds([gens.maxbond(c["c"]["q"])[n] for n in range(c["c"]["N"] + 1)], c["c"]["q"]) if c["default"] < 4 else c["c"]["D"]
    s, terms = make_finite(c)
    full = [int(d) for d in s.D] == [int(d) for d in gens.maxbond(c["c"]["q"])]
    s.update()
    psi = dense.state_vec(s)
    T = dense.Tangent(psi, [int(d) for d in s.D])
    if T.smin < .05:
        raise Skip("tiny Schmidt values")
    rk = c["integ"].lower() == "rk4"
    t = .4 * T.smin
    errs = []
    if full:
        H = dense.ham_matrix(c["c"]["q"], terms) if terms else np.zeros((psi.size,) * 2)
        ref = la.expm(-1j * t * H).dot(psi.ravel())
        ref = ref / la.norm(ref)
    else:
        ref = p07.flow(psi, terms, [int(d) for d in s.D], 1j * t, 16).ravel()
        ref = ref / la.norm(ref)
    mv = la.norm(ref - np.vdot(psi.ravel(), ref) * psi.ravel())
    ctx.nontrivial(mv > .01)
    ctx.tag("%s %s" % (c["integ"].lower(), "complete" if full else "projected"))
    for k in (4, 8, 16):
        s1 = copy.deepcopy(s)
        dynamics.evolve(s1, t, dt=t / k, integ=c["integ"], dynexp=False)
        x = dense.state_vec(s1).ravel()
        x = x / la.norm(x)
        errs.append(np.sqrt(max(0., 2 - 2 * abs(np.vdot(x, ref)))) if np.isfinite(x).all() else np.inf)
        errs[-1] = la.norm(x * np.exp(-1j * np.angle(np.vdot(ref, x))) - ref)
    p = 4 if rk else 1
    floor = 1e-10 if full else 1e-8
    ctx.check(errs[0] <= 60 * 4 * (.1) ** (p + 1) + floor, "error %g after four steps" % errs[0])
    ctx.check(errs[2] <= floor or errs[2] <= 3. * 4. ** -p * errs[0], "errors %s do not drop like dt^%d" % (errs, p))
    ctx.check(errs[2] <= floor or errs[2] < .3 * mv + .01 * t, "the evolution does not approach the exact one: %s, state moves by %g" % (errs, mv))


@st.composite
def uni_case(draw):
    c = draw(p18.case(maxD=2, maxL=2, kinds=("gauss", "gauss", "real", "positive")))
    c.update(integ=draw(st.sampled_from(["euler", "rk4", "RK4"])), dynexp=draw(st.booleans()), D_max=draw(st.sampled_from([2, 3, 128])),
             dD_max=draw(st.sampled_from([1, 2])), trunc=draw(st.booleans()), cb=draw(st.booleans()))
    for n in sorted(DUR):
        c[n] = draw(DUR[n])
    c["k"] = min(c["k"], 4)
    return c


def setup_uni(c, **kw):
    s, inf, sto, h, n, t = p19.setup(c, **kw)
    sc = p18.nrm(h)
    h = np.asarray(h) / sc
    if s.ham_tp is not None:
        s.ham_tp = [[a / sc, b] for a, b in s.ham_tp]
    s.ham = h
    s.ham_sites = n
    s.update()
    return s, un.Inf(s.A), h, n


@facet("P25", uni_case(), quick=160, shards=4, rule="at least two steps that move the state")
def evolve_uniform(c, ctx):
    """evolve() on uniform states against stepping by hand."""
    from evoMPS import dynamics
    s, inf, h, n = setup_uni(c)
    t, dt, k = duration(c)
    if p19.timescale(inf, inf, h, un.direction(inf, h, n)) < .3 * dt:
        raise Skip("step too large")
    ctx.tag("%s %s" % (c["integ"].lower(), "expanding" if c["dynexp"] else "fixed"))
    m, m0 = copy.deepcopy(s), copy.deepcopy(s)
    for A in m0.A:
        A *= 1 + 1e-12 * gens.rng(5).standard_normal(A.shape)
    got, want = [], []
    e0 = s.h_expect.real

    def see(log, eta):
        def f(s, i):
            log.append((i, s.D, s.h_expect.real, [np.array(A) for A in s.A], eta and s.eta.real))
        return f
    from evoMPS.mps_uniform import EvoMPSNoConvergence
    try:
        manual(m, dt, k, c, see(want, False))
        if not all(np.isfinite(A).all() for w in want for A in w[3]):
            raise Skip("the steps diverge")
        if c["dynexp"]:                                         # (tiny Schmidt values after an expansion: may amplify rounding errors)
            w = []
            manual(copy.deepcopy(m0), dt, k, c, see(w, False))
            for a, b in zip(w, want):
                if a[1] != b[1] or not abs(a[2] - b[2]) < 1e-9:
                    raise Skip("the steps amplify rounding errors")
    except (EvoMPSNoConvergence, ValueError, ArithmeticError, la.LinAlgError):
        raise Skip("the steps by hand do not converge")
    r = dynamics.evolve(s, t, dt=dt, cb_func=see(got, True) if c["cb"] else None, **options(c))
    ctx.check(r is s, "another state object was returned")
    ctx.nontrivial(k >= 2 and want[-1][1] > 1 and s.eta.real > 1e-3)
    if c["cb"]:
        ctx.check([x[0] for x in got] == list(range(k + 1)), "callbacks for steps %s instead of 0 to %d" % ([x[0] for x in got], k))
    got.append((k, s.D, s.h_expect.real, [np.array(A) for A in s.A], s.eta.real))
    for a, b in zip(got, want if c["cb"] else want[-1:]) if c["cb"] else [(got[-1], want[-1])]:
        pair(ctx, a, b, h, n)
    pair(ctx, got[-1], want[-1], h, n)
    x = un.Inf(s.A)
    if x.cond() < 1e6 and x.gap > .02:
        un.check_fixed(ctx, s, max(1e-8, 1e-10 * x.cond()), "after evolving")
        if min(x.schmidt(j)[-1] for j in range(x.L)) > 1e-2:
            G = un.direction(x, h, n)
            ctx.close(s.eta.real, np.sqrt(un.tangent_ip(x, G, G).real), 1e-5, "eta")
        if c["integ"].lower() == "rk4" and not c["dynexp"]:
            ctx.close(s.h_expect.real, e0, 2e-3, "energy drift")


def pair(ctx, a, b, h, n):
    ctx.check(a[1] == b[1], "bond dimension %s instead of %s in step %d" % (a[1], b[1], a[0]))
    x, y = un.Inf(a[3]), un.Inf(b[3])
    if min(x.gap, y.gap) < .02 or max(x.cond(), y.cond()) > 1e8:
        return
    ctx.close(a[2], b[2], 1e-7, "energy")
    L = x.L
    ctx.close(a[2], sum(x.expect(h, k, n) for k in range(L)).real / L, max(1e-8, 1e-10 * x.cond()), "energy")
    for k in range(L):
        ctx.close(x.rho(k, 2), y.rho(k, 2), 1e-6, "state")


@st.composite
def im_case(draw):
    c = draw(p18.case(maxD=2, maxL=2, kinds=("gauss", "gauss", "real", "positive")))
    c.update(dtau=draw(st.sampled_from([.01, .04, .08])), dtau0=draw(st.sampled_from([None, None, .01, .05])), tol=draw(st.sampled_from([1e-6, .05, .2, .5, 2.])),
             max_itr=draw(st.sampled_from([0, 1, 3, 5, 12, 25])), auto=draw(st.booleans()), trunc=draw(st.booleans()), cb=draw(st.booleans()),
             expand=draw(st.sampled_from([None, None, 3, 4])), etol=draw(st.sampled_from([1e-2, .3, 5.])), estep=draw(st.sampled_from([1, 2])),
             wait=draw(st.sampled_from([0, 1, 5])), reset=draw(st.sampled_from([1, 3, 20])), grad=draw(st.booleans()), gap=draw(st.sampled_from([1, 3, 5])),
             every=draw(st.sampled_from([1, 2])))
    return c


class Recorder(object):
    def __init__(self):
        self.log = []

    def __call__(self, s, i, **kw):
        self.log.append(dict(i=i, kw=kw, D=s.D, e=s.h_expect.real, eta=s.eta.real, s=copy.deepcopy(s)))


def good(s):
    x = un.Inf(s.A)
    return x.gap > .02 and x.cond() < 1e6 and min(x.schmidt(j)[-1] for j in range(x.L)) > 1e-2


def refreshed(ctx, s, h, n, what):
    x = un.Inf(s.A)
    if not good(s):
        return
    tol = max(1e-8, 1e-10 * x.cond())
    un.check_fixed(ctx, s, tol, what)
    ctx.close(s.h_expect, sum(x.expect(h, k, n) for k in range(x.L)).real / x.L, tol, "energy " + what)
    G = un.direction(x, h, n)
    ctx.close(s.eta.real, np.sqrt(un.tangent_ip(x, G, G).real), 1e-5, "eta " + what)


def same(ctx, a, b, what, tol=1e-6):
    x, y = un.Inf(a.A), un.Inf(b.A)
    if min(x.gap, y.gap) < .02 or max(x.cond(), y.cond()) > 1e8:
        return
    ctx.check(a.D == b.D, "%s: bond dimension %d instead of %d" % (what, a.D, b.D))
    for k in range(x.L):
        ctx.close(x.rho(k, 2), y.rho(k, 2), tol, what)


@facet("P25", im_case(), quick=120, shards=4, rule="at least two steps that move the state")
def relaxation(c, ctx):
    """opt_im_time(): every step is the Euler step of the reported length; limits, expansion rules and reports hold."""
    from evoMPS import dynamics
    s, inf, h, n = setup_uni(c)
    rec = Recorder()
    m = copy.deepcopy(s)
    kw = dict(tol=c["tol"], dtau_base=c["dtau"], dtau0=c["dtau0"], max_itr=c["max_itr"], auto_trunc=c["trunc"], auto_dtau=c["auto"],
              expand_to_D=c["expand"], expand_tol=c["etol"], expand_step=c["estep"], expand_wait_steps=c["wait"])
    D0 = s.D
    goal = c["expand"] or D0
    r, its, tau, dtau = dynamics.opt_im_time(s, cb_func=rec, **kw)
    ctx.check(r is s, "another state object was returned")
    log = rec.log
    ctx.nontrivial(len(log) > 2 and log[0]["eta"] > 1e-3 and goal > 1)
    ctx.tag("%s, %s" % ("auto" if c["auto"] else "fixed step", "expanding" if goal > D0 else "no expansion"))
    ctx.check([x["i"] for x in log] == list(range(len(log))), "callbacks %s" % [x["i"] for x in log])
    ctx.check(its == len(log), "%d iterations returned, %d callbacks" % (its, len(log)))
    ctx.check(len(log) - 1 <= c["max_itr"], "%d steps, limit %d" % (len(log) - 1, c["max_itr"]))
    taus = [complex(x["kw"]["tau"]) for x in log]
    ctx.close(taus[0], 0, 0, "first reported time")
    ctx.close(tau, taus[-1], 1e-12, "returned time")
    wait = 0
    for i, x in enumerate(log):
        done = x["eta"] < c["tol"] and x["D"] == goal and wait == 0
        if i == len(log) - 1:
            ctx.check(done or len(log) - 1 == c["max_itr"], "stopped at eta %g (tolerance %g), bond dimension %d of %d" % (x["eta"], c["tol"], x["D"], goal))
            break
        ctx.check(not done, "not stopped at eta %g, tolerance %g" % (x["eta"], c["tol"]))
        d = taus[i + 1] - taus[i]
        if not c["auto"]:
            ctx.close(d, c["dtau"] if c["dtau0"] is None else c["dtau0"], 1e-12, "step length")
        else:
            ctx.check(abs(d.imag) < 1e-12 and .0099 * c["dtau"] <= d.real <= max(2 * c["dtau"], c["dtau0"] or 0) * 1.01,
                      "step length %s, base %g" % (d, c["dtau"]))
        if i == len(log) - 2:
            ctx.close(dtau, d, 1e-12, "returned step length")
        grow = x["D"] < goal and x["eta"] < c["etol"] and wait == 0
        b = copy.deepcopy(x["s"])
        refreshed(ctx, b, h, n, "seen by the callback")
        b.take_step(d, dynexp=grow, dD_max=c["estep"], D_max=goal)
        b.update(auto_truncate=c["trunc"])
        y = log[i + 1]
        ctx.check(y["D"] <= goal and y["D"] <= x["D"] + (c["estep"] if grow else 0), "bond dimension %d after %d" % (y["D"], x["D"]))
        same(ctx, y["s"], b, "state after step %d (length %s)" % (i, d))
        if not grow and good(b) and good(x["s"]):
            ctx.check(y["e"] <= x["e"] + .2 * abs(d) + 1e-8, "energy rises from %g to %g" % (x["e"], y["e"]))
        wait = max(wait - 1, 0)
        if grow:
            wait = c["wait"]
    refreshed(ctx, s, h, n, "after relaxing")
    dynamics.opt_im_time(m, **kw)
    same(ctx, m, s, "result without callback", 1e-3)


@facet("P25", im_case(), quick=90, shards=4, rule="at least two steps that move the state")
def gradients(c, ctx):
    """opt_conj_grad(): reports, limits, returned gradient; with a reset in every step, each step is along the gradient."""
    from evoMPS import dynamics
    s, inf, h, n = setup_uni(c)
    rec = Recorder()
    maxit = min(c["max_itr"], 12)
    c["tol"] /= 20
    out = dynamics.opt_conj_grad(s, tol=c["tol"], h_init=c["dtau"], h0_prev=c["dtau0"], reset_every=c["reset"], max_itr=maxit, cb_func=rec,
                                 return_B_grad=c["grad"])
    ctx.check(len(out) == (4 if c["grad"] else 3), "number of results")
    r, its, h0 = out[:3]
    log = rec.log
    ctx.check(r is s, "another state object was returned")
    ctx.nontrivial(len(log) > 2 and c["c"]["D"] > 1)
    ctx.check([x["i"] for x in log] == list(range(len(log))), "callbacks %s" % [x["i"] for x in log])
    ctx.check(its == len(log) and its - 1 <= maxit, "%d iterations returned, %d callbacks, limit %d" % (its, len(log), maxit))
    hs = [float(x["kw"]["h"]) for x in log]
    if len(log) > 1:
        ctx.close(h0, hs[0], 1e-12, "first step length")
    for i, x in enumerate(log):
        last = i == len(log) - 1
        ctx.check(last == (x["eta"] < c["tol"] or i == maxit), "eta %g, tolerance %g, iteration %d of %d" % (x["eta"], c["tol"], i, maxit))
        if last:
            break
        y = log[i + 1]
        ctx.check(y["D"] == x["D"], "the bond dimension changed")
        if good(x["s"]):
            ctx.check(y["e"] <= x["e"] + 1e-7, "step %d raised the energy by %g" % (i, y["e"] - x["e"]))
            if i % c["reset"] == 0:
                b = copy.deepcopy(x["s"])
                refreshed(ctx, b, h, n, "seen by the callback")
                b.take_step(hs[i])
                b.update()
                if good(b):
                    same(ctx, y["s"], b, "state after the gradient step %d" % i)
    if c["grad"] and good(s):
        x = un.Inf(s.A)
        G = un.direction(x, h, n)
        for k in range(s.L):
            ctx.close(out[3][k], G[k], 1e-6, "returned gradient", scale=max(1, abs(G[k]).max()))
    refreshed(ctx, s, h, n, "after the search")


@facet("P25", im_case(), quick=60, shards=4, rule="at least two steps that move the state")
def descent(c, ctx):
    """opt_grad_descent() and find_ground(): step counts, limits, expansion and the final state."""
    from evoMPS import dynamics
    s, inf, h, n = setup_uni(c)
    rec = Recorder()
    ground = c["reset"] == 3
    maxit = min(c["max_itr"], 12)
    D0 = s.D
    lower = p20.anderson(h, n, c["c"]["q"])
    ctx.tag("find_ground" if ground else "descent")
    if ground:
        goal = c["expand"]
        maxit = maxit + 2
        r = dynamics.find_ground(s, tol=c["tol"], h_init=c["dtau"], max_itr=maxit, expand_to_D=goal, expand_step=c["estep"], cb_func=rec,
                                 expand_tol=c["etol"], CG_start_tol=max(c["tol"], .1))
    else:
        goal = None
        r, its = dynamics.opt_grad_descent(s, tol=c["tol"], h_init=c["dtau"], max_itr=maxit, im_gap=c["gap"], gap_every=c["every"], cb_func=rec)
    log = rec.log
    ctx.check(r is s, "another state object was returned")
    ctx.nontrivial(len(log) > 3 and max(D0, goal or 1) > 1)
    ctx.check([x["i"] for x in log] == list(range(len(log))), "callbacks %s" % [x["i"] for x in log])
    if not ground:
        ctx.check(its == len(log), "%d iterations returned, %d callbacks" % (its, len(log)))
        # evaluations of which one per call takes no step: never more steps than asked for
        ctx.check(len(log) <= maxit + 2, "%d evaluations, limit %d" % (len(log), maxit))
        if log:
            ctx.check(len(log) >= maxit or s.eta.real < c["tol"], "stopped early at eta %g" % s.eta.real)
    steps = sum(1 for x, y in zip(log, log[1:]) if ("tau" in x["kw"]) == ("tau" in y["kw"]))
    rounds = 1 + (max(0, -(-(goal - D0) // c["estep"])) if goal else 0)
    if ground:
        ctx.check(len(log) <= (2 * rounds + 2) * (maxit + 1), "%d evaluations with a limit of %d per search" % (len(log), maxit))
        ctx.check(s.D <= max(D0, goal or 0), "bond dimension %d, asked for %s" % (s.D, goal))
        Ds = [x["D"] for x in log]
        ctx.check(max(Ds) <= max(D0, goal or 0), "bond dimensions %s on the way to %s" % (Ds, goal))
        ctx.check(all(b - a <= c["estep"] for a, b in zip(Ds, Ds[1:])), "bond dimensions %s, steps of %d" % (Ds, c["estep"]))
        grown = any("tau" in x["kw"] and x["D"] < (goal or 0) for x in log[1:])
        if goal and goal > D0 and all(good(x["s"]) for x in log if x["D"] < goal):
            ctx.check(s.D == goal, "bond dimension %d instead of %d" % (s.D, goal))
        if log:
            last = [x for x in log if "h" in x["kw"]]
            ctx.check("h" in log[-1]["kw"], "the search did not end with conjugate gradients")
    if log and good(s):
        ctx.check(s.h_expect.real >= lower - 1e-9, "energy %.12g below the rigorous bound %.12g" % (s.h_expect.real, lower))
        ctx.close(s.h_expect.real, log[-1]["e"], 1e-9, "energy of the last report")
        refreshed(ctx, s, h, n, "after the search")


@st.composite
def ode_case(draw):
    c = draw(fin_case())
    c.update(T=draw(st.sampled_from([.1, .3, .6])), solver=draw(st.sampled_from(["RK45", "RK45", "RK23", "DOP853", "BDF", "old", "old real"])), steps=draw(st.sampled_from([1, 3, 400, 400])),
             full=draw(st.booleans()))
    if c["full"]:
        c["c"]["D"] = gens.fix_bonds([int(x) for x in gens.maxbond(c["c"]["q"])], c["c"]["q"])
    return c


@facet("P25", ode_case(), quick=120, shards=4, rule="the state moves by more than a per cent")
def solver(c, ctx):
    """Evolution through a general ODE solver follows the exact (projected) flow, at every callback and at the end."""
    from evoMPS import dynamics
    import scipy.integrate as intg
    s, terms = make_finite(c)
    m = copy.deepcopy(s)
    m.update()
    psi = dense.state_vec(m)
    D = [int(d) for d in m.D]
    full = D == [int(x) for x in gens.maxbond(c["c"]["q"])]
    T = dense.Tangent(psi, D)
    if T.smin < .05:
        raise Skip("tiny Schmidt values")
    Tmax = c["T"] if full else min(c["T"], 2 * T.smin)
    H = dense.ham_matrix(c["c"]["q"], terms) if terms else np.zeros((psi.size,) * 2)
    ctx.tag("%s %s" % (c["solver"], "complete" if full else "projected"))
    log = []

    def cb(x, ig, i):
        log.append((i, ig.t, dense.state_vec(x).ravel(), x.H_expect.real))

    def exact(t):
        if full:
            return la.expm(-1j * t * H).dot(psi.ravel())
        return p07.flow(psi, terms, D, 1j * t, max(2, int(np.ceil(40 * t)))).ravel()
    old = c["solver"].startswith("old")
    with contextlib.redirect_stdout(io.StringIO()):
        if old:
            k = min(c["steps"], 4)
            kw = dict(integrator="dopri5", wrap_to_real=True) if c["solver"] == "old real" else {}
            dynamics.evolve_scipy_ode_old(s, Tmax / k, k, callback=cb, rtol=1e-8, atol=1e-10, **kw)
            T_end = Tmax
        else:
            dynamics.evolve_scipy_ode(s, Tmax, c["steps"], rtol=1e-8 if c["solver"] != "BDF" else 1e-6, atol=1e-10, callback=cb,
                                      integrator=getattr(intg, c["solver"]))
    ctx.check([x[0] for x in log] == list(range(len(log))) and log, "callbacks %s" % [x[0] for x in log])
    ctx.close(log[0][1], 0, 0, "time of the first report")
    ctx.check(all(b[1] > a[1] for a, b in zip(log, log[1:])), "reported times %s" % [x[1] for x in log])
    if old:
        ctx.check(len(log) == k, "%d reports for %d steps" % (len(log), k))
    else:
        ctx.check(len(log) <= c["steps"], "%d reports, limit %d" % (len(log), c["steps"]))
        ctx.check(log[-1][1] <= Tmax * (1 + 1e-12), "time %g beyond %g" % (log[-1][1], Tmax))
        if c["steps"] == 400 and c["solver"] not in ("RK23", "BDF"):
            ctx.close(log[-1][1], Tmax, 1e-12, "final time")
    tol = (1e-6 if full else 1e-5) * (100 if c["solver"] in ("BDF", "RK23") else 10 if old else 1) / T.smin
    E0 = dense.ip(psi, dense.ham_apply(psi, terms)).real if terms else 0.
    for i, t, x, e in (log if len(log) < 6 else log[::len(log) // 4] + log[-1:]):
        y = exact(t)
        x = x * np.exp(-1j * np.angle(np.vdot(y, x)))
        ctx.close(x, y / la.norm(y), tol, "state at time %.3g" % t)
        ctx.close(e, E0, tol, "energy at time %.3g" % t)
    a = dense.state_vec(s)
    ctx.close(la.norm(a.ravel()), 1., 1e-9, "norm after evolving")
    ctx.close(s.H_expect, dense.ip(a, dense.ham_apply(a, terms)) if terms else 0, 1e-8, "energy after evolving")
    y = exact(Tmax)
    mv = la.norm(y - np.vdot(psi.ravel(), y) * psi.ravel())
    ctx.nontrivial(mv > .01)
    if old or (c["steps"] == 400 and log[-1][1] >= Tmax * (1 - 1e-12)):
        x = a.ravel() * np.exp(-1j * np.angle(np.vdot(y, a.ravel())))
        ctx.close(x, y / la.norm(y), tol, "final state")
