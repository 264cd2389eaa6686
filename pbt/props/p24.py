"""P24: dissipative steps sample the projected stochastic Lindblad unravelling."""
import copy
import numpy as np
import scipy.linalg as la
from hypothesis import strategies as st
from ..core import facet, Skip
from .. import gens, dense, finite

LK = ["complex", "complex", "real", "hermitian", "lowering", "one-site"]


@st.composite
def case(draw, maxlinds=3, **kw):
    kw = dict(dict(minN=2, maxN=5, maxq=3, maxD=4, maxdim=81, kinds=("gauss", "gauss", "real")), **kw)
    c = draw(gens.chain(**kw))
    k = draw(st.sampled_from([2, 2, 3] if c["N"] >= 3 else [2]))
    M = c["N"] - k + 1
    return dict(c=c, h=draw(gens.finite_ham(c["N"], sites=k)), form=draw(st.sampled_from(["right", "right", "left"])),
                hamform=draw(st.sampled_from(["list", "list", "list", "callable", "none"])),
                linds=[[draw(st.integers(1, M)), draw(st.sampled_from(LK)), draw(st.sampled_from([.3, 1., 1., 2.]))]
                       for i in range(draw(st.integers(0, maxlinds)))],
                dt=draw(st.sampled_from([.01, .001, .1])), steps=draw(st.integers(1, 3)), seed=draw(gens.seeds))


def jumps(c):
    q, k = c["c"]["q"], c["h"]["sites"]
    out = []
    for i, (n, kind, g) in enumerate(c["linds"]):
        r = gens.rng(c["seed"], "L%d" % i)
        qs = q[n - 1:n - 1 + k]
        d = int(np.prod(qs))
        if kind == "complex":
            L = gens.cgauss(r, d, d)
        elif kind == "real":
            L = r.standard_normal((d, d))
        elif kind == "hermitian":
            L = gens.herm(r, d, True)
        elif kind == "lowering":
            L = np.diag(np.sqrt(np.arange(1., d)), 1)
        else:
            L = np.kron(gens.cgauss(r, qs[0], qs[0]), np.eye(d // qs[0]))
        out.append((n, (g * L / max(1., la.norm(L, 2))).reshape(qs + qs)))
    return out


def make(c):
    from evoMPS.tdvp_gen_diss import EvoMPS_TDVP_Generic_Dissipative
    cc = c["c"]
    lst, terms = gens.ham_terms(cc, c["h"])
    if c["hamform"] == "none":
        lst, terms = [None] * len(lst), []
    ham = gens.ham_callable(lst) if c["hamform"] == "callable" else lst
    Ls = jumps(c)
    s = EvoMPS_TDVP_Generic_Dissipative(cc["N"], list(cc["D"]), [0] + list(cc["q"]), ham, Ls, ham_sites=c["h"]["sites"])
    finite.set_form(s, c["form"])
    for n, A in enumerate(gens.tensors(cc)):
        s.A[n + 1] = A.copy()
    s.update()
    return s, lst, terms, Ls


class Ref(object):
    """The projected drift and the projected noise directions at a state."""

    def __init__(self, s, terms, Ls):
        self.As = dense.mps_tensors(s)
        self.psi = psi = dense.vec(self.As)
        self.D = [int(x) for x in s.D]
        T = dense.Tangent(psi, self.D)
        self.smin = T.smin if s.N > 1 else 1.
        z = dense.ip(psi, psi).real
        P = lambda x: T(x) - dense.ip(psi, T(x)) / z * psi
        ap = dense.apply_op
        sites = lambda n, L: list(range(n - 1, n - 1 + L.ndim // 2))
        mat = lambda L: L.reshape(int(np.sqrt(L.size)), -1)
        f = -1j * dense.ham_apply(psi, terms)
        self.noise = []
        for n, L in Ls:
            e = dense.expect(psi, L, sites(n, L))
            Lpsi = ap(psi, L, sites(n, L))
            f = f + np.conj(e) * Lpsi - .5 * ap(Lpsi, mat(L).conj().T.copy(), sites(n, L))
            self.noise.append(P(Lpsi))
        self.drift = P(f)
        self.T, self.P = T, P


def noise_of(s, ref, dt):
    """Solve for the noise of a step from the change of the tensors: (W, unexplained part, scale)."""
    B = [np.array(s.A[n]) - ref.As[n - 1] for n in range(1, s.N + 1)]
    v = dense.tangent_vec(ref.As, B)
    rest = (v - dt * ref.drift).ravel()
    if not ref.noise:
        return np.zeros(0), la.norm(rest), la.norm(v)
    M = np.array([x.ravel() for x in ref.noise]).T
    W = la.lstsq(M, rest, cond=1e-12)[0]
    return W, la.norm(rest - M.dot(W)), la.norm(v)


def scale(terms, Ls):
    f = lambda x: la.norm(np.asarray(x).reshape(int(np.sqrt(x.size)), -1), 2)
    return max(1., sum(f(h) for h, n in terms) + sum(f(L) ** 2 + f(L) for n, L in Ls))


def cond(ref):
    """How well the noise can be told from the change of the state."""
    if not ref.noise:
        return 1.
    s = la.svdvals(np.array([x.ravel() for x in ref.noise]).T)
    return s[-1] / max(s[0], 1e-300) if len(s) == len(ref.noise) else 0.


@facet("P24", case(), quick=360, shards=4, rule="at least one jump operator that moves the state, and a bond dimension above one")
def step(c, ctx):
    """Every step is drift plus noise along the projected directions; nothing else changes; states come back normalised."""
    s, lst, terms, Ls = make(c)
    keep = copy.deepcopy((lst, Ls))
    ham, linds = s.ham, s.linds
    np.random.seed(c["seed"] % 2 ** 31)
    dt = c["dt"] / scale(terms, Ls)
    ctx.tag("%s-site %s %d jumps %s" % (c["h"]["sites"], c["hamform"], len(Ls), c["form"]))
    for i in range(c["steps"]):
        ref = Ref(s, terms, Ls)
        if ref.smin < 1e-3:
            raise Skip("tiny Schmidt values")
        tol = 1e-10 / ref.smin ** 2
        ctx.nontrivial(max(c["c"]["D"]) > 1 and any(la.norm(x.ravel()) > 1e-3 for x in ref.noise))
        s.take_step_dissipative(dt)
        W, rest, sc = noise_of(s, ref, dt)
        ctx.close(rest, 0., tol, "part of the step that is neither drift nor noise", scale=max(sc, dt * scale(terms, Ls)))
        if not Ls:
            ctx.close(s.eta, la.norm(ref.drift.ravel()), tol, "eta", scale=scale(terms, Ls))
        ctx.check(s.ham is ham and s.linds is linds, "the operators of the object were replaced")
        for a, b in zip([x for x in lst if x is not None] + [L for n, L in Ls],
                        [x for x in keep[0] if x is not None] + [L for n, L in keep[1]]):
            ctx.close(a, b, 0, "the given operators were changed")
        s.update(restore_CF=c["seed"] % 2 == 0)
        psi = dense.state_vec(s)
        ctx.close(la.norm(psi.ravel()), 1., 1e-9, "norm after the refresh")
        for n in range(1, s.N + 1):
            o = gens.cgauss(gens.rng(c["seed"], "o", n), s.q[n], s.q[n])
            ctx.close(s.expect_1s(o, n), dense.expect(psi, o, [n - 1]), 1e-9, "expectation value after the refresh", scale=10)
        f = s.expect_2s if c["h"]["sites"] == 2 else s.expect_3s
        for o, n in [(h, m + 1) for h, m in terms] + [(L, m) for m, L in Ls]:
            ctx.close(f(o, n), dense.expect(psi, o, list(range(n - 1, n - 1 + c["h"]["sites"]))), 1e-9, "value of a term or jump operator after the refresh",
                      scale=10 + scale(terms, Ls))


@facet("P24", case(maxlinds=0), quick=150, shards=2, rule="a Hamiltonian that moves the state")
def unitary(c, ctx):
    """Without jump operators: the ordinary real-time Euler step."""
    import evoMPS.tdvp_gen as tg
    s, lst, terms, Ls = make(c)
    p = tg.EvoMPS_TDVP_Generic(c["c"]["N"], list(c["c"]["D"]), [0] + list(c["c"]["q"]), lst, ham_sites=c["h"]["sites"])
    finite.set_form(p, c["form"])
    for n in range(1, s.N + 1):
        p.A[n] = s.A[n].copy()
    p.update(restore_CF=False, normalize=False)
    ref = Ref(s, terms, [])
    if ref.smin < 1e-4:
        raise Skip("tiny Schmidt values")
    dt = c["dt"] / scale(terms, [])
    ctx.nontrivial(la.norm(ref.drift.ravel()) > 1e-3)
    kw = [{}, dict(save_memory=True), dict(dynexp=True, D_max=max(c["c"]["D"]) + 1, dD_max=2, sv_tol=1e-9)][c["seed"] % 3]
    s.take_step_dissipative(dt, **kw)
    p.take_step(1j * dt, **kw)
    ctx.check([int(x) for x in s.D] == [int(x) for x in p.D], "bond dimensions %s instead of %s" % (list(s.D), list(p.D)))
    a, b = dense.state_vec(s), dense.state_vec(p)
    ctx.close(a, b, 1e-9 / ref.smin, "state after a step without jumps", scale=la.norm(b.ravel()))
    if not kw.get("save_memory"):
        ctx.close(s.eta, p.eta, 1e-10 / ref.smin ** 2, "eta", scale=scale(terms, []))


@st.composite
def flag_case(draw):
    c = draw(case(maxN=4, maxdim=54))
    c["kw"] = draw(st.sampled_from(["memory", "exp", "exp", "exp small", "Y"]))
    return c


@facet("P24", flag_case(), quick=200, shards=2, rule="at least one jump operator that moves the state")
def options(c, ctx):
    """Memory-saving and expanding steps, given the same noise, are those of the effective non-Hermitian generator."""
    import evoMPS.tdvp_gen as tg
    s, lst, terms, Ls = make(c)
    ref = Ref(s, terms, Ls)
    if ref.smin < 1e-2 or cond(ref) < 1e-3:
        raise Skip("noise not identifiable")
    ctx.nontrivial(any(la.norm(x.ravel()) > 1e-3 for x in ref.noise))
    dt = c["dt"] / scale(terms, Ls)
    k = c["h"]["sites"]
    s1 = copy.deepcopy(s)
    np.random.seed(c["seed"] % 2 ** 31)
    s1.take_step_dissipative(dt)
    W, rest, sc = noise_of(s1, ref, dt)
    # the same generator as a plain (non-Hermitian) system
    q = c["c"]["q"]
    HL = [None] + [np.zeros(q[n - 1:n - 1 + k] * 2, complex) for n in range(1, s.N - k + 2)]
    for h, n in terms:
        HL[n + 1] = HL[n + 1] - 1j * h
    for (n, L), w in zip(Ls, W):
        m = L.reshape(int(np.sqrt(L.size)), -1)
        e = dense.expect(ref.psi, L, list(range(n - 1, n - 1 + k)))
        HL[n] = HL[n] + (np.conj(e) + w / dt) * L - .5 * m.conj().T.dot(m).reshape(L.shape)
    p = tg.EvoMPS_TDVP_Generic(c["c"]["N"], list(c["c"]["D"]), [0] + list(q), HL, ham_sites=k)
    finite.set_form(p, c["form"])
    for n in range(1, s.N + 1):
        p.A[n] = s.A[n].copy()
    p.update(restore_CF=False, normalize=False)
    D = max(c["c"]["D"])
    kw = dict(memory=dict(save_memory=True), Y=dict(calc_Y_2s=True), exp=dict(dynexp=True, D_max=D + 2, dD_max=4, sv_tol=1e-6))
    kw["exp small"] = dict(dynexp=True, D_max=D + 1, dD_max=1, sv_tol=1e-6)
    kw = kw[c["kw"]]
    np.random.seed(c["seed"] % 2 ** 31)
    s.take_step_dissipative(dt, **kw)
    p.take_step(-dt, **kw)
    ctx.check([int(x) for x in s.D] == [int(x) for x in p.D], "bond dimensions %s instead of %s" % (list(s.D), list(p.D)))
    a, b = dense.state_vec(s), dense.state_vec(p)
    ctx.close(a, b, 1e-9 / ref.smin / cond(ref), "state after a step", scale=la.norm(b.ravel()))
    s.update()
    ctx.close(la.norm(dense.state_vec(s).ravel()), 1., 1e-9, "norm after the refresh")


@facet("P24", case(full=True, maxN=4, maxdim=36), quick=150, shards=2, rule="at least one jump operator that moves the state")
def lindblad(c, ctx):
    """With complete bond dimensions, drift and noise of a step average to the Lindblad generator."""
    s, lst, terms, Ls = make(c)
    ref = Ref(s, terms, Ls)
    if ref.smin < 1e-2 or cond(ref) < 1e-3:
        raise Skip("noise not identifiable")
    ctx.nontrivial(any(la.norm(x.ravel()) > 1e-3 for x in ref.noise))
    sc = scale(terms, Ls)
    dt = c["dt"] / sc
    np.random.seed(c["seed"] % 2 ** 31)
    s.take_step_dissipative(dt)
    W, rest, _ = noise_of(s, ref, dt)
    B = [np.array(s.A[n]) - ref.As[n - 1] for n in range(1, s.N + 1)]
    v = dense.tangent_vec(ref.As, B)
    d0 = (v - sum(w * x for w, x in zip(W, ref.noise))).ravel() / dt        # the drift the step used
    psi = ref.psi.ravel()
    rho = np.outer(psi, psi.conj())
    got = np.outer(d0, psi.conj())
    got = got + got.conj().T
    for x in ref.noise:                                                     # averages of second order in the noise
        x = x.ravel()
        got = got + np.outer(x, x.conj()) - np.vdot(x, x).real * rho
    q = c["c"]["q"]
    H = dense.ham_matrix(q, terms) if terms else np.zeros_like(rho)
    want = -1j * (H.dot(rho) - rho.dot(H))
    for n, L in Ls:
        M = dense.ham_matrix(q, [(L, n - 1)])
        MM = M.conj().T.dot(M)
        want = want + M.dot(rho).dot(M.conj().T) - .5 * (MM.dot(rho) + rho.dot(MM))
    ctx.close(got, want, 1e-8 / ref.smin / cond(ref), "Lindblad generator", scale=sc)


@st.composite
def noise_case(draw):
    c = draw(case(maxN=3, maxdim=12, maxD=2))
    c["linds"] = c["linds"] or [[1, "complex", 1.]]
    return c


@facet("P24", noise_case(), quick=8, thorough=200, shards=4, rule="identifiable noise, at least 250 samples", case_timeout=240)
def statistics(c, ctx):
    """The noise of repeated steps: zero mean, variance dt, circular, independent between operators and steps."""
    s, lst, terms, Ls = make(c)
    ref = Ref(s, terms, Ls)
    if ref.smin < 1e-2 or cond(ref) < .02 or la.norm(ref.noise[0].ravel()) < .02:
        raise Skip("noise not identifiable")
    K = 250
    ctx.nontrivial()
    dt = c["dt"] / scale(terms, Ls) * 3
    np.random.seed(c["seed"] % 2 ** 31)
    ws = []
    for i in range(K):
        for n in range(1, s.N + 1):
            s.A[n] = ref.As[n - 1].copy()
        s.update(restore_CF=False)
        s.take_step_dissipative(dt)
        ws.append(noise_of(s, ref, dt)[0])
    w = np.array(ws) / np.sqrt(dt)
    z = 7. / np.sqrt(K)
    for j in range(w.shape[1]):
        ctx.close(w[:, j].mean(), 0., z, "mean of the noise")
        ctx.close((abs(w[:, j]) ** 2).mean(), 1., z, "variance of the noise")
        ctx.close((w[:, j] ** 2).mean(), 0., 1.5 * z, "real and imaginary part of the noise")
        ctx.close((w[1:, j] * w[:-1, j].conj()).mean(), 0., z, "noise of successive steps")
        ctx.close((w[1:, j] * w[:-1, j]).mean(), 0., z, "noise of successive steps")
        for i in range(j):
            ctx.close((w[:, j] * w[:, i].conj()).mean(), 0., z, "noise of two operators")
            ctx.close((w[:, j] * w[:, i]).mean(), 0., z, "noise of two operators")
            for a, b in ((w[1:, j], w[:-1, i]), (w[:-1, j], w[1:, i])):
                ctx.close((a * b.conj()).mean(), 0., z, "noise of two operators in successive steps")
    ctx.close((abs(w) ** 4).mean(), 2., 8 * 7. / np.sqrt(w.size), "fourth moment of the noise")


@facet("P24", case(maxlinds=0), quick=150, rule="an operator with a non-vanishing expectation value")
def one_site(c, ctx):
    """Applying a one-site operator with the norm change projected out."""
    s, lst, terms, Ls = make(c)
    psi = dense.state_vec(s)
    n = 1 + c["seed"] % s.N
    o = gens.cgauss(gens.rng(c["seed"], "o"), s.q[n], s.q[n])
    if c["seed"] % 3 == 0:
        o = gens.herm(gens.rng(c["seed"], "o"), s.q[n], True)
    f = (lambda a, b: o[int(a), int(b)]) if c["seed"] % 2 else o
    A = s.calc_B_1s_diss(f, n)
    As = dense.mps_tensors(s)
    got = dense.vec(As[:n - 1] + [np.array(A)] + As[n:])
    x = dense.apply_op(psi, o, [n - 1])
    e = dense.ip(psi, x)
    ctx.nontrivial(abs(e) > .01)
    ctx.close(got, x - e * psi, 1e-9, "operator with the norm change projected out", scale=4)
    for m in range(s.N):
        ctx.close(s.A[m + 1], As[m], 0, "tensors of the state")
