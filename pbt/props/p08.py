"""P08: split-step integrators of finite chains."""
import numpy as np
import scipy.linalg as la
from hypothesis import strategies as st
from ..core import facet, Skip, HarnessError
from .. import gens, dense, finite
from .p06 import ham_mpo, rand_herm_mpo, add_mpo
from .p01 import mpo_apply
from .p07 import flow, phase

CH = dict(minN=2, maxN=5, maxq=3, maxD=4, maxdim=100, kinds=("gauss", "real"))
RULE = "the step changes the state and some bond dimension exceeds one"


@st.composite
def case(draw, **kw):
    c = draw(gens.chain(**dict(CH, **kw)))
    k = draw(st.sampled_from([2, 3] if c["N"] >= 3 else [2]))
    return dict(c=c, callable=draw(st.booleans()),
                angle=draw(st.sampled_from([0., 90., 270., 180., 40.])), steps=draw(st.sampled_from([1, 1, 2, 3])),
                mpo=draw(st.sampled_from([None, None, "only", "both"])), seed=draw(gens.seeds),
                h=draw(gens.finite_ham(c["N"], sites=k)), size=draw(st.sampled_from([0.02, 0.1, 0.5])))


# ------------------------------------------------------------------ dense reference of one sweep pair
class Sweep(object):
    """Second-order projector splitting on the state vector: left-to-right, then right-to-left sweep of half steps."""

    def __init__(self, psi, D, H, two_site=False, D_max=10 ** 6, cut=0.):
        self.q = psi.shape
        self.N = len(self.q)
        self.H = H
        self.psi = psi.ravel() / la.norm(psi.ravel())
        self.D = list(D)
        self.two, self.D_max, self.cut = two_site, D_max, cut
        self.smin = 1.
        self.gap = 1.
        self.terr_lr, self.terr_rl = {}, {}
        self.L = [np.eye(1)] + [None] * self.N
        self.R = [None] * self.N + [np.eye(1)]
        for n in range(1, self.N):
            self.R[n] = self.split(n, self.D[n])[1]

    def split(self, n, k=None):
        m = self.psi.reshape(int(np.prod(self.q[:n])), -1)
        U, s, V = la.svd(m, full_matrices=False)
        err = 0.
        if k is None:                                 # truncating split of a two-site update
            r = min(len(s), self.L[n - 1].shape[1] * self.q[n - 1], self.R[n + 1].shape[1] * self.q[n])
            s_ = s[:r]
            k = min(self.D_max, r)
            for i in range(k):
                if s_[i] < self.cut:
                    k = i
                    break
            if self.cut:
                self.gap = min(self.gap, (abs(s_ - self.cut) / self.cut).min())
            if k < r:
                self.gap = min(self.gap, (s[k - 1] - s[k]) / s[k - 1])
            err = la.norm(s_[k:])
            p = (U[:, :k] * s[:k]).dot(V[:k])
            self.psi = (p / la.norm(p)).ravel()
            self.D[n] = k
        self.smin = min(self.smin, s[k - 1])
        return U[:, :k], V[:k].T, err

    def local(self, W, t, norm=True):
        h = W.conj().T.dot(self.H).dot(W)
        x = la.expm(-t * h).dot(W.conj().T.dot(self.psi))
        p = W.dot(x)
        # a two-site tensor is split (and cut) before it is normalised again
        self.psi = p / la.norm(p) if norm else p

    def site(self, n, t):
        self.local(np.kron(np.kron(self.L[n - 1], np.eye(self.q[n - 1])), self.R[n]), t)

    def bond(self, n, t):
        self.local(np.kron(self.L[n], self.R[n]), t)

    def pair(self, n, t):
        self.local(np.kron(np.kron(self.L[n - 1], np.eye(self.q[n - 1] * self.q[n])), self.R[n + 1]), t, False)

    def step(self, tau):
        N = self.N
        if self.two:
            for n in range(1, N):
                self.pair(n, tau / 2)
                self.L[n], _, self.terr_lr[n] = self.split(n)
                if n < N - 1:
                    # right space of bond n + 1 is unchanged
                    self.site(n + 1, -tau / 2)
            for n in range(N, 1, -1):
                self.pair(n - 1, tau / 2)
                _, self.R[n - 1], self.terr_rl[n] = self.split(n - 1)
                if n - 1 > 1:
                    self.site(n - 1, -tau / 2)
        else:
            for n in range(1, N + 1):
                self.site(n, tau / 2)
                if n < N:
                    self.L[n] = self.split(n, self.D[n])[0]
                    self.bond(n, -tau / 2)
            for n in range(N, 0, -1):
                self.site(n, tau / 2)
                if n > 1:
                    self.R[n - 1] = self.split(n - 1, self.D[n - 1])[1]
                    self.bond(n - 1, -tau / 2)
        return self.psi.reshape(self.q)


def prepare(c, ctx, smin=1e-3, need_tdvp=True):
    p = dict(form="right", restore=True, normalize=True)
    s, terms = finite.tdvp(c["c"], c["h"], p, as_callable=c["callable"] and need_tdvp)
    psi = dense.state_vec(s)
    for n in range(1, s.N):
        w = np.sqrt(dense.schmidt(psi, n))
        if w[s.D[n] - 1] < smin:
            raise Skip("Schmidt values too small")
    q = c["c"]["q"]
    H = dense.ham_matrix(q, terms)
    W = None
    if c["mpo"]:
        W = rand_herm_mpo(c["seed"], q)
        d = int(np.prod(q))
        M = mpo_apply(np.eye(d).reshape(list(q) + [d]), W, 0) if False else \
            np.array([mpo_apply(e.reshape(q).astype(complex), W, 0).ravel() for e in np.eye(d)]).T
        H = M if c["mpo"] == "only" else H + M
    nH = max(1e-3, la.norm(H, 2))
    return s, terms, psi, H, nH, W


def shim_split(s, *a, **kw):
    """Call take_step_split.  While the known unpacking defect of that method exists (see known_findings.json, facet
    class_call), hand it the number of values it expects, so that everything else in it is still examined."""
    import evoMPS.sexpmv as sx
    orig = sx.gexpmv
    A0 = [None if x is None else x.copy() for x in s.A]
    l0, r0, K0, C0 = [list(x) for x in (s.l, s.r, s.K, s.C)]
    try:
        return s.take_step_split(*a, **kw)
    except ValueError as e:
        if "too many values to unpack" not in str(e):
            raise
    for n in range(s.N + 1):
        s.A[n] = A0[n]
        for x, y in ((s.l, l0), (s.r, r0), (s.K, K0), (s.C, C0)):
            if n < len(y):
                x[n] = y[n]
    sx.gexpmv = lambda *x, **y: orig(*x, **y)[:5]
    try:
        return s.take_step_split(*a, **kw)
    finally:
        sx.gexpmv = orig


@facet("P08", case(), quick=12, rule="every case")
def class_call(c, ctx):
    """The method runs at all (the other facets work around the recorded finding)."""
    s, terms, psi, H, nH, W = prepare(c, ctx)
    ctx.nontrivial()
    s.take_step_split(0.02 / nH * phase(c), HMPO=None if W is None else [None] + W, use_local_ham=c["mpo"] != "only", print_progress=False)
    s.update()
    ref = Sweep(psi, s.D, H)
    want = ref.step(0.02 / nH * phase(c))
    ctx.check(dense.same_ray(dense.state_vec(s), want) < 1e-7, "state after the step")


@facet("P08", case(), quick=130, shards=3, rule=RULE)
def class_one_site(c, ctx):
    """EvoMPS_TDVP_Generic.take_step_split against the dense one-site splitting."""
    s, terms, psi, H, nH, W = prepare(c, ctx)
    tau = c["size"] / nH * phase(c)
    ref = Sweep(psi, s.D, H)
    E = dense.ip(psi.ravel(), H.dot(psi.ravel())).real
    for j in range(c["steps"]):
        shim_split(s, tau, HMPO=None if W is None else [None] + W, use_local_ham=c["mpo"] != "only", print_progress=False)
        want = ref.step(tau)
        # energy as reported by the step itself
        rep = s.H_expect
        s.update(restore_CF=True)
        got = dense.state_vec(s)
        compare(s, got, want, ref, ctx)
        e = dense.ip(got.ravel(), H.dot(got.ravel())).real
        ctx.close(rep, e, 1e-9, "energy reported by the step", scale=1 + nH)
        if c["angle"] in (90., 270.):
            ctx.close(e, E, 1e-9, "energy conservation", scale=1 + nH)
        elif c["angle"] == 0.:
            ctx.le(e, E + 1e-9 * (1 + nH), "energy after an imaginary time step")
            E = e
    ctx.nontrivial(max(s.D) > 1 and dense.same_ray(psi, want) > 1e-6)


def compare(s, got, want, ref, ctx, tol=1e-10):
    if ref.smin < 1e-4:
        raise Skip("Schmidt values became too small")
    ctx.close(la.norm(got.ravel()), 1, 1e-10, "norm")
    d = dense.same_ray(got, want)
    lim = max(tol, 1e-12 / ref.smin ** 2)
    ctx.worst["ray/limit"] = max(ctx.worst.get("ray/limit", 0), d / lim)
    ctx.check(d <= lim, "state differs from the splitting reference by %g (allowed %g)" % (d, lim))


@facet("P08", case(), quick=130, shards=3, rule=RULE)
def module_one_site(c, ctx):
    """split_step.evolve_split, one-site."""
    import evoMPS.split_step as ss
    c["h"]["none"] = [False] * len(c["h"]["none"])
    s, terms, psi, H, nH, W = prepare(c, ctx, need_tdvp=False)
    tau = c["size"] / nH * phase(c)
    ref = Sweep(psi, s.D, H)
    obj = s if c["callable"] else finite.plain(c["c"], dict(form="right", restore=True, normalize=True))
    calls = []

    def cb(m, i, expm_info_lr=None, expm_info_rl=None, truncerr_lr=None, truncerr_rl=None):
        calls.append(i)
        for e in list(expm_info_lr) + list(expm_info_rl):
            ctx.check(not e or e["converged"], "exponential not converged")
    out = ss.evolve_split(obj, s.ham, c["h"]["sites"], tau, c["steps"], HMPO=None if W is None else [None] + W,
                          use_local_ham=c["mpo"] != "only", print_progress=False, expm_max_steps=100,
                          cb_func=cb if c["seed"] % 2 else None)
    ctx.check(out is obj, "the evolved object is not the one given")
    if c["seed"] % 2:
        ctx.check(calls == list(range(c["steps"])), "callback calls %r for %d steps" % (calls, c["steps"]))
    for j in range(c["steps"]):
        want = ref.step(tau)
    ctx.nontrivial(max(s.D) > 1 and dense.same_ray(psi, want) > 1e-6)
    raw = dense.state_vec(obj)
    ctx.close(la.norm(raw.ravel()), 1, 1e-9, "norm right after the step")
    obj.update()
    compare(obj, dense.state_vec(obj), want, ref, ctx)


@st.composite
def two_case(draw):
    c = draw(case(maxdim=64))
    c["mpo"] = None
    c["h"]["none"] = [False] * len(c["h"]["none"])
    c["D_max"] = draw(st.sampled_from([None, 1, 2, 3, 4, 16]))
    c["cut"] = draw(st.sampled_from([None, 1e-5, 1e-3, 0.05]))
    return c


@facet("P08", two_case(), quick=120, shards=6, rule=RULE)
def module_two_site(c, ctx):
    """split_step.evolve_split, two-site: states, bond limits, truncation errors."""
    import evoMPS.split_step as ss
    s, terms, psi, H, nH, W = prepare(c, ctx, need_tdvp=False)
    tau = c["size"] / nH * phase(c)
    cut = c["cut"]
    ref = Sweep(psi, s.D, H, True, c["D_max"] or 10 ** 6, cut or 0.)
    obj = s if c["callable"] else finite.plain(c["c"], dict(form="right", restore=True, normalize=True))
    err = []

    def cb(m, i, truncerr_lr=None, truncerr_rl=None, **kw):
        err.append((np.array(truncerr_lr), np.array(truncerr_rl), list(m.D)))
    wants = []
    for j in range(c["steps"]):
        want = ref.step(tau)
        wants.append((dict(ref.terr_lr), dict(ref.terr_rl), list(ref.D)))
    if ref.gap < 1e-3 or ref.smin < 1e-5:
        raise Skip("truncation is not sharp")
    ss.evolve_split(obj, s.ham, c["h"]["sites"], tau, c["steps"], print_progress=False, expm_max_steps=100, two_site=True,
                    D_max=c["D_max"], min_schmidt=cut, cb_func=cb)
    for (a, b, D), (x, y, D2) in zip(err, wants):
        ctx.check(D == D2, "bond dimensions %r instead of %r" % (D, D2))
        for n in x if c["angle"] in (90., 270.) else ():
            ctx.close(a[n], x[n], 1e-9 / ref.smin, "truncation error (moving right)")
            ctx.close(b[n + 1], y[n + 1], 1e-9 / ref.smin, "truncation error (moving left)")
    for n in range(1, s.N + 1):
        ctx.check(obj.A[n].shape == (c["c"]["q"][n - 1], obj.D[n - 1], obj.D[n]), "tensor shape at site %d" % n)
    ctx.nontrivial(max(obj.D) > 1 and dense.same_ray(psi, want) > 1e-6)
    raw = dense.state_vec(obj)
    ctx.close(la.norm(raw.ravel()), 1, 1e-9, "norm right after the step")
    obj.update()
    compare(obj, dense.state_vec(obj), want, ref, ctx)


@st.composite
def order_case(draw):
    c = draw(case(maxdim=60, maxN=4))
    c["mpo"] = None
    c["h"]["none"] = [False] * len(c["h"]["none"])
    c["callable"] = False
    c["which"] = draw(st.sampled_from(["class", "module", "two", "switch"]))
    c["D_max"] = draw(st.sampled_from([1, 2, 3, 8]))
    return c


@facet("P08", order_case(), quick=70, shards=2, rule=RULE)
def order(c, ctx):
    """One step converges to the projected flow (one-site) or the exact evolution (two-site, ample bond dimension)."""
    import evoMPS.split_step as ss
    s0, terms, psi, H, nH, W = prepare(c, ctx, 0.05, need_tdvp=False)
    smin = min([1.] + [np.sqrt(dense.schmidt(psi, n))[s0.D[n] - 1] for n in range(1, s0.N)])
    h0 = 0.25 * smin / nH * phase(c)
    full = gens.maxbond(c["c"]["q"])
    errs = []
    for j in range(3):
        h = h0 / 2 ** j
        s, _ = finite.tdvp(c["c"], c["h"], dict(form="right", restore=True, normalize=True))
        D0 = list(s.D)
        kw = dict(print_progress=False)
        if c["which"] == "class":
            shim_split(s, h, **kw)
        elif c["which"] == "module":
            ss.evolve_split(s, s.ham, c["h"]["sites"], h, 1, expm_max_steps=100, **kw)
        elif c["which"] == "two":
            ss.evolve_split(s, s.ham, c["h"]["sites"], h, 1, expm_max_steps=100, two_site=True, D_max=1000, min_schmidt=1e-13, **kw)
        else:
            ss.evolve_split(s, s.ham, c["h"]["sites"], h, 1, expm_max_steps=100, two_site=True, D_max=c["D_max"],
                            switch_to_1site=True, min_schmidt=1e-13, **kw)
            for n in range(1, s.N):
                ctx.check(s.D[n] <= max(c["D_max"], D0[n]), "bond %d: dimension %d above the limit %d" % (n, s.D[n], c["D_max"]))
        got = dense.state_vec(s)
        ctx.close(la.norm(got.ravel()), 1, 1e-9, "norm")
        ex = la.expm(-h * H).dot(psi.ravel()).reshape(psi.shape)
        if c["which"] in ("class", "module"):
            want = flow(psi, terms, D0, h, 4)
        elif c["which"] == "two" or c["D_max"] >= max(full):
            # three-site terms reach beyond two-site variations unless the bonds are full
            want = ex if c["h"]["sites"] == 2 or all(D0[n] == full[n] for n in range(1, s.N)) else None
        elif all(D0[n] >= min(c["D_max"], full[n]) for n in range(1, s.N)):
            want = flow(psi, terms, D0, h, 4) if all(s.D[n] == D0[n] for n in range(1, s.N)) else None
        else:
            want = None
        if want is None:
            # a bond is limited on the way: at least not worse than standing still to first order
            ctx.check(dense.same_ray(got, ex) <= 3 * dense.same_ray(psi, ex) + 1e-9, "worse than not evolving at all")
            errs.append(0.)
        else:
            errs.append(dense.same_ray(got, want))
    ctx.nontrivial(max(s.D) > 1 and dense.same_ray(psi, ex) > 1e-6)
    full_tan = c["which"] in ("two", "switch")
    # two-site splitting leaves the (possibly empty) complement untouched only at order h^2 for D below full
    p = 3 if not full_tan or all(D0[n] == full[n] for n in range(1, s.N)) else 2
    lim = 4. * 2. ** (-2 * p)
    ctx.check(errs[2] <= 1e-10 or errs[2] <= lim * errs[0], "errors %s do not drop like h^%d (%s)" % (errs, p, c["which"]))
    ctx.check(errs[0] <= 30 * (abs(h0) * nH / smin) ** p + 1e-10, "error %g at step %g is too large" % (errs[0], abs(h0)))
