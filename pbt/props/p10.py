"""P10: variational searches on finite chains."""
import numpy as np
import scipy.linalg as la
from hypothesis import strategies as st
from ..core import facet, Skip
from .. import gens, dense, finite
from .p08 import Sweep, prepare, case as p08case, compare

RULE = "the state changes and some bond dimension exceeds one"


class DMRG(Sweep):
    """The same sweep, but every update replaces the local tensor by the lowest eigenvector of the projected Hamiltonian."""
    lgap = 1.

    def local(self, W, t, norm=True):
        h = W.conj().T.dot(self.H).dot(W)
        w, v = la.eigh((h + h.conj().T) / 2)
        if len(w) > 1:
            self.lgap = min(self.lgap, (w[1] - w[0]) / max(1e-3, abs(w).max()))
        self.psi = W.dot(v[:, 0])

    def bond(self, n, t):
        pass

    def site(self, n, t):
        if t > 0:
            Sweep.site(self, n, t)

    def energy(self):
        return dense.ip(self.psi.ravel(), self.H.dot(self.psi.ravel())).real


@st.composite
def sweep_case(draw):
    c = draw(p08case())
    c["steps"] = draw(st.integers(1, 3))
    c["ncv"] = draw(st.sampled_from([None, None, 4, 10]))
    c["tol"] = draw(st.sampled_from([0, 1e-13]))
    c["how"] = draw(st.sampled_from(["class", "module"]))
    return c


def common(s, psi, e0, e, E0, nH, ctx):
    ctx.le(e, e0 + 1e-9 * (1 + nH), "energy after the sweep")
    ctx.le(E0 - 1e-9 * (1 + nH), e, "exact ground energy")


@facet("P10", sweep_case(), quick=120, shards=3, rule=RULE)
def sweeps(c, ctx):
    """One-site sweeps: energy, state and form against a dense reference sweep."""
    import evoMPS.split_step as ss
    s, terms, psi, H, nH, W = prepare(c, ctx)
    E0 = la.eigvalsh(H)[0]
    e0 = dense.ip(psi.ravel(), H.dot(psi.ravel())).real
    ref = DMRG(psi, s.D, H)
    HM = None if W is None else [None] + W
    full = all(s.D[n] == gens.maxbond(c["c"]["q"])[n] for n in range(s.N + 1))
    q, N, D = c["c"]["q"], s.N, list(s.D)
    whole = any(D[n] * D[n - 1] * q[n - 1] == int(np.prod(q)) for n in range(1, N + 1))
    for j in range(c["steps"]):
        if c["how"] == "class":
            kw = dict(tol=c["tol"])
            if c["ncv"]:
                kw["ncv"] = c["ncv"]
            s.vari_opt_ss_sweep(HMPO=HM, use_local_ham=c["mpo"] != "only", **kw)
            if c["mpo"] is None:
                rep = s.H_expect
            s.update()
        else:
            ham = c["h"]
            ss.evolve_split(s, s._ham_arrays(), ham["sites"], 1., 1, HMPO=HM, use_local_ham=c["mpo"] != "only", DMRG=True,
                            print_progress=False, ncv=c["ncv"], tol=c["tol"])
            s.update()
        ref.step(1.)
        got = dense.state_vec(s)
        e = dense.ip(got.ravel(), H.dot(got.ravel())).real
        ctx.close(la.norm(got.ravel()), 1, 1e-10, "norm")
        common(s, psi, e0, e, E0, nH, ctx)
        if c["how"] == "class" and c["mpo"] is None:
            ctx.close(rep, e, 1e-8, "energy reported by the sweep", scale=1 + nH)
        if whole:
            ctx.close(e, E0, 1e-9, "ground energy with a complete local basis", scale=1 + nH)
        e0 = e
        l, r = dense.envs(dense.mps_tensors(s))
        for n in range(1, N + 1):
            ctx.close(r[n], np.eye(len(r[n])), 1e-9, "right canonical form", note="n=%d" % n)
        if ref.lgap > 1e-3 and ref.smin > 1e-3 and (c["ncv"] is None or c["ncv"] > 4):
            ctx.close(e, ref.energy(), 1e-8, "energy against the reference sweep", scale=1 + nH)
            d = dense.same_ray(got, ref.psi.reshape(got.shape))
            ctx.check(d < 1e-7 / ref.lgap / ref.smin, "state differs from the reference sweep by %g" % d)
    ctx.nontrivial(max(D) > 1 and dense.same_ray(psi, got) > 1e-6)


@st.composite
def two_case(draw):
    c = draw(p08case(maxdim=64))
    c["mpo"] = None
    c["callable"] = False
    c["h"]["none"] = [False] * len(c["h"]["none"])
    c["D_max"] = draw(st.sampled_from([None, None, 1, 2, 3, 8]))
    c["cut"] = draw(st.sampled_from([None, None, 1e-6, 0.05]))
    c["switch"] = draw(st.booleans())
    return c


@facet("P10", two_case(), quick=90, shards=4, rule=RULE)
def two_site_sweeps(c, ctx):
    import evoMPS.split_step as ss
    s, terms, psi, H, nH, W = prepare(c, ctx, need_tdvp=False)
    E0 = la.eigvalsh(H)[0]
    cut = c["cut"] or 0.
    ref = DMRG(psi, s.D, H, True, c["D_max"] or 10 ** 6, cut)
    D0 = list(s.D)
    steps = c["steps"]
    e0 = dense.ip(psi.ravel(), H.dot(psi.ravel())).real
    es = []

    def cb(m, i, truncerr_lr=None, truncerr_rl=None, **kw):
        es.append((np.nansum(np.abs(truncerr_lr)) + np.nansum(np.abs(truncerr_rl)), dense.state_vec(m)))
    kw = {}
    if c["D_max"]:
        kw["D_max"] = c["D_max"]
    if c["cut"]:
        kw["min_schmidt"] = c["cut"]
    if not c["switch"]:
        for j in range(steps):
            ref.step(1.)
            if ref.smin < 1e-9:
                # numerically vanishing Schmidt vectors are kept, their orientation is arbitrary
                ref.lgap = 0
    ss.evolve_split(s, s.ham, c["h"]["sites"], 1., steps, DMRG=True, two_site=True, switch_to_1site=c["switch"],
                    print_progress=False, cb_func=cb, tol=0, **kw)
    for n in range(1, s.N + 1):
        ctx.check(s.A[n].shape == (s.q[n], s.D[n - 1], s.D[n]), "tensor shape at site %d" % n)
        lim = c["D_max"] or 10 ** 6
        ctx.check(s.D[n] <= (max(lim, D0[n]) if c["switch"] else lim), "bond %d: dimension %d above the limit" % (n, s.D[n]))
    e = e0
    ctx.check(len(es) == steps, "callback calls")
    for terr, x in es:
        e1 = dense.ip(x.ravel(), H.dot(x.ravel())).real / la.norm(x.ravel()) ** 2
        ctx.close(la.norm(x.ravel()), 1, 1e-9, "norm")
        ctx.le(E0 - 1e-9 * (1 + nH), e1, "exact ground energy")
        if terr < 1e-10:
            ctx.le(e1, e + 1e-9 * (1 + nH), "energy after an untruncated sweep")
        e = e1
    s.update()
    got = dense.state_vec(s)
    ctx.nontrivial(max(s.D) > 1 and dense.same_ray(psi, got) > 1e-6)
    ctx.close(dense.same_ray(got, es[-1][1]), 0, 1e-7, "refresh after the sweeps")
    if not c["switch"] and ref.lgap > 1e-3 and ref.gap > 1e-3 and ref.smin > 1e-4:
        ctx.close(e, ref.energy(), 1e-8, "energy against the reference sweep", scale=1 + nH)
        d = dense.same_ray(got, ref.psi.reshape(got.shape))
        ctx.check(d < 1e-7 / ref.lgap / ref.smin, "state differs from the reference sweep by %g" % d)


@st.composite
def search_case(draw):
    c = draw(gens.chain(minN=2, maxN=5, maxq=3, maxD=4, maxdim=100, kinds=("gauss", "real", "decay")))
    k = draw(st.sampled_from([2, 3] if c["N"] >= 3 else [2]))
    return dict(c=c, h=draw(gens.finite_ham(c["N"], sites=k)), callable=draw(st.booleans()),
                gf=draw(st.sampled_from(["right", "right", "left"])), tau=draw(st.sampled_from([0.01, 0.1, 1., 10.])),
                skip=draw(st.booleans()), overlap=draw(st.sampled_from([False, False, True])), tol=draw(st.sampled_from([None, 1e-3])),
                seed=draw(gens.seeds), other=draw(st.booleans()), steps=draw(st.integers(1, 6)), reset=draw(st.sampled_from([1, 3, 100])))


def begin(c, ctx):
    s, terms = finite.tdvp(c["c"], c["h"], dict(form=c["gf"], restore=True, normalize=True), as_callable=c["callable"])
    psi = dense.state_vec(s)
    H = dense.ham_matrix(c["c"]["q"], terms)
    nH = max(1e-3, la.norm(H, 2))
    for n in range(1, s.N):
        if np.sqrt(dense.schmidt(psi, n))[s.D[n] - 1] < 1e-3:
            raise Skip("Schmidt values too small")
    return s, psi, H, nH


def energy(As, H):
    x = dense.vec(As).ravel()
    return (dense.ip(x, H.dot(x)) / dense.ip(x, x)).real


@facet("P10", search_case(), quick=180, shards=3, rule="the search moves along a non-zero direction")
def line_search(c, ctx):
    """find_min_h_brent: reported energy, restoration of the state, quality of the minimum."""
    s, psi, H, nH = begin(c, ctx)
    B = s.calc_B()
    if c["other"]:                                  # a direction that is not the gradient (but downhill)
        r = gens.rng(c["seed"], "d")
        B = [None] + [None if b is None else b + 0.2 * abs(b).max() * gens.cgauss(r, *b.shape) for b in B[1:]]
    As = dense.mps_tensors(s)
    e0 = energy(As, H)
    tau0 = c["tau"] / nH
    kw = dict(skipIfLower=c["skip"])
    if c["tol"]:
        kw["tol"] = c["tol"]
    if c["overlap"]:
        kw["use_tangvec_overlap"] = True
    snap = [[None if x is None else np.array(dense.arr(x)) for x in y] for y in (s.l, s.r, s.K, s.C)]
    eta = s.eta
    out = s.find_min_h_brent(B, tau0, **kw)
    moved = out[0] != 0
    ctx.nontrivial(moved and any(b is not None and abs(b).max() > 1e-6 for b in B[1:]))

    def stepped(t):
        return [a if b is None else a - t * b for a, b in zip(As, B[1:])]
    tau, h = out
    ctx.check(tau >= -1e-5 * tau0, "negative step %r" % tau)
    tau = max(tau, 0.)
    if c["skip"] and tau == tau0:
        ctx.close(h, energy(stepped(tau), H), 1e-9, "energy reported for the step accepted at once", scale=1 + nH)
        ctx.le(h, e0, "energy of the step accepted at once")
    else:
        if all(b is None or not abs(b).max() for b in B[1:]):
            ctx.close(h, e0, 1e-9, "energy", scale=1 + nH)
        else:
            ctx.close(h, energy(stepped(tau), H), 1e-9, "energy reported for the step", scale=1 + nH)
            # a bracketed minimum: nothing lower right next to it
            if tau > 0 and not c["overlap"]:
                for f in (0.5, 1.7):
                    ctx.le(h, energy(stepped(tau * f), H) + 1e-6 * (1 + nH), "energy at a neighbouring step", )
    for n in range(1, s.N + 1):
        ctx.close(s.A[n], As[n - 1], 1e-12, "tensor after the search", scale=1 + abs(As[n - 1]).max())
    ctx.close(s.H_expect, e0, 1e-9, "energy after the search", scale=1 + nH)
    for name, old, new in zip("lrKC", snap, (s.l, s.r, s.K, s.C)):
        for n, (x, y) in enumerate(zip(old, new)):
            ctx.check((x is None) == (y is None), "%s[%d] after the search" % (name, n))
            if x is not None and np.isfinite(x).all():
                ctx.close(dense.arr(y), x, 1e-10, "%s after the search" % name, scale=1 + abs(x).max(), note="n=%d" % n)
    B2 = s.calc_B()
    from .p06 import exact
    terms = gens.ham_terms(c["c"], c["h"])[1]
    T, _, _, want = exact(psi, terms, s.D)
    got = dense.tangent_vec(As, [B2[n] for n in range(1, s.N + 1)])
    ctx.close(got, want, 1e-9 / T.smin ** 2, "direction calculated after the search", scale=1 + nH)


@facet("P10", search_case(), quick=160, shards=3, rule="at least two steps are accepted")
def conj_grad(c, ctx):
    """Conjugate gradient steps: direction, accepted energies, end of the search."""
    s, psi, H, nH = begin(c, ctx)
    Bp, eta0, taken = None, 0, 0
    E0 = la.eigvalsh(H)[0]
    e = energy(dense.mps_tensors(s), H)
    tau = c["tau"] / nH
    for j in range(c["steps"]):
        reset = j % c["reset"] == 0
        As = dense.mps_tensors(s)
        psi = dense.vec(As)
        old = None if Bp is None else [None if b is None else np.array(b) for b in Bp]
        want = s.calc_B()
        wn = s.eta
        if wn < 1e-5 or not reset and eta0 < 1e-5:
            break
        BCG, B, eta, tau = s.calc_B_CG(Bp, eta0, tau or c["tau"] / nH, reset=reset)
        ctx.close(eta, wn, 1e-10, "reported norm of the gradient", scale=1 + nH)
        ctx.check(tau >= -1e-5 * c["tau"] / nH, "negative step")
        isgrad = True
        for n in range(1, s.N + 1):
            ctx.check((B[n] is None) == (want[n] is None), "gradient component")
            if B[n] is not None:
                ctx.close(B[n], want[n], 1e-9, "gradient", scale=1 + abs(want[n]).max())
                isgrad = isgrad and abs(BCG[n] - want[n]).max() <= 1e-9 * (1 + abs(want[n]).max())
        if not isgrad:
            ctx.check(not reset, "after a reset the direction is not the gradient")
            for n in range(1, s.N + 1):
                if B[n] is not None:
                    ctx.close(BCG[n], want[n] + (wn / eta0) ** 2 * old[n], 1e-8, "conjugate direction", scale=1 + abs(BCG[n]).max())
        s.take_step(tau, B=BCG)
        s.update(restore_CF=False)
        x = dense.state_vec(s)
        ctx.close(la.norm(x.ravel()), 1, 1e-9, "norm")
        e1 = energy(dense.mps_tensors(s), H)
        ctx.close(s.H_expect, e1, 1e-9, "energy", scale=1 + nH)
        ctx.le(e1, e + 1e-9 * (1 + nH), "energy after an accepted step")
        ctx.le(E0 - 1e-9 * (1 + nH), e1, "exact ground energy")
        if tau > 0 and dense.same_ray(psi, x) > 1e-7:
            taken += 1
        e, Bp, eta0 = e1, BCG, eta
        if max(abs(dense.arr(s.l[n])).max() for n in range(s.N)) > 1e4 or \
           min(np.sqrt(dense.schmidt(x, n))[s.D[n] - 1] for n in range(1, s.N)) < 1e-3:
            break
    ctx.nontrivial(taken >= 2)


@st.composite
def conv_case(draw):
    c = draw(gens.chain(minN=2, maxN=4, maxq=3, maxdim=36, kinds=("gauss",), full=True))
    k = draw(st.sampled_from([2, 3] if c["N"] >= 3 else [2]))
    return dict(c=c, h=draw(gens.finite_ham(c["N"], sites=k, allow_none=False)), callable=draw(st.booleans()),
                how=draw(st.sampled_from(["imtime", "sweep", "mixed"])))


@facet("P10", conv_case(), quick=20, shards=5, rule="every case")
def converge(c, ctx):
    """Ample bond dimension: searches reach the exact ground state."""
    s, terms = finite.tdvp(c["c"], c["h"], dict(form="right", restore=True, normalize=True), as_callable=c["callable"])
    H = dense.ham_matrix(c["c"]["q"], terms)
    w, v = la.eigh(H)
    gap = (w[1] - w[0]) / max(abs(w))
    if gap < 0.08:
        raise Skip("small gap")
    psi = dense.state_vec(s)
    if abs(dense.ip(v[:, 0], psi.ravel())) < 1e-3:
        raise Skip("poor start")
    if min(np.sqrt(dense.schmidt(v[:, 0].reshape(psi.shape), n))[s.D[n] - 1] for n in range(1, s.N)) < 3e-3:
        raise Skip("nearly product ground state")
    nH = max(abs(w))
    ctx.nontrivial()
    e = s.H_expect.real
    if c["how"] != "imtime":
        s.vari_opt_ss_sweep()
        s.update()
        ctx.le(s.H_expect.real, e + 1e-9 * nH, "energy after the sweep")
        ctx.close(s.H_expect, w[0], 1e-9, "ground energy after one full sweep", scale=nH)
    if c["how"] != "sweep":
        h = 0.3 / nH
        for j in range(200):
            e = s.H_expect.real
            s.take_step_RK4(h)
            s.update()
            ctx.le(s.H_expect.real, e + 1e-10 * nH, "energy during imaginary time evolution")
            if j > 3 and e - s.H_expect.real < 1e-13 * nH:
                break
        else:
            if gap * 200 * 0.3 < 25:
                raise Skip("slow convergence")
    x = dense.state_vec(s)
    ctx.close(s.H_expect, w[0], 1e-7, "ground energy", scale=nH)
    ctx.close(abs(dense.ip(v[:, 0], x.ravel())), 1, 1e-5 / gap, "overlap with the exact ground state")
