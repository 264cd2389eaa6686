"""P09: dynamical bond expansion of finite chains."""
import numpy as np
import scipy.linalg as la
from hypothesis import strategies as st
from ..core import facet, Skip
from .. import gens, dense, finite
from .p06 import exact

CH = dict(minN=2, maxN=6, maxq=3, maxD=4, maxdim=200, kinds=("gauss", "real", "decay"))


@st.composite
def case(draw, **kw):
    c = draw(gens.chain(**dict(CH, **kw)))
    k = draw(st.sampled_from([2, 3] if c["N"] >= 3 else [2]))
    p = draw(finite.prep())
    p["normalize"] = True
    return dict(c=c, h=draw(gens.finite_ham(c["N"], sites=k)), p=p, checks=draw(st.booleans()),
                callable=draw(st.booleans()), dD=draw(st.integers(1, 6)), D_max=draw(st.sampled_from([0, 0, 2, 3, 4, 8])),
                sv_tol=draw(st.sampled_from([None, 1e-10, 1e-3, 0.3])), gf=draw(st.sampled_from(["right", "left"])),
                mask=draw(st.booleans()))


def setup(c, ctx, tol=1e-3):
    s, terms = finite.tdvp(c["c"], c["h"], c["p"], as_callable=c["callable"])
    if s.gauge_fixing != c["gf"]:
        s.gauge_fixing = c["gf"]
        s.update(restore_CF=c["p"]["restore"])
    s.sanity_checks = c["checks"]
    psi = dense.state_vec(s)
    T, Hpsi, E, want = exact(psi, terms, s.D)
    if T.smin < tol:
        raise Skip("Schmidt values too small for a sharp comparison")
    v = [None] + [T.two_site(n, Hpsi) for n in range(1, s.N)]
    return s, terms, psi, T, Hpsi, E, want, v


def clone(s):
    import copy
    return copy.deepcopy(s)


@facet("P09", case(), quick=450, shards=3, rule="the part of H|psi> outside the tangent space is not (nearly) zero")
def norms(c, ctx):
    """Reported two-site projection norms; the step itself is the ordinary one."""
    s, terms, psi, T, Hpsi, E, want, v = setup(c, ctx)
    dtau = 0.01 * np.exp(1j * (c["dD"] - 1))
    t = clone(s)
    t.take_step(dtau, calc_Y_2s=True)
    s.take_step(dtau)
    tol = 1e-10 / T.smin ** 2
    sc = max(1., la.norm(Hpsi.ravel()))
    tot = 0
    for n in range(1, s.N):
        nn = la.norm(v[n].ravel()) ** 2
        ctx.close(t.etaBB_sq[n], nn, tol, "squared norm of the two-site projection", scale=sc ** 2, note="n=%d" % n)
        tot += nn
    ctx.close(t.etaBB ** 2, tot, tol, "total two-site projection norm", scale=sc ** 2)
    ctx.close(t.eta, la.norm(want.ravel()), tol, "eta", scale=sc)
    if c["h"]["sites"] == 2:
        # all of H|psi> that leaves the tangent space is two-site
        ctx.close(t.etaBB.real ** 2, la.norm((Hpsi - E * psi - want).ravel()) ** 2, tol, "projection error", scale=sc ** 2)
    for n in range(1, s.N + 1):
        ctx.close(t.A[n], s.A[n], 1e-10, "tensor after the step", scale=1 + abs(s.A[n]).max(), note="n=%d" % n)
    ctx.nontrivial(tot > 1e-10)


def expand_kw(c):
    kw = dict(dynexp=True, dD_max=c["dD"], D_max=c["D_max"])
    if c["sv_tol"]:
        kw["sv_tol"] = c["sv_tol"]
    return kw


def leading(v, n, k):
    q = v.shape
    m = v.reshape(int(np.prod(q[:n])), -1)
    U, s, V = la.svd(m, full_matrices=False)
    return (U[:, :k] * s[:k]).dot(V[:k]).reshape(q), s


@facet("P09", case(), quick=450, shards=3, rule="some bond is expanded")
def expand(c, ctx):
    """New bond dimensions, and the exact linear coefficient of the expanded state in the step size."""
    s, terms, psi, T, Hpsi, E, want, v = setup(c, ctx)
    kw = expand_kw(c)
    D0 = list(s.D)
    sv_tol = c["sv_tol"] or 1e-14
    sc = max(1., la.norm(Hpsi.ravel()))
    wantD, lin = list(D0), want.copy()
    for n in range(1, s.N):
        q = c["c"]["q"]
        lim = min(c["dD"], c["D_max"] - D0[n] if c["D_max"] > 0 else c["dD"])
        k0 = min(q[n - 1] * D0[n - 1] - D0[n], q[n] * D0[n + 1] - D0[n])
        _, sv = leading(v[n], n, 0)
        sv = np.concatenate([sv, np.zeros(max(0, k0 - len(sv)))])[:max(k0, 0)]
        if c["sv_tol"] and len(sv) and abs(sv / sv_tol - 1).min() < 1e-3:
            raise Skip("a singular value on the threshold")
        if not c["sv_tol"] and ((sv > 1e-16) & (sv < 1e-9)).any():
            num = None                     # numerically zero singular values may or may not count
        else:
            num = int((sv > sv_tol).sum())
        k = min(num, lim) if num is not None else None
        if lim <= 0 or k0 <= 0:
            k = 0
        if k is not None and 0 < k < len(sv) and sv[k - 1] - sv[k] < 1e-4 * sv[0] and k == lim:
            raise Skip("degenerate singular values at the limit")
        wantD[n] = None if k is None else D0[n] + k
        if k is None:
            k = max(0, min(lim, k0))
        lin = lin + leading(v[n], n, k)[0]
    # the state is a polynomial of degree N in dtau: its linear coefficient by discrete Fourier transform
    P = s.N + 2
    rad = 0.3 * T.smin / sc
    acc = 0
    for j in range(P):
        h = rad * np.exp(2j * np.pi * j / P)
        t = clone(s)
        t.take_step(h, **kw)
        Dn = list(t.D)
        for n in range(s.N + 1):
            ctx.check(wantD[n] is None or Dn[n] == wantD[n], "bond %d: dimension %d instead of %s" % (n, Dn[n], wantD[n]))
            ctx.check(Dn[n] - D0[n] <= c["dD"] and Dn[n] >= D0[n], "bond %d grows by %d (dD_max %d)" % (n, Dn[n] - D0[n], c["dD"]))
            ctx.check(not c["D_max"] or Dn[n] <= max(c["D_max"], D0[n]), "bond %d: dimension %d (D_max %d)" % (n, Dn[n], c["D_max"]))
        for n in range(1, s.N + 1):
            ctx.check(t.A[n].shape == (s.q[n], Dn[n - 1], Dn[n]), "tensor shape at site %d" % n)
        acc = acc + dense.state_vec(t) * np.exp(-2j * np.pi * j / P) / P
        if j == 0:
            ctx.close(t.eta, la.norm(want.ravel()), 1e-10 / T.smin ** 2, "eta", scale=sc)
            tot = sum(la.norm(x.ravel()) ** 2 for x in v[1:])
            ctx.close(t.etaBB ** 2, tot, 1e-10 / T.smin ** 2, "two-site projection norm", scale=sc ** 2)
            t.update()
            ctx.close(la.norm(dense.state_vec(t).ravel()), 1, 1e-9, "norm after the refresh")
    ctx.close(-acc / rad, lin, 1e-9 / T.smin ** 2, "direction of the expanding step", scale=sc)
    ctx.nontrivial(sum(Dn) > sum(D0))


@st.composite
def hist_case(draw):
    c = draw(case(maxN=5, maxdim=100))
    c["steps"] = draw(st.lists(st.tuples(st.sampled_from(["exp", "exp", "euler", "rk4", "trunc"]), st.integers(1, 3)), min_size=2, max_size=6))
    c["angle"] = draw(st.sampled_from([0., 90., 45.]))
    c["D_max"] = draw(st.sampled_from([0, 2, 3, 4, 8]))
    return c


@facet("P09", hist_case(), quick=120, shards=2, rule="some bond is expanded")
def history(c, ctx):
    """Expanding steps interleaved with plain ones: limits, consistency, and no worse than plain steps."""
    s, terms, psi, T, Hpsi, E, want, v = setup(c, ctx)
    H = dense.ham_matrix(c["c"]["q"], terms)
    nH = max(1e-3, la.norm(H, 2))
    grown = False
    for op, k in c["steps"]:
        D0 = list(s.D)
        psi = dense.state_vec(s)
        h = 0.01 / nH * np.exp(1j * np.deg2rad(c["angle"]))
        if op == "trunc":
            s.update(auto_truncate=True)
            ctx.check(all(a <= b for a, b in zip(s.D, D0)), "truncation raised a bond dimension")
            ctx.check(dense.same_ray(dense.state_vec(s), psi) < 1e-5, "automatic truncation changed the state")
            continue
        if min(np.sqrt(dense.schmidt(psi, n))[D0[n] - 1] for n in range(1, s.N)) < 1e-2:
            h = h * 1e-3
        smin = min(np.sqrt(dense.schmidt(psi, n))[D0[n] - 1] for n in range(1, s.N))
        plain = clone(s)
        if op == "exp":
            s.take_step(h, dynexp=True, dD_max=k, D_max=c["D_max"], sv_tol=1e-8)
            plain.take_step(h)
            ex = la.expm(-h * H).dot(psi.ravel()).reshape(psi.shape)
            for n in range(1, s.N):
                ctx.check(s.D[n] <= D0[n] + k, "bond %d grew too much" % n)
                ctx.check(not c["D_max"] or s.D[n] <= max(D0[n], c["D_max"]), "bond %d above the limit" % n)
                ctx.check(s.D[n] >= D0[n], "bond %d shrank" % n)
            a, b = [dense.same_ray(dense.state_vec(x), ex) for x in (s, plain)]
            ctx.check(a <= b + 3 * (abs(h) * nH) ** 2 / smin ** 2 + 1e-11, "the expanding step is less accurate: %g against %g" % (a, b))
            grown = grown or list(s.D) != D0
        elif op == "euler":
            s.take_step(h)
        else:
            s.take_step_RK4(h)
        s.update(normalize=True)
        for n in range(1, s.N + 1):
            ctx.check(s.A[n].shape == (s.q[n], s.D[n - 1], s.D[n]), "tensor shape at site %d" % n)
        x = dense.state_vec(s)
        ctx.close(la.norm(x.ravel()), 1, 1e-9, "norm")
        ctx.close(s.H_expect, dense.ip(x.ravel(), H.dot(x.ravel())), 1e-9, "energy", scale=1 + nH)
    ctx.nontrivial(grown)
