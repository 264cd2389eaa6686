"""P06: the TDVP direction of finite chains is the tangent-space projection."""
import numpy as np
from hypothesis import strategies as st
from ..core import facet, Skip
from .. import gens, dense, finite
from .p01 import mpo_apply

CH = dict(minN=2, maxN=6, maxq=3, maxD=5, maxdim=250, kinds=("gauss", "real", "decay"))
RULE = "the exact direction is not (nearly) zero and the tangent space is a proper subspace"


@st.composite
def case(draw, **kw):
    c = draw(gens.chain(**dict(CH, **kw)))
    k = draw(st.sampled_from([2, 3] if c["N"] >= 3 else [2]))
    p = draw(finite.prep())
    p["normalize"] = True
    return dict(c=c, h=draw(gens.finite_ham(c["N"], sites=k)), p=p, checks=draw(st.booleans()))


def exact(psi, terms, D):
    T = dense.Tangent(psi, D)
    Hpsi = dense.ham_apply(psi, terms)
    E = dense.ip(psi, Hpsi).real
    return T, Hpsi, E, T(Hpsi - E * psi)


def make(c, ctx, tol=3e-4):
    s, terms = finite.tdvp(c["c"], c["h"], c["p"])
    psi = dense.state_vec(s)
    T, Hpsi, E, want = exact(psi, terms, s.D)
    if T.smin < tol:
        raise Skip("Schmidt values too small for a sharp comparison")
    full = all(s.D[n] == gens.maxbond(c["c"]["q"])[n] for n in range(s.N + 1))
    ctx.nontrivial(np.linalg.norm(want.ravel()) > 1e-6 and not full)
    return s, terms, psi, T, Hpsi, E, want


def check_direction(s, B, ctx, psi, want, smin, gf, what="calc_B"):
    As = dense.mps_tensors(s)
    Bs = [B[n] for n in range(1, s.N + 1)]
    for n, b in enumerate(Bs):
        ctx.check(b is None or b.shape == As[n].shape, "shape of B at site %d" % (n + 1))
    tol = 1e-10 / smin ** 2
    sc = max(1., np.linalg.norm(want.ravel()))
    ctx.close(dense.tangent_vec(As, Bs), want, tol, what + ": tangent vector", scale=sc)
    l, r = dense.envs(As)
    comps = []
    tot = 0
    for n in range(1, s.N + 1):
        if Bs[n - 1] is None:
            ctx.close(s.eta_sq[n], 0, 1e-12, "norm of an absent component", note="n=%d" % n)
            continue
        v = dense.tangent_vec(As, [None] * (n - 1) + [Bs[n - 1]] + [None] * (s.N - n))
        nn = np.linalg.norm(v.ravel()) ** 2
        ctx.close(s.eta_sq[n], nn, tol, "eta_sq per site", scale=sc, note="n=%d" % n)
        tot += nn
        comps.append(v)
        if gf == "right":
            g = np.einsum('sab,bc,sdc->ad', Bs[n - 1], r[n], As[n - 1].conj())
        else:
            g = np.einsum('sba,bc,scd->ad', As[n - 1].conj(), l[n - 1], Bs[n - 1])
        ctx.close(g, 0 * g, tol, what + ": gauge-fixing condition", scale=sc * max(1., abs(Bs[n - 1]).max()), note="n=%d" % n)
    ctx.close(s.eta, np.linalg.norm(want.ravel()), tol, "eta", scale=sc)
    ctx.close(s.eta ** 2, np.sum(np.array(s.eta_sq)), 1e-9, "eta squared = sum of the per-site norms", scale=sc)
    return comps


@facet("P06", case(), quick=500, shards=3, rule=RULE)
def direction(c, ctx):
    s, terms, psi, T, Hpsi, E, want = make(c, ctx)
    s.sanity_checks = c["checks"]
    A0 = dense.mps_tensors(s)
    B = s.calc_B()
    check_direction(s, B, ctx, psi, want, T.smin, c["p"]["form"])
    for n in range(1, s.N + 1):
        Bn = s.calc_B_n(n, set_eta=False)
        ctx.check((Bn is None) == (B[n] is None), "calc_B_n and calc_B disagree on which sites have a component")
        if Bn is not None:
            ctx.close(Bn, B[n], 1e-10, "calc_B_n against calc_B", scale=1 + abs(B[n]).max())
    for a, b in zip(A0, dense.mps_tensors(s)):
        ctx.check(np.array_equal(a, b), "calc_B modified the state")


def dagger_mpo(W):
    return [w.transpose(0, 1, 3, 2).conj() for w in W]


def add_mpo(X, Y):
    out = []
    k = len(X)
    for i, (x, y) in enumerate(zip(X, Y)):
        if k == 1:
            out.append(x + y)
        elif i == 0:
            out.append(np.concatenate([x, y], axis=1))
        elif i == k - 1:
            out.append(np.concatenate([x, y], axis=0))
        else:
            w = np.zeros((x.shape[0] + y.shape[0], x.shape[1] + y.shape[1]) + x.shape[2:], dtype=complex)
            w[:x.shape[0], :x.shape[1]] = x
            w[x.shape[0]:, x.shape[1]:] = y
            out.append(w)
    return out


def ham_mpo(q, terms):
    """MPO (list of tensors [mL, mR, bra, ket] for all sites) of a sum of local terms."""
    N = len(q)
    tot = None
    for op, n in terms:
        k = op.ndim // 2
        Ws = []
        rest = op
        left = 1
        qs = q[n:n + k]
        t = op.transpose([x for i in range(k) for x in (i, k + i)])     # bra1 ket1 bra2 ket2 ..
        t = t.reshape(1, -1)
        for i in range(k):
            m = t.reshape(left * qs[i] ** 2, -1)
            if i == k - 1:
                Ws.append(m.reshape(left, qs[i], qs[i], 1).transpose(0, 3, 1, 2))
                break
            U, s, V = np.linalg.svd(m, full_matrices=False)
            keep = max(1, int((s > 1e-13 * s[0]).sum()))
            Ws.append(U[:, :keep].reshape(left, qs[i], qs[i], keep).transpose(0, 3, 1, 2))
            t = s[:keep, None] * V[:keep]
            left = keep
        W = [np.eye(q[i]).reshape(1, 1, q[i], q[i]).astype(complex) for i in range(n)] + Ws + \
            [np.eye(q[i]).reshape(1, 1, q[i], q[i]).astype(complex) for i in range(n + k, N)]
        tot = W if tot is None else add_mpo(tot, W)
    if tot is None:
        tot = [np.zeros((1, 1, x, x), dtype=complex) for x in q]
    return tot


def rand_herm_mpo(seed, q, maxb=2):
    r = gens.rng(seed, "hmpo")
    k = len(q)
    b = [1] + [r.randint(1, maxb + 1) for _ in range(k - 1)] + [1]
    W = [gens.cgauss(r, b[i], b[i + 1], q[i], q[i]) / np.sqrt(b[i] * q[i]) for i in range(k)]
    return add_mpo(W, dagger_mpo(W))


@st.composite
def mpo_case(draw):
    c = draw(case())
    c["mpo"] = draw(st.sampled_from(["local", "random"]))
    c["seed"] = draw(gens.seeds)
    return c


@facet("P06", mpo_case(), quick=200, rule=RULE)
def direction_mpo(c, ctx):
    """Hamiltonian given as a matrix product operator."""
    s, terms, psi, T, Hpsi, E, want = make(c, ctx)
    q = c["c"]["q"]
    W = ham_mpo(q, terms) if c["mpo"] == "local" else rand_herm_mpo(c["seed"], q)
    Hpsi = mpo_apply(psi, W, 0)
    E = dense.ip(psi, Hpsi).real
    want = T(Hpsi - E * psi)
    B = s.calc_B_MPO([None] + W)
    check_direction(s, B, ctx, psi, want, T.smin, "right", "calc_B_MPO")
    ctx.close(s.H_expect, E, 1e-9, "H_expect", scale=max(1, abs(E)))


@facet("P06", case(kinds=("deficient", "product", "ghz"), maxdim=130), quick=150, rule=RULE + "; some Schmidt weight vanishes")
def direction_deficient(c, ctx):
    """Rank-deficient states: projection onto the span of all parameter derivatives of the stored tensors."""
    s, terms = finite.tdvp(c["c"], c["h"], dict(c["p"], restore=True))
    s.zero_tol = 1e-12                               # clearly above rounding noise of vanishing weights
    psi = dense.state_vec(s)
    As = dense.mps_tensors(s)
    W = [dense.schmidt(psi, n) for n in range(1, s.N)]
    if any(((w > 1e-20) & (w < 1e-7)).any() for w in W):
        raise Skip("a weight is neither zero nor clearly non-zero")
    U, sv = dense.tangent_basis(As, 1e-7)
    if ((sv > 1e-12 * sv[0]) & (sv < 1e-4 * sv[0])).any():
        raise Skip("numerical rank of the tangent space is not sharp")
    Hpsi = dense.ham_apply(psi, terms)
    w = Hpsi - dense.ip(psi, Hpsi) * psi
    want = U.dot(U.conj().T.dot(w.ravel())).reshape(psi.shape)
    ctx.nontrivial(np.linalg.norm(want) > 1e-6 and any((x < 1e-20).any() for x in W))
    B = s.calc_B()
    got = dense.tangent_vec(As, [B[n] for n in range(1, s.N + 1)])
    sc = max(1., np.linalg.norm(w))
    ctx.close(got, want, 1e-6, "tangent vector", scale=sc)
    ctx.close(s.eta, np.linalg.norm(want.ravel()), 1e-6, "eta", scale=sc)
