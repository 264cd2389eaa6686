"""P03: Schmidt weights, entropies, truncation."""
import numpy as np
from hypothesis import strategies as st
from ..core import facet, Skip
from .. import gens, dense, finite
from .p02 import check_envs, check_canonical, load

CH = dict(maxN=6, maxq=4, maxD=7, maxdim=260, kinds=("gauss", "real", "decay", "deficient", "product", "ghz"))
RULE = "more than one site and some bond dimension above one"


def case(minN=1):
    return st.fixed_dictionaries(dict(c=gens.chain(minN=minN, **CH), form=st.sampled_from(["right", "left"]),
                                      seed=gens.seeds, a=st.integers(0, 50), flag=st.booleans(), flag2=st.booleans()))


def make(c, ctx, **kw):
    s, As = load(c["c"])
    s.canonical_form = c["form"]
    s.update(**kw)
    psi = dense.state_vec(s)
    ctx.nontrivial(c["c"]["N"] > 1 and max(c["c"]["D"]) > 1)
    return s, psi


def weights(psi, n):
    w = np.sort(dense.schmidt(psi, n))[::-1]
    return w


def same_spectrum(ctx, got, want, what, tol=1e-11):
    got = np.sort(np.real(np.asarray(got)))[::-1]
    k = max(len(got), len(want))
    ctx.close(np.pad(got, (0, k - len(got))), np.pad(want, (0, k - len(want))), tol, what)


@facet("P03", case(), quick=400, rule=RULE)
def spectra(c, ctx):
    s, psi = make(c, ctx)
    if c["flag"]:                                    # not in canonical form: a non-diagonal gauge
        r_ = gens.rng(c["seed"], "g")
        for n in range(1, s.N):
            G = gens.rand_unitary(r_, s.D[n])
            if c["flag2"]:
                G = G.dot(np.diag(r_.uniform(.5, 2, s.D[n])))
            Gi = np.linalg.inv(G)
            s.A[n] = np.array([x.dot(Gi) for x in s.A[n]])
            s.A[n + 1] = np.array([G.dot(x) for x in s.A[n + 1]])
        s.update(restore_CF=False)
    for n in range(0, s.N + 1):
        want = weights(psi, n)
        lam = s.schmidt_sq(n)
        ctx.check(np.abs(np.imag(lam)).max() < 1e-10, "schmidt_sq is not real")
        same_spectrum(ctx, lam, want, "schmidt_sq")
        S = s.entropy(n)
        S2, lam2 = s.entropy(n, ret_schmidt_sq=True)
        w = want[want > 1e-18]
        ctx.close(S, -np.sum(w * np.log2(w)), 1e-9, "entropy")
        ctx.close(S2, S, 0, "entropy with spectrum")
        same_spectrum(ctx, lam2, want, "spectrum returned with the entropy")


def check_after(s, ctx, form, what):
    now, l, r = check_envs(s, ctx, 1e-10, what)
    check_canonical(now, l, r, form, ctx, True, True, 1e-10, what)
    return dense.vec(now)


@facet("P03", case(minN=2), quick=400, rule=RULE)
def truncate_one(c, ctx):
    """One bond reduced: the result is the optimal low-rank approximation of that cut, normalised."""
    s, psi = make(c, ctx)
    if s.N < 2:
        raise Skip()
    n = 1 + c["a"] % (s.N - 1)
    w = weights(psi, n)
    k = 1 + c["seed"] % s.D[n]
    new_D = [int(x) for x in s.D]
    new_D[n] = k
    kept = w[:k].sum()
    if kept < 1e-6:
        raise Skip()
    ctx.is_nontrivial = False
    ctx.nontrivial(w[k:].sum() > 1e-8)
    if c["flag"]:
        s.truncate(new_D if c["flag2"] else np.array(new_D))
        got = check_after(s, ctx, c["form"], "truncate")
    else:
        s.truncate(new_D, update=False)
        s.update()
        got = check_after(s, ctx, c["form"], "truncate without update, then update")
    ctx.check(all(a <= b for a, b in zip(s.D, new_D)), "bond dimensions %r exceed the requested %r" % (list(s.D), new_D))
    ctx.close(abs(dense.ip(psi, got)) ** 2, kept, 1e-9, "squared overlap with the original = kept weight")
    same_spectrum(ctx, s.schmidt_sq(n), w[:k] / kept, "spectrum after truncation", 1e-9)


@facet("P03", case(minN=2), quick=300, rule=RULE + "; weight above 1e-8 is discarded")
def truncate_many(c, ctx):
    """Several bonds reduced at once: error within the sum of the discarded weights."""
    s, psi = make(c, ctx)
    r_ = gens.rng(c["seed"], "newD")
    new_D = [int(r_.randint(1, d + 1)) for d in s.D]
    if c["flag2"]:
        new_D = [min(int(d), 1 + c["a"] % 4) for d in s.D]
    disc = sum(weights(psi, n)[new_D[n]:].sum() for n in range(1, s.N))
    ctx.is_nontrivial = False
    ctx.nontrivial(disc > 1e-8)
    flag = c["flag"] and disc < .45                  # otherwise nothing may be left to normalise
    s.truncate(np.array(new_D), update=flag)
    if not flag:
        # truncated but not refreshed: the raw tensors already obey the bound, and only refreshing normalises
        raw = dense.state_vec(s)
        ctx.le(np.linalg.norm((raw - psi).ravel()) ** 2, 2 * disc + 1e-10, "squared error of the truncated tensors (bound 2 * discarded weight)")
        if np.linalg.norm(raw.ravel()) < 1e-3:
            raise Skip("nothing left of the state")
        s.update()
    got = check_after(s, ctx, c["form"], "truncate")
    ctx.check(all(a <= b for a, b in zip(s.D, new_D)), "bond dimensions %r exceed the requested %r" % (list(s.D), new_D))
    ctx.le(1 - abs(dense.ip(psi, got)) ** 2, 2 * disc + 1e-9, "infidelity (bound 2 * discarded weight)")
    if disc < 1e-20:
        ctx.close(got * dense.gauge_phase(psi, got), psi, 1e-8, "state when only zero weights are dropped")


@facet("P03", case(minN=2), quick=300, rule=RULE + "; some weight lies below the tolerance")
def auto(c, ctx):
    """Truncation by tolerance."""
    s, psi = make(c, ctx)
    tol = 10. ** (-(c["a"] % 12) - 1.5)
    W = [weights(psi, n) for n in range(s.N + 1)]
    if any(abs(np.log(w[i] / tol)) < 1e-3 for w in W for i in range(len(w)) if w[i] > 1e-300) or any(w[0] < tol for w in W):
        raise Skip("a weight sits at the tolerance")
    want = [int((W[n] > tol).sum()) for n in range(s.N + 1)]
    D0 = [int(d) for d in s.D]
    disc = sum(W[n][want[n]:].sum() for n in range(1, s.N))
    ctx.is_nontrivial = False
    ctx.nontrivial(want != D0)
    s.zero_tol = tol if c["flag2"] else s.zero_tol
    flag = c["flag"] and disc < .45
    ret = s.auto_truncate(update=flag, zero_tol=None if c["flag2"] else tol)
    ctx.check(bool(ret) == (want != D0), "auto_truncate returned %r; dimensions %r, weights above tolerance %r" % (ret, D0, want))
    if not flag:
        ctx.check([int(d) for d in s.D] == want, "bond dimensions %r, weights above the tolerance %r" % (list(s.D), want))
        if np.linalg.norm(dense.state_vec(s).ravel()) < 1e-3:
            raise Skip("nothing left of the state")
        s.update()
    got = check_after(s, ctx, c["form"], "auto_truncate")
    ctx.check(all(a <= b for a, b in zip(s.D, want)), "bond dimensions %r exceed %r" % (list(s.D), want))
    ctx.le(1 - abs(dense.ip(psi, got)) ** 2, 2 * disc + 1e-9, "infidelity")


@facet("P03", case(minN=2), quick=300, rule=RULE)
def update_auto(c, ctx):
    """update(auto_truncate=True) removes exactly the zero Schmidt weights and keeps the state."""
    s, As = load(c["c"])
    psi = dense.vec(As)
    psi = psi / np.linalg.norm(psi.ravel())
    ctx.nontrivial(c["c"]["N"] > 1 and max(c["c"]["D"]) > 1)
    s.canonical_form = c["form"]
    exact = c["flag2"] and not any(1e-14 < x < 1e-10 for n in range(1, s.N) for x in weights(psi, n))
    if exact:
        s.zero_tol = 1e-12                # well above rounding noise: the cut is then unambiguous
    s.update(auto_truncate=True, restore_CF_after_trunc=c["flag"])
    now, l, r = check_envs(s, ctx, 1e-9, "update")
    got = dense.vec(now)
    ctx.close(got * dense.gauge_phase(psi, got), psi, 3e-7, "state vector")
    for n in range(1, s.N):
        w = weights(psi, n)
        ctx.check(int((w > 1e-12).sum()) <= s.D[n] <= (int((w > 1e-12).sum()) if exact else c["c"]["D"][n]),
                  "bond dimension %d but the Schmidt weights are %s" % (s.D[n], w))
        same_spectrum(ctx, s.schmidt_sq(n), w, "schmidt_sq", 1e-7)
        ww = w[w > 1e-18]
        ctx.close(s.entropy(n), -np.sum(ww * np.log2(ww)), 1e-6, "entropy")
    if c["flag"]:
        check_canonical(now, l, r, c["form"], ctx, True, True, 1e-9, "update")
