"""P02: restoring the canonical form of finite chains."""
import numpy as np
from hypothesis import strategies as st
from ..core import facet, Skip
from .. import gens, dense, finite

CH = dict(minN=1, maxN=6, maxq=4, maxD=7, maxdim=260)
RULE = "more than one site and some bond dimension above one"


def check_envs(s, ctx, tol, what="", nz=None):
    """Bond dimensions match tensors; stored l and r are the contractions of the stored tensors."""
    As = dense.mps_tensors(s)
    N = s.N
    for n in range(1, N + 1):
        ctx.check(As[n - 1].shape == (s.q[n], s.D[n - 1], s.D[n]),
                  "%s: tensor %d has shape %r but q, D say %r" % (what, n, As[n - 1].shape, (s.q[n], s.D[n - 1], s.D[n])))
    l, r = dense.envs(As)
    sl = max(1., abs(l[N]).max())
    for n in range(N + 1):
        ctx.close(dense.arr(s.l[n]), l[n], tol, what + ": stored l", scale=sl * max(1, abs(l[n]).max()), note="n=%d" % n)
        ctx.close(dense.arr(s.r[n]), r[n], tol, what + ": stored r", scale=sl * max(1, abs(r[n]).max()), note="n=%d" % n)
    return As, l, r


def check_canonical(As, l, r, form, ctx, normalized, diag, tol, what=""):
    N = len(As)
    if form == "right":
        for n in range(1 if not normalized else 0, N + 1):
            if n == N:
                continue
            ctx.close(r[n], np.eye(r[n].shape[0]), tol, what + ": right orthonormality", note="n=%d" % n)
        other = l
    else:
        for n in range(1, N + 1 if normalized else N):
            ctx.close(l[n], np.eye(l[n].shape[0]), tol, what + ": left orthonormality", note="n=%d" % n)
        other = r
    sc = max(1., abs(l[N]).max())
    if normalized:
        ctx.close(l[N], np.eye(1), tol, what + ": norm")
    if diag:
        for n in range(N + 1):
            ctx.close(other[n] - np.diag(np.diag(other[n])), 0 * other[n], tol, what + ": diagonal environment", scale=sc)


@st.composite
def restore_case(draw):
    c = draw(gens.chain(kinds=("gauss", "real", "decay", "deficient", "product", "scaled"), **CH))
    excess = draw(st.booleans())
    if excess:
        c["D"] = [1] + draw(st.lists(st.integers(1, 7), min_size=c["N"] - 1, max_size=c["N"] - 1)) + [1]
    return dict(c=c, excess=excess, form=draw(st.sampled_from(["right", "left"])), normalize=draw(st.booleans()),
                diag=draw(st.sampled_from([True, True, False])), upd=draw(st.booleans()), checks=draw(st.booleans()))


def load(c, As=None):
    import evoMPS.mps_gen as mg
    As = gens.tensors(c) if As is None else As
    s = mg.EvoMPS_MPS_Generic(c["N"], [1] * (c["N"] + 1), [0] + list(c["q"]))
    s.set_state_from_tensors([None] + [A.copy() for A in As], do_update=False)
    return s, As


def call_restore(s, form, use_QR, normalize, diag):
    if form == "right":
        s.restore_RCF(use_QR=use_QR, diag_l=diag, normalize_mps=normalize)
    else:
        s.restore_LCF(use_QR=use_QR, diag_r=diag, normalize_mps=normalize)


@facet("P02", restore_case(), quick=450, shards=3, rule=RULE)
def restore_qr(c, ctx):
    """QR route (the default): any rank, any scale, redundant bonds."""
    s, As = load(c["c"])
    psi = dense.vec(As)
    nrm = np.linalg.norm(psi.ravel())
    ctx.nontrivial(c["c"]["N"] > 1 and max(c["c"]["D"]) > 1)
    s.canonical_form = c["form"]
    s.sanity_checks = c["checks"]
    if c["diag"] and c["upd"]:
        s.update(normalize=c["normalize"])
    else:
        call_restore(s, c["form"], True, c["normalize"], c["diag"])
    now, l, r = check_envs(s, ctx, 1e-11, "restore")
    got = dense.vec(now)
    want = psi / nrm if c["normalize"] else psi
    ctx.close(got * dense.gauge_phase(want, got), want, 1e-10, "state vector", scale=np.linalg.norm(want.ravel()))
    # environments of an unnormalised state scale with the squared norm
    check_canonical(now, l, r, c["form"], ctx, c["normalize"], c["diag"], 1e-11, "restore")
    mb = gens.maxbond(c["c"]["q"])
    if c["form"] == "right":
        lim = [1] + [min(c["c"]["D"][n], int(np.prod(c["c"]["q"][n:])), mb[n] if False else 10 ** 9) for n in range(1, s.N + 1)]
        ctx.check(all(s.D[n] <= lim[n] for n in range(1, s.N + 1)), "redundant bond dimension kept: %r > %r" % (list(s.D), lim))
    else:
        lim = [min(c["c"]["D"][n], int(np.prod(c["c"]["q"][:n]))) for n in range(0, s.N + 1)]
        ctx.check(all(s.D[n] <= lim[n] for n in range(0, s.N)), "redundant bond dimension kept: %r > %r" % (list(s.D), lim))
    # repeating changes nothing
    D0 = list(s.D)
    call_restore(s, c["form"], True, c["normalize"], c["diag"])
    now2, l2, r2 = check_envs(s, ctx, 1e-11, "second restore")
    got2 = dense.vec(now2)
    ctx.close(got2 * dense.gauge_phase(got, got2), got, 1e-10, "state vector after repeating", scale=np.linalg.norm(got.ravel()))
    ctx.check(list(s.D) == D0, "bond dimensions changed when repeating the restoration")
    check_canonical(now2, l2, r2, c["form"], ctx, c["normalize"], c["diag"], 1e-11, "second restore")


@facet("P02", restore_case(), quick=300, rule=RULE)
def restore_noqr(c, ctx):
    """Non-QR route, full-rank states."""
    if c["excess"] or c["c"]["kind"] in ("deficient", "product"):
        c = dict(c, c=dict(c["c"], D=gens.fix_bonds(c["c"]["D"], c["c"]["q"]), kind="gauss"))
    s, As = load(c["c"])
    psi = dense.vec(As)
    nrm = np.linalg.norm(psi.ravel())
    l, r = dense.envs(As)
    cond = max(np.linalg.cond(x) for x in (r if c["form"] == "right" else l))
    if cond > 1e7:
        raise Skip("bond matrices too badly conditioned for the explicit-inverse route")
    ctx.nontrivial(c["c"]["N"] > 1 and max(c["c"]["D"]) > 1)
    s.canonical_form = c["form"]
    call_restore(s, c["form"], False, c["normalize"], c["diag"])
    now, l, r = check_envs(s, ctx, 1e-14 * max(1e3, cond), "restore")
    got = dense.vec(now)
    want = psi / nrm if c["normalize"] else psi
    ctx.close(got * dense.gauge_phase(want, got), want, 1e-10, "state vector", scale=np.linalg.norm(want.ravel()))
    check_canonical(now, l, r, c["form"], ctx, c["normalize"], c["diag"], 1e-14 * max(1e3, cond), "restore")


@st.composite
def history(draw):
    c = draw(gens.chain(kinds=("gauss", "real", "decay", "deficient", "product", "scaled"), **CH))
    ops = draw(st.lists(st.tuples(st.sampled_from(["update", "update_plain", "RCF", "LCF", "switch", "renorm", "gauge", "scale",
                                                   "noise0", "trunc", "calc", "noise"]),
                                  st.booleans(), st.booleans(), st.integers(0, 10 ** 6)), min_size=2, max_size=8))
    return dict(c=c, form=draw(st.sampled_from(["right", "left"])), ops=[list(o) for o in ops])


@facet("P02", history(), quick=300, shards=3, rule=RULE + "; the history has at least two operations")
def histories(c, ctx):
    """Any order of refreshes, form switches, renormalisations, gauge changes: the represented vector is tracked."""
    s, As = load(c["c"])
    psi = dense.vec(As)
    psi = psi / np.linalg.norm(psi.ravel())
    s.canonical_form = c["form"]
    s.update()
    ctx.nontrivial(c["c"]["N"] > 1 and max(c["c"]["D"]) > 1)
    for k, (op, a, b, seed) in enumerate(c["ops"]):
        r_ = gens.rng(seed, "h")
        canon = None
        if op == "update":
            s.update(restore_CF=True, normalize=a)
            canon = s.canonical_form
            if a:
                psi = psi / np.linalg.norm(psi.ravel())
            normalized = a
        elif op == "update_plain":
            s.update(restore_CF=False, normalize=a)
            if a:
                psi = psi / np.linalg.norm(psi.ravel())
        elif op in ("RCF", "LCF"):
            f = "right" if op == "RCF" else "left"
            call_restore(s, f, True, a, b)
            canon = f
            if a:
                psi = psi / np.linalg.norm(psi.ravel())
            normalized = a
        elif op == "switch":
            s.canonical_form = "left" if s.canonical_form == "right" else "right"
            s.restore_CF(normalize=a)
            canon = s.canonical_form
            if a:
                psi = psi / np.linalg.norm(psi.ravel())
            normalized = a
        elif op == "renorm":
            s.calc_l()
            s.calc_r()
            s.simple_renorm(update_r=True)
            psi = psi / np.linalg.norm(psi.ravel())
        elif op == "gauge":
            for n in range(1, s.N):
                G = gens.rand_unitary(r_, s.D[n]).dot(np.diag(r_.uniform(.5, 2, s.D[n])))
                Gi = np.linalg.inv(G)
                s.A[n] = np.array([x.dot(Gi) for x in s.A[n]])
                s.A[n + 1] = np.array([G.dot(x) for x in s.A[n + 1]])
            s.calc_l()
            s.calc_r()
        elif op == "scale":
            f = 10 ** r_.uniform(-1, 1) * np.exp(1j * r_.uniform(0, 6))
            n = 1 + seed % s.N
            s.A[n] = s.A[n] * f
            psi = psi * f
            s.calc_l()
            s.calc_r()
        elif op == "noise0":
            s.add_noise(0., do_update=a)
            if a:
                psi = psi / np.linalg.norm(psi.ravel())
                canon = s.canonical_form
                normalized = True
        elif op == "noise":
            s.add_noise(0.1, do_update=False)
            psi = dense.state_vec(s)
            s.update(restore_CF=a)
            psi = psi / np.linalg.norm(psi.ravel())
        elif op == "trunc":
            s.update(restore_CF=True, normalize=True, auto_truncate=True, restore_CF_after_trunc=a)
            psi = psi / np.linalg.norm(psi.ravel())
        elif op == "calc":
            s.calc_l()
            s.calc_r()
        what = "after %s (%d)" % (op, k)
        now, l, r = check_envs(s, ctx, 1e-10 if op != "trunc" else 1e-9, what)
        got = dense.vec(now)
        # automatic truncation may drop weights up to 1e-15, i.e. amplitudes up to 3e-8 per bond
        ctx.close(got * dense.gauge_phase(psi, got), psi, 3e-7 if op == "trunc" else 1e-9, what + ": state vector",
                  scale=np.linalg.norm(psi.ravel()))
        psi = got if op == "trunc" else psi * dense.gauge_phase(got, psi)
        if canon:
            check_canonical(now, l, r, canon, ctx, normalized, False, 1e-10, what)


@facet("P02", restore_case(), quick=200, rule=RULE + "; some bond is rank deficient")
def restore_noqr_deficient(c, ctx):
    """Non-QR route on rank-deficient states: the state survives, and the stored form stays finite and consistent in shape."""
    c["c"]["kind"] = "deficient" if c["c"]["kind"] != "product" else "product"
    if c["excess"]:
        c = dict(c, c=dict(c["c"], D=gens.fix_bonds(c["c"]["D"], c["c"]["q"])))
    s, As = load(c["c"])
    psi = dense.vec(As)
    nrm = np.linalg.norm(psi.ravel())
    s.canonical_form = c["form"]
    call_restore(s, c["form"], False, c["normalize"], c["diag"])
    ctx.nontrivial(c["c"]["N"] > 1 and max(c["c"]["D"]) > 1)
    got = dense.state_vec(s)
    want = psi / nrm if c["normalize"] else psi
    ctx.close(got * dense.gauge_phase(want, got), want, 1e-6, "state vector", scale=np.linalg.norm(want.ravel()))
