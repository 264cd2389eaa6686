"""P05: energies of finite chains."""
import numpy as np
from hypothesis import strategies as st
from ..core import facet, Skip
from .. import gens, dense, finite

CH = dict(minN=2, maxN=6, maxq=3, maxD=6, maxdim=250, kinds=("gauss", "real", "decay", "deficient", "product"))
RULE = "some bond dimension above one and some non-zero Hamiltonian term"


@st.composite
def case(draw, **kw):
    c = draw(gens.chain(**dict(CH, **kw)))
    k = draw(st.sampled_from([2, 3] if c["N"] >= 3 else [2]))
    return dict(c=c, h=draw(gens.finite_ham(c["N"], sites=k)), callable=draw(st.booleans()),
                gf=draw(st.sampled_from(["right", "left"])), p=draw(finite.prep()), seed=draw(gens.seeds), infer=draw(st.booleans()))


def make(c, ctx):
    import evoMPS.tdvp_gen as tg
    ch, h = c["c"], c["h"]
    lst, terms = gens.ham_terms(ch, h)
    ham = gens.ham_callable(lst) if c["callable"] else lst
    hs = h["sites"]
    if c["infer"] and not c["callable"] and lst[1] is not None:
        hs = None                                   # the number of sites is read off the terms
    s = tg.EvoMPS_TDVP_Generic(ch["N"], list(ch["D"]), [0] + ch["q"], ham, ham_sites=hs)
    s.canonical_form = c["p"]["form"]
    s.gauge_fixing = c["gf"]
    for n, A in enumerate(gens.tensors(ch)):
        s.A[n + 1] = A
    s.update(restore_CF=c["p"]["restore"], normalize=c["p"]["normalize"])
    ctx.nontrivial(max(ch["D"]) > 1 and len(terms) > 0)
    return s, lst, terms


def verify(s, lst, terms, k, ctx, what="", gf=None, tol=1e-10):
    As = dense.mps_tensors(s)
    psi = dense.vec(As)
    nn = dense.ip(psi, psi).real
    by = {n: op for op, n in terms}
    sc = max(1., nn) * 10
    tot = 0
    for n in range(1, s.N - k + 2):
        e = 0
        if n - 1 in by:
            e = dense.ip(psi, dense.apply_op(psi, by[n - 1], list(range(n - 1, n - 1 + k))))
        ctx.close(s.h_expect[n], e, tol, what + "h_expect", scale=sc, note="n=%d of %d" % (n, s.N))
        tot += e
    ctx.close(s.H_expect, tot, tol, what + "H_expect", scale=sc * s.N)
    # energy environments: the terms inside n..N (right) or 1..n (left) between the stored tensors
    gf = gf or s.gauge_fixing
    q = [A.shape[0] for A in As]
    if gf == "right":
        R = np.ones((1, 1), dtype=complex)
        for n in range(s.N, 0, -1):
            R = np.einsum('sab,bp->asp', As[n - 1], R).reshape(As[n - 1].shape[1], -1)
            t = [(op, m - (n - 1)) for op, m in terms if m >= n - 1]
            H = dense.ham_matrix(q[n - 1:], t)
            want = R.dot(H.T).dot(R.conj().T)
            ctx.close(s.K[n], want, tol, what + "K", scale=max(sc, abs(want).max()), note="n=%d" % n)
    else:
        L = np.ones((1, 1), dtype=complex)
        for n in range(1, s.N + 1):
            L = np.einsum('pa,sab->psb', L, As[n - 1]).reshape(-1, As[n - 1].shape[2])
            t = [(op, m) for op, m in terms if m + op.ndim // 2 <= n]
            H = dense.ham_matrix(q[:n], t)
            want = L.conj().T.dot(H).dot(L)
            ctx.close(s.K[n], want, tol, what + "K (left)", scale=max(sc, abs(want).max()), note="n=%d" % n)
    return psi


@facet("P05", case(), quick=400, shards=3, rule=RULE)
def energies(c, ctx):
    s, lst, terms = make(c, ctx)
    verify(s, lst, terms, c["h"]["sites"], ctx)
    ctx.tag("%s/%s/%d" % (c["gf"], c["p"]["form"], c["h"]["sites"]))


@facet("P05", case(), quick=250, rule=RULE)
def term_expectations(c, ctx):
    """expect_2s / expect_3s on an object that has a Hamiltonian, for its own terms and for other operators."""
    s, lst, terms = make(c, ctx)
    psi = dense.state_vec(s)
    sc = 10 * max(1., dense.ip(psi, psi).real)
    q = c["c"]["q"]
    for k, f in ((2, s.expect_2s), (3, s.expect_3s)):
        for n in range(1, s.N - k + 2):
            sites = list(range(n - 1, n - 1 + k))
            op = gens.local_op(c["seed"], q[n - 1:n - 1 + k], "complex", n)
            ctx.close(f(op, n), dense.ip(psi, dense.apply_op(psi, op, sites)), 1e-10, "expect_%ds" % k, scale=sc)
            if k == c["h"]["sites"] and lst[n] is not None:
                ctx.close(f(lst[n], n), dense.ip(psi, dense.apply_op(psi, lst[n], sites)), 1e-10,
                          "expect_%ds of a Hamiltonian term" % k, scale=sc)


@st.composite
def history(draw):
    c = draw(case(maxN=5, maxdim=110, kinds=("gauss", "real", "decay")))
    c["ops"] = draw(st.lists(st.tuples(st.sampled_from(["step", "rstep", "rk4", "update", "plain", "quench", "noise", "op", "trunc", "swap", "randomize"]),
                                       st.booleans(), gens.seeds).map(list), min_size=2, max_size=6))
    return c


@facet("P05", history(), quick=200, shards=3, rule=RULE + "; at least two operations")
def histories(c, ctx):
    """Energies stay right along any history of steps, refreshes, form changes, quenches and edits."""
    c["gf"] = c["p"]["form"]
    s, lst, terms = make(c, ctx)
    k = c["h"]["sites"]
    for j, (op, a, seed) in enumerate(c["ops"]):
        r_ = gens.rng(seed, "h")
        restore = True
        if op == "step":
            s.take_step(0.01 * (1 + r_.rand()))
            restore = a
        elif op == "rstep":
            s.take_step(0.01j * (1 + r_.rand()))
            restore = a
        elif op == "rk4":
            s.take_step_RK4(0.02j)
            restore = a
        elif op == "plain":
            restore = False
        elif op == "quench":
            lst, terms = gens.ham_terms(c["c"], dict(c["h"], hseed=seed))
            s.ham = gens.ham_callable(lst) if a else lst
        elif op == "noise":
            s.add_noise(0.05, do_update=False)
        elif op == "op":
            n = 1 + r_.randint(s.N)
            s.apply_op_1s(np.eye(c["c"]["q"][n - 1]) * 1.5 + gens.local_op(seed, [c["c"]["q"][n - 1]], "complex"), n, do_update=False)
        elif op == "swap":
            finite.set_form(s, "left" if s.canonical_form == "right" else "right")
        elif op == "randomize":
            s.randomize(do_update=False)
        if op == "trunc":
            s.update(auto_truncate=True, restore_CF_after_trunc=a)
        else:
            s.update(restore_CF=restore)
        verify(s, lst, terms, k, ctx, "after %s (%d): " % (op, j), tol=1e-9)
        if not restore:
            s.update()
