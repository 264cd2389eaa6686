"""P17: reshaping, aligning and saving uniform states is physically faithful."""
import os, shutil, tempfile
import numpy as np
import scipy.linalg as la
from hypothesis import strategies as st
from ..core import facet, Skip
from .. import gens, dense, uniform as un
from .p16 import asfun

KINDS = ("gauss", "gauss", "real", "positive", "decay", "near")


@st.composite
def base(draw, **kw):
    kw.setdefault("maxD", 4)
    kw.setdefault("kinds", KINDS)
    return dict(c=draw(un.cell(**kw)), symm=draw(st.booleans()), cf=draw(st.sampled_from([True, True, False])), tdvp=draw(st.booleans()),
                sites=draw(st.sampled_from([2, 2, 3])), hcall=draw(st.booleans()), seed=draw(gens.seeds))


def ham(c, q=None, what="ham"):
    q = q or c["c"]["q"]
    n = c["sites"]
    return gens.herm(gens.rng(c["seed"], what, q), q ** n).reshape([q] * (2 * n))


def cls_args(c, q=None):
    from evoMPS.mps_uniform import EvoMPS_MPS_Uniform
    from evoMPS.tdvp_uniform import EvoMPS_TDVP_Uniform
    if not c["tdvp"]:
        return EvoMPS_MPS_Uniform, ()
    h = ham(c, q)
    return EvoMPS_TDVP_Uniform, (asfun(h) if c["hcall"] else h, c["sites"])


def state(c, As=None):
    cc = c["c"]
    As = un.tensors(cc) if As is None else As
    inf = un.Inf(As)
    un.wellposed(inf, gap=.05, smin=1e-3)
    if inf.cond() > 1e5:
        raise Skip("ill-conditioned environments")
    cls, args = cls_args(c)
    s = un.make(cls, cc, As, c["symm"], "arpack", *args)
    s.update(restore_CF=c["cf"])
    return s, inf, max(1e-9, 1e-11 * inf.cond() / inf.gap)


def consistent(ctx, s, inf, t, what):
    """The state is usable as it is: stored environments fit the tensors and a local value comes out right."""
    un.check_same(ctx, un.Inf(s.A), inf, t, what)
    un.check_fixed(ctx, s, max(t, 1e-8), what)
    q = inf.q
    op = gens.local_op(1, [q] * 2)
    ctx.close(s.expect_2s(op, s.L - 1), inf.expect(op, s.L - 1, 2), max(t, 1e-8), what + ": expect_2s", scale=q ** 2)


@facet("P17", base(maxD=3, maxdim=27), quick=200, shards=2, rule="cell of at least two sites")
def blocked(c, ctx):
    """Turning the cell into one site."""
    s, inf, t = state(c)
    cc = c["c"]
    L, q = cc["L"], cc["q"]
    ctx.nontrivial(L > 1 and cc["D"] > 1)
    s.convert_to_TI_blocked()
    Q = q ** L
    ctx.check((s.L, s.q, s.D) == (1, Q, cc["D"]), "dimensions")
    M = inf.As[0]
    for A in inf.As[1:]:
        M = np.einsum('sab,tbc->stac', M, A).reshape(-1, M.shape[1], A.shape[2])
    new = un.Inf([M])
    un.check_same(ctx, un.Inf(s.A), new, t, "blocked")
    un.check_fixed(ctx, s, 1e-8, "blocked")
    if L > 1:
        un.check_form(ctx, s, 1e-7, "blocked")
    op = gens.local_op(c["seed"], [Q], "complex")
    ctx.close(s.expect_1s(op), inf.expect(op.reshape([q] * (2 * L)), 0, L), t, "blocked: expectation value", scale=Q)
    if c["tdvp"]:
        h = ham(c)
        e = sum(inf.expect(h, k, c["sites"]) for k in range(L))
        ctx.close(s.h_expect, e, 10 * t, "blocked: energy per cell", scale=L * abs(h).max() * q)
        ctx.close(s.expect_2s(s.ham) if not callable(s.ham) and s.ham_sites == 2 else e, e, 10 * t, "blocked: energy from the stored Hamiltonian", scale=L * abs(h).max() * q)


@facet("P17", base(maxD=3, minD=1), quick=200, shards=2, rule="bond dimension really enlarged")
def enlarge(c, ctx):
    """Enlarging the bond dimension: without noise nothing changes, with noise only the content does."""
    s, inf, t = state(c)
    D = c["c"]["D"]
    r = gens.rng(c["seed"], "D")
    newD = D + r.randint(-1, 4)
    noise = r.rand() < .3
    ctx.nontrivial(newD > D)
    A0 = [np.array(a) for a in s.A]
    res = s.expand_D(newD, refac=.5 if noise else 0, imfac=.5 if noise else 0)
    if newD < D:
        ctx.check(not res and s.D == D and all(np.array_equal(a, b) for a, b in zip(A0, s.A)), "shrinking with expand_D")
        return
    ctx.check(s.D == newD and all(a.shape == (s.q, newD, newD) for a in s.A), "dimensions")
    for k in range(s.L):
        ctx.check(np.array_equal(s.A[k][:, :D, :D], A0[k]), "original block of the tensors changed")
    if not noise:
        un.check_same(ctx, un.Inf(s.A), inf, 1e-9, "expand_D")
        s.zero_tol = 1e-9
        s.update()
        ctx.check(s.D == newD, "dimensions after a refresh")
        un.check_same(ctx, un.Inf(s.A), inf, 1e-6, "expand_D, update")
        un.check_fixed(ctx, s, 1e-6, "expand_D, update")
        s.update(auto_truncate=True)
        ctx.check(s.D == D, "automatic truncation gives D = %d instead of %d" % (s.D, D))
        consistent(ctx, s, inf, 1e-6, "truncated again")
    else:
        new = un.Inf(s.A)
        un.wellposed(new, gap=.05, smin=1e-3)
        if new.cond() > 1e5:
            raise Skip("ill-conditioned environments")
        s.update()
        un.check_same(ctx, un.Inf(s.A), new, 1e-7, "noisy expand_D, update")


@facet("P17", base(), quick=200, shards=2, rule="dimension really changed")
def site_dim(c, ctx):
    """Enlarging and shrinking the site dimension."""
    s, inf, t = state(c)
    q = c["c"]["q"]
    r = gens.rng(c["seed"], "q")
    off = r.randint(0, 3)
    newq = q + off + r.randint(0, 2)
    ctx.nontrivial(newq > q)
    A0 = [np.array(a) for a in s.A]
    s.set_q(newq, offset=off)
    ctx.check(s.q == newq and all(a.shape == (newq,) + A0[0].shape[1:] for a in s.A), "dimensions")
    want = []
    for a in inf.As:
        b = np.zeros((newq,) + a.shape[1:], complex)
        b[off:off + q] = a
        want.append(b)
    wi = un.Inf(want)
    un.check_same(ctx, un.Inf(s.A), wi, t, "set_q")
    un.check_fixed(ctx, s, 1e-8, "set_q")
    if c["tdvp"]:
        h = ham(c, newq)
        s.set_ham(asfun(h) if c["hcall"] else h, c["sites"])
    s.update()
    consistent(ctx, s, wi, 10 * t, "set_q, update")
    if c["tdvp"]:
        e = sum(wi.expect(h, k, c["sites"]) for k in range(s.L))
        ctx.close(s.h_expect, e / s.L if False else e / s.L, 1e-7, "energy density", scale=abs(h).max() * newq ** 2)
    s.set_q(q, offset=-off)
    ctx.check(s.q == q and s.A[0].shape[0] == q, "dimensions")
    un.check_same(ctx, un.Inf(s.A), inf, 10 * t, "set_q back")


@facet("P17", base(minD=2, maxD=5), quick=240, shards=2, rule="always")
def truncation(c, ctx):
    """Truncation keeps the largest Schmidt weights of every bond and nothing else."""
    c = dict(c, cf=True)
    s, inf, t = state(c)
    D = c["c"]["D"]
    newD = 1 + c["seed"] % (D - 1) if D > 2 else 1
    ctx.nontrivial(True)
    idx = []
    for k in range(s.L):
        w = (dense.arr(s.l[k]).diagonal() * dense.arr(s.r[k]).diagonal()).real
        o = np.argsort(w)[::-1]
        if w[o[newD - 1]] - w[o[newD]] < 1e-6:
            raise Skip("no definite weights to drop")
        idx.append(np.sort(o[:newD]))
    cut = [np.array(s.A[k])[np.ix_(range(s.q), idx[k - 1], idx[k])] for k in range(s.L)]
    E = dense.tm(cut)
    if abs(la.eigvals(E)).max() < 1e-8:
        raise Skip("truncated state vanishes")
    want = un.Inf(cut)
    un.wellposed(want, gap=.05, smin=1e-3)
    if want.cond() > 1e5:
        raise Skip("ill-conditioned environments")
    how = ["default", "no update"][c["seed"] % 2]
    if how == "default":
        s.truncate(newD)
    else:
        s.truncate(newD, update=False)
    ctx.check(s.D == newD and all(a.shape == (s.q, newD, newD) for a in s.A), "dimensions")
    un.check_same(ctx, un.Inf(s.A), want, 1e-7, "truncate")
    s.update()
    consistent(ctx, s, want, 1e-6, "truncate, update")
    un.check_form(ctx, s, 1e-6, "truncate, update")


@facet("P17", st.fixed_dictionaries(dict(c=un.cell(minD=2, maxD=4, kinds=("deficient", "deficient", "gauss")), symm=st.booleans(), tdvp=st.booleans(), sites=st.just(2), hcall=st.just(False),
                                         how=st.sampled_from(["update", "method", "norestore"]), seed=gens.seeds)), quick=200, shards=2, rule="some Schmidt weights vanish")
def auto(c, ctx):
    """Automatic truncation drops exactly the vanishing weights."""
    cc = c["c"]
    inf = un.Inf(un.tensors(cc))
    if inf.gap < .05:
        raise Skip("nearly degenerate transfer matrix")
    if cc["kind"] == "gauss":
        un.wellposed(inf, smin=1e-2)
    cls, args = cls_args(c)
    s = un.make(cls, cc, inf.As, c["symm"], "arpack", *args)
    s.zero_tol = 1e-9
    rank = max(int((inf.schmidt(k) > 1e-6).sum()) for k in range(inf.L))
    ctx.nontrivial(rank < cc["D"])
    if any(((x > 1e-6) & (x < 1e-3)).any() for x in [inf.schmidt(k) for k in range(inf.L)]):
        raise Skip("no clear distinction of vanishing weights")
    if c["how"] == "method":
        s.update()
        res = s.auto_truncate()
        ctx.check(bool(res) == (rank < cc["D"]), "auto_truncate reports %s" % res)
    else:
        s.update(auto_truncate=True, restore_CF_after_trunc=c["how"] == "update")
    ctx.check(s.D == rank, "D = %d after automatic truncation of a state of rank %d" % (s.D, rank))
    consistent(ctx, s, inf, 1e-6, "auto_truncate")


@facet("P17", base(), quick=200, shards=2, rule="bond dimension of at least two")
def one_site_op(c, ctx):
    """Applying a one-site operator (unitary or not) to one site of every cell."""
    s, inf, t = state(c)
    cc = c["c"]
    q, L = cc["q"], cc["L"]
    r = gens.rng(c["seed"], "o")
    k = r.randint(L)
    op = gens.rand_unitary(r, q) if r.rand() < .5 else np.eye(q) + .4 * gens.cgauss(r, q, q)
    ctx.nontrivial(cc["D"] > 1)
    Bs = [A.copy() for A in inf.As]
    Bs[k] = np.einsum('st,tab->sab', op, Bs[k])
    want = un.Inf(Bs)
    un.wellposed(want, gap=.05, smin=1e-3)
    if want.cond() > 1e5:
        raise Skip("ill-conditioned environments")
    f = asfun(op) if c["seed"] % 3 == 0 else op
    up = c["seed"] % 4 > 0
    if k == 0 and c["seed"] % 5 == 0:
        s.apply_op_1s(f, do_update=up)
    else:
        s.apply_op_1s(f, k, do_update=up)
    un.check_same(ctx, un.Inf(s.A), want, 10 * t, "apply_op_1s")
    if not up:
        s.update()
    consistent(ctx, s, want, max(10 * t, 1e-8), "apply_op_1s, update")


@st.composite
def acase(draw):
    return dict(c=draw(un.cell(maxD=4, kinds=KINDS)), symm=draw(st.booleans()), symm2=draw(st.booleans()), cf=draw(st.booleans()), cf2=draw(st.booleans()), L2=draw(st.integers(1, 3)),
                gauge=draw(st.sampled_from(["unitary", "general"])), phase=draw(st.booleans()), seed=draw(gens.seeds))


@facet("P17", acase(), quick=300, shards=2, rule="bond dimension of at least two and different gauges")
def align(c, ctx):
    """Gauge alignment with an equivalent state, phase alignment with any state."""
    from evoMPS.mps_uniform import EvoMPS_MPS_Uniform
    cc = c["c"]
    D, q, L = cc["D"], cc["q"], cc["L"]
    As = un.tensors(cc)
    inf = un.Inf(As)
    un.wellposed(inf, gap=.05, smin=1e-2)
    r = gens.rng(c["seed"], "g")
    g = [gens.rand_unitary(r, D) if c["gauge"] == "unitary" else gens.cgauss(r, D, D) + 2 * np.eye(D) for k in range(L)]
    if max(np.linalg.cond(x) for x in g) > 30 or inf.cond() > 1e4:
        raise Skip("ill-conditioned gauge transformation")
    Bs = [np.array([la.inv(g[k - 1]).dot(x).dot(g[k]) for x in A]) for k, A in enumerate(inf.As)]
    if c["phase"]:
        Bs[r.randint(L)] *= np.exp(1j * r.uniform(-3, 3))
    s = un.make(EvoMPS_MPS_Uniform, cc, inf.As, c["symm"])
    s.update(restore_CF=c["cf"])
    o = un.make(EvoMPS_MPS_Uniform, cc, Bs, c["symm2"])
    o.update(restore_CF=c["cf2"])
    if un.Inf(o.A).cond() > 1e7 or un.Inf(s.A).cond() > 1e7:
        raise Skip("ill-conditioned environments")
    ctx.nontrivial(D > 1)
    A0 = [np.array(a) for a in s.A]
    O0 = [np.array(a) for a in o.A]
    l0, r0 = [dense.arr(x) for x in s.l], [dense.arr(x) for x in s.r]
    res = s.gauge_align(o)
    ctx.check(res is not None, "equivalent states not recognised")
    G, Gi, phi = res
    t = 1e-6
    for k in range(L):
        ctx.check(np.array_equal(o.A[k], O0[k]), "the other state was changed")
        # every single tensor is defined only up to a scalar factor per bond; what counts is the cell with both bonds fixed
        ctx.close(s.A[k], O0[k], t, "aligned tensors", scale=abs(O0[k]).max())
        ctx.close(dense.arr(G[k]).dot(dense.arr(Gi[k])), np.eye(D), t, "g g^-1")
    ctx.close(abs(phi), 1., t, "phase factor")
    for k in range(L):
        want = np.array([dense.arr(Gi[k - 1]).dot(a).dot(dense.arr(G[k])) for a in A0[k]]) * (np.conj(phi) / abs(phi) if k == 0 else 1)
        ctx.close(s.A[k], want, t, "returned gauge transformation and phase", scale=abs(want).max())
        ctx.close(dense.arr(s.l[k]), dense.arr(G[k]).conj().T.dot(l0[k]).dot(dense.arr(G[k])), t, "transformed l")
        ctx.close(dense.arr(s.r[k]), dense.arr(Gi[k]).dot(r0[k]).dot(dense.arr(Gi[k]).conj().T), t, "transformed r")
    un.check_fixed(ctx, s, 1e-6, "gauge_align")
    un.check_same(ctx, un.Inf(s.A), inf, 1e-7, "gauge_align")
    # states that are not equivalent are left alone
    other = un.Inf(un.tensors(dict(cc, seed=cc["seed"] + 1, kind="gauss", L=c["L2"])))
    un.wellposed(other, gap=.05, smin=1e-3)
    w, Lc = un.fidelity(inf.As, other.As)
    p = un.make(EvoMPS_MPS_Uniform, None, other.As, c["symm"])
    p.update()
    if abs(abs(w) - 1) > 1e-3:
        keep = [np.array(a) for a in s.A]
        if c["L2"] == L:
            ctx.check(s.gauge_align(p) is None, "different states aligned")
            ctx.check(all(np.array_equal(a, b) for a, b in zip(keep, s.A)), "state changed although it could not be aligned")
        # phase alignment makes the overlap real and positive
        E = dense.tm(list(inf.As) * (Lc // L), list(other.As) * (Lc // c["L2"]))
        ev = la.eigvals(E)
        ev = ev[np.argsort(abs(ev))[::-1]]
        if abs(ev[0]) > 1e-3 and (ev.size == 1 or abs(ev[1]) < .98 * abs(ev[0])):
            s.phase_align(p)
            ctx.close(s.fidelity_per_site(p)[1], abs(ev[0]), 1e-7, "overlap after phase alignment")
            un.check_same(ctx, un.Inf(s.A), inf, 1e-7, "phase_align")
            un.check_fixed(ctx, s, 1e-6, "phase_align")


@st.composite
def savecase(draw):
    c = draw(base(maxD=4))
    c["tdvp"] = True
    c.update(ops=draw(st.lists(st.sampled_from(["file", "export", "from_file", "from_mps", "from_tensors", "step", "noise", "block", "expand", "shrinkD", "expandq", "shrinkq", "wrong"]), min_size=1, max_size=5)),
             user=draw(st.sampled_from([None, 3, "text", [1, 2.5]])))
    return c


@facet("P17", savecase(), quick=300, shards=4, rule="bond dimension of at least two and a save/load cycle")
def persistence(c, ctx):
    """Saving and loading in every way, among other operations; exports are snapshots."""
    from evoMPS.tdvp_uniform import EvoMPS_TDVP_Uniform as T
    from evoMPS.mps_uniform import EvoMPS_MPS_Uniform as M
    s, inf, t = state(c)
    cc = c["c"]
    h = ham(c)
    H = asfun(h) if c["hcall"] else h
    t = max(1e-7, 100 * t)
    for i, op in enumerate(c["ops"]):
        what = "%s (%d)" % (op, i)
        new = None
        if op in ("file", "export", "from_file", "expand", "expandq", "wrong", "shrinkD", "shrinkq"):
            ctx.nontrivial(cc["D"] > 1)
            snap = [np.array(a) for a in s.A]
            if op == "export":
                z = s.export_state(c["user"])
                f = None
            else:
                d = tempfile.mkdtemp(prefix="pbt")
                f = os.path.join(d, "state.npy")
                s.userdata = c["user"]
                s.save_state(f)
            try:
                q, D, L = s.q, s.D, s.L
                kw = {}
                a = [D, q, H, c["sites"], L]
                if op == "expand":
                    a[0] = D + 1 + c["seed"] % 2
                    kw = dict(expand=True, refac=0, imfac=0)
                elif op == "expandq":
                    a[1] = q + 1
                    a[2] = ham(c, q + 1)
                    kw = dict(expand_q=True)
                elif op == "shrinkD":
                    if D < 2:
                        continue
                    a[0] = D - 1
                    kw = dict(truncate=True)
                elif op == "shrinkq":
                    if q < 3:
                        continue
                    a[1] = q - 1
                    a[2] = ham(c, q - 1)
                    kw = dict(shrink_q=True)
                elif op == "wrong":
                    if c["seed"] % 3 == 0:
                        a[4] = L + 1
                    elif c["seed"] % 3 == 1:
                        a[0] = D + 1
                    else:
                        a[1] = q + 1
                        a[2] = ham(c, q + 1)
                if op == "from_file":
                    new = T.from_file(f, H, c["sites"])
                    ok = True
                else:
                    new = T(*a, do_update=False)
                    new.symm_gauge = s.symm_gauge
                    if op == "expand":
                        new.zero_tol = 1e-9
                    k0 = [np.array(x) for x in new.A]
                    ok = new.import_state(z) if f is None else new.load_state(f, **kw)
                if op == "wrong":
                    ctx.check(ok is False, "loading a state of other dimensions must be refused")
                    ctx.check(all(np.array_equal(x, y) for x, y in zip(k0, new.A)), "refused load changed the state")
                    continue
                ctx.check(ok is not False, what + ": loading refused")
                ctx.check((new.D, new.q, new.L) == (a[0], a[1], a[4]), what + ": dimensions")
                ctx.check(np.asarray(new.userdata).tolist() == c["user"], what + ": user data")
                ctx.check(all(np.array_equal(x, y) for x, y in zip(snap, s.A)), what + ": loading a copy changed the saved state")
                if op == "expand":
                    un.check_same(ctx, un.Inf(new.A), inf, 1e-6, what)
                    continue
                if op == "expandq":
                    w = un.Inf([np.concatenate([x, 0 * x[:1]]) for x in inf.As])
                    un.check_same(ctx, un.Inf(new.A), w, t, what)
                    e = sum(w.expect(a[2], k, c["sites"]) for k in range(L)) / L
                    ctx.close(new.h_expect, e, t, what + ": energy density", scale=10.)
                    continue
                if op in ("shrinkD", "shrinkq"):
                    un.check_fixed(ctx, new, 1e-6, what)
                    if op == "shrinkq":
                        w = un.Inf([x[:-1] for x in inf.As])
                        un.wellposed(w, gap=.05, smin=1e-3)
                        if w.cond() < 1e5:
                            un.check_same(ctx, un.Inf(new.A), w, 1e-6, what)
                    continue
            finally:
                if f is not None:
                    shutil.rmtree(d)
            # (the cell and gauge options belong to the object, not to the file)
            old = s
            s = new
            s.symm_gauge = old.symm_gauge
        elif op == "from_mps":
            b = un.make(M, cc, [np.array(a) for a in s.A], s.symm_gauge)
            b.update()
            old, s = s, T.from_mps(b, H, c["sites"])
            s.update()
            ctx.check(s.symm_gauge == b.symm_gauge, "option lost")
        elif op == "from_tensors":
            old, s = s, T.from_tensors([np.array(a) for a in s.A], H, c["sites"])
            un.check_fixed(ctx, s, 1e-7, what)
            s.update()
        elif op == "step":
            z = s.export_state()
            keep = [np.array(a) for a in (z[0] if s.L > 1 else [z[0]])]
            lk, rk = np.array(z[1]), np.array(z[2])
            s.take_step(.01)
            s.update()
            ctx.check(all(np.array_equal(x, y) for x, y in zip(keep, z[0] if s.L > 1 else [z[0]])) and np.array_equal(lk, z[1]) and np.array_equal(rk, z[2]), "an exported state changed later")
            inf = un.Inf(s.A)
        elif op == "noise":
            s.add_noise(.05)
            inf = un.Inf(s.A)
        elif op == "block":
            continue
        un.wellposed(inf, gap=.05, smin=1e-3)
        if inf.cond() > 1e5:
            raise Skip("ill-conditioned environments")
        consistent(ctx, s, inf, t, what)
        e = sum(inf.expect(h, k, c["sites"]) for k in range(s.L)) / s.L
        ctx.close(s.h_expect, e, t, what + ": energy density", scale=10.)
