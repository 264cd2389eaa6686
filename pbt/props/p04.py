"""P04: building, modifying and saving finite-chain states."""
import os, io, shutil, tempfile
import numpy as np
from hypothesis import strategies as st
from ..core import facet, Skip
from .. import gens, dense, finite
from .p01 import rand_mpo, mpo_apply, fn_of
from .p02 import check_envs, load

CH = dict(minN=1, maxN=6, maxq=4, maxD=6, maxdim=200, kinds=("gauss", "real", "decay", "deficient", "product", "scaled"))
RULE = "more than one site"


def norm(x):
    return np.linalg.norm(np.ravel(x))


def compare(s, ctx, want, normalized, what, phase=True, tol=1e-10):
    now, l, r = check_envs(s, ctx, 1e-10, what) if normalized else (dense.mps_tensors(s), None, None)
    got = dense.vec(now)
    if normalized:
        want = want / norm(want)
    if phase and normalized:
        got = got * dense.gauge_phase(want, got)
    ctx.close(got, want, tol, what + ": state vector", scale=norm(want))


@facet("P04", st.fixed_dictionaries(dict(c=gens.chain(**CH), seed=gens.seeds, upd=st.booleans(), form=st.sampled_from(["right", "left"]),
                                         aslist=st.booleans())), quick=250, rule=RULE)
def product_state(c, ctx):
    import evoMPS.mps_gen as mg
    ch = c["c"]
    s = mg.EvoMPS_MPS_Generic(ch["N"], list(ch["D"]), [0] + ch["q"])
    s.canonical_form = c["form"]
    s.randomize()
    r_ = gens.rng(c["seed"], "psi")
    vs = [gens.cgauss(r_, q) for q in ch["q"]]
    want = np.ones(())
    for v in vs:
        want = np.multiply.outer(want, v)
    s.set_state_product([list(v) for v in vs] if c["aslist"] else vs, do_update=c["upd"])
    ctx.nontrivial(ch["N"] > 1)
    compare(s, ctx, want, c["upd"], "set_state_product")
    if not c["upd"]:
        s.update()
        compare(s, ctx, want, True, "set_state_product, then update")


@facet("P04", st.fixed_dictionaries(dict(c=gens.chain(**CH), D=st.lists(st.integers(1, 6), min_size=7, max_size=7), raw=st.booleans(),
                                         upd=st.booleans(), how=st.sampled_from(["set", "gen", "ctor"]),
                                         form=st.sampled_from(["right", "left"]))), quick=250, rule=RULE)
def from_tensors(c, ctx):
    import evoMPS.mps_gen as mg
    ch = dict(c["c"])
    N = ch["N"]
    if c["raw"]:                                      # bond dimensions above the useful maximum
        ch["D"] = [1] + c["D"][:N - 1] + [1]
    As = gens.tensors(ch)
    keep = [A.copy() for A in As]
    want = dense.vec(As)
    ctx.nontrivial(N > 1)
    if c["how"] == "gen":
        s = mg.mps_from_tensors_gen([None] + As, do_update=c["upd"])
    else:
        s = mg.EvoMPS_MPS_Generic(N, [1] + [2] * (N - 1) + [1], [0] + [2] * N)
        s.canonical_form = c["form"]
        s.set_state_from_tensors([None] + As, do_update=c["upd"])
    compare(s, ctx, want, c["upd"], "state from tensors")
    s.add_noise(1.)
    for a, b in zip(As, keep):
        ctx.check(np.array_equal(a, b), "the caller's tensors were modified")


@st.composite
def op_case(draw):
    return dict(c=draw(gens.chain(**CH)), op=draw(gens.op_kinds), seed=draw(gens.seeds), n=draw(st.integers(0, 20)), d=draw(st.integers(0, 20)),
                upd=draw(st.booleans()), callable=draw(st.booleans()), form=draw(st.sampled_from(["right", "left"])))


@facet("P04", op_case(), quick=250, rule=RULE)
def apply_1s(c, ctx):
    s, As = load(c["c"])
    s.canonical_form = c["form"]
    s.update()
    psi = dense.state_vec(s)
    n = 1 + c["n"] % s.N
    op = gens.local_op(c["seed"], [c["c"]["q"][n - 1]], c["op"])
    want = dense.apply_op(psi, op, [n - 1])
    ctx.nontrivial(s.N > 1)
    if norm(want) < 1e-4:
        raise Skip("operator annihilates the state")
    s.apply_op_1s(fn_of(op) if c["callable"] else op, n, do_update=c["upd"])
    compare(s, ctx, want, c["upd"], "apply_op_1s")
    if not c["upd"]:
        s.update()
        compare(s, ctx, want, True, "apply_op_1s, then update")
    other = load(c["c"])[0]
    try:
        other.apply_op_1s(op, 0)
    except ValueError:
        pass
    else:
        ctx.check(False, "applying an operator to site 0 was accepted")


@facet("P04", op_case(), quick=250, rule=RULE)
def apply_mpo(c, ctx):
    s, As = load(c["c"])
    s.canonical_form = c["form"]
    s.update()
    psi = dense.state_vec(s)
    q = c["c"]["q"]
    n = 1 + c["n"] % s.N
    d = 1 + c["d"] % (s.N - n + 1)
    W = rand_mpo(c["seed"], q[n - 1:n - 1 + d])
    want = mpo_apply(psi, W, n - 1)
    ctx.nontrivial(s.N > 1)
    s.apply_op_MPO(W, n, do_update=c["upd"])
    compare(s, ctx, want, c["upd"], "apply_op_MPO")
    if not c["upd"]:
        s.update()
        compare(s, ctx, want, True, "apply_op_MPO, then update")


@st.composite
def save_case(draw):
    return dict(c=draw(gens.chain(**CH)), D2=draw(st.lists(st.integers(1, 5), min_size=7, max_size=7)), obj=draw(st.booleans()),
                upd=draw(st.booleans()), tdvp=draw(st.booleans()), form=draw(st.sampled_from(["right", "left"])), before=draw(st.booleans()))


@facet("P04", save_case(), quick=200, rule=RULE)
def save_load(c, ctx):
    """Save, then load into another object of the same chain (with other bond dimensions)."""
    import evoMPS.mps_gen as mg
    import evoMPS.tdvp_gen as tg
    ch = c["c"]
    s, As = load(ch)
    s.canonical_form = c["form"]
    if c["before"]:
        s.update()
    want = dense.state_vec(s)
    D2 = [1] + c["D2"][:ch["N"] - 1] + [1]
    ctx.nontrivial(ch["N"] > 1)
    tmp = tempfile.mkdtemp(prefix="evomps-p04-")
    try:
        if c["obj"]:
            f = io.BytesIO()
            s.save_state(f)
            f.seek(0)
        else:
            f = os.path.join(tmp, "state.npy")
            s.save_state(f)
        if c["tdvp"] and ch["N"] > 1:
            lst, terms = gens.ham_terms(ch, dict(sites=2, none=[False] * ch["N"], hseed=1, real=True))
            t = tg.EvoMPS_TDVP_Generic(ch["N"], D2, [0] + ch["q"], lst, ham_sites=2)
            finite.set_form(t, c["form"])
        else:
            t = mg.EvoMPS_MPS_Generic(ch["N"], D2, [0] + ch["q"])
            t.canonical_form = c["form"]
        t.load_state(f, do_update=c["upd"])
        compare(t, ctx, want, c["upd"], "loaded state")
        if not c["upd"]:
            ctx.check([int(x) for x in t.D] == [A.shape[1] for A in dense.mps_tensors(s)] + [1], "bond dimensions of the loaded state")
        t.update()
        compare(t, ctx, want, True, "loaded state after update")
        got = dense.state_vec(s)
        ctx.close(got, want, 0, "saving must not change the state")
    finally:
        shutil.rmtree(tmp)


OPS = ["op", "mpo", "update", "noise0", "saveload", "product", "tensors", "unitary"]


@facet("P04", st.fixed_dictionaries(dict(c=gens.chain(**dict(CH, maxN=5, maxD=4, maxdim=110)), form=st.sampled_from(["right", "left"]),
                                         ops=st.lists(st.tuples(st.sampled_from(OPS), st.booleans(), gens.seeds).map(list), min_size=2, max_size=7))),
       quick=250, shards=3, rule="more than one site, at least two operations")
def histories(c, ctx):
    s, As = load(c["c"])
    q = c["c"]["q"]
    s.canonical_form = c["form"]
    s.update()
    psi = dense.state_vec(s)
    ctx.nontrivial(s.N > 1)
    for k, (op, a, seed) in enumerate(c["ops"]):
        r_ = gens.rng(seed, "ops")
        n = 1 + r_.randint(s.N)
        what = "step %d (%s)" % (k, op)
        if op in ("op", "unitary"):
            o = gens.local_op(seed, [q[n - 1]], "complex" if op == "op" else "unitary")
            if op == "op":
                o = o + 1.5 * np.eye(q[n - 1])
            s.apply_op_1s(o, n, do_update=a)
            psi = dense.apply_op(psi, o, [n - 1])
        elif op == "mpo":
            d = 1 + r_.randint(min(3, s.N - n + 1))
            if max(s.D) > 12:
                continue
            W = rand_mpo(seed, q[n - 1:n - 1 + d], 2)
            s.apply_op_MPO(W, n, do_update=a)
            psi = mpo_apply(psi, W, n - 1)
        elif op == "update":
            s.update(restore_CF=a)
            a = True
        elif op == "noise0":
            s.add_noise(0, do_update=a)
        elif op == "saveload":
            f = io.BytesIO()
            s.save_state(f)
            f.seek(0)
            s.load_state(f, do_update=a)
        elif op == "product":
            vs = [gens.cgauss(r_, x) for x in q]
            s.set_state_product(vs, do_update=a)
            psi = np.ones(())
            for v in vs:
                psi = np.multiply.outer(psi, v)
        elif op == "tensors":
            As2 = gens.tensors(dict(c["c"], seed=seed))
            s.set_state_from_tensors([None] + As2, do_update=a)
            psi = dense.vec(As2)
        if a:
            psi = psi / norm(psi)
            check_envs(s, ctx, 1e-9, what)
        got = dense.state_vec(s)
        if a:
            got = got * dense.gauge_phase(psi, got)
        ctx.close(got, psi, 1e-9, what + ": state vector", scale=norm(psi))
        psi = dense.state_vec(s)
