"""P26: the optional compiled extensions compute what the Python code computes.

Every case runs in a separate process that imports the package with the extensions in place (see native.py), so that a crash
counts as a failure of the case."""
import importlib
import numpy as np
import scipy.linalg as la
from hypothesis import strategies as st
from .. import core, gens
from ..core import facet, Skip, Violation

variant = st.sampled_from(["c", "pyx"])

if not core.SERVING:
    from .. import native
    try:
        native.build()
    except native.BuildError as e:
        raise core.HarnessError("the extensions do not build: %s" % e)


def delegated(pid, name, case, variant, ctx):
    r = native.ask(variant, dict(property=pid, facet=name, case=case))
    for k, v in r.get("worst", {}).items():
        ctx.worst[k] = max(v, ctx.worst.get(k, -1))
    if r["status"] == "skip":
        raise Skip(r["message"])
    if r["status"] == "harness":
        raise core.HarnessError(r["message"])
    if r["status"] != "ok":
        raise Violation("%s, extensions built from %s: %s" % (
            name if pid == "P26" else pid + " " + name, "the C files" if variant == "c" else "the Cython sources", r["message"]))
    ctx.nontrivial(r["nontrivial"])


def compiled(strategy, **kw):
    """A facet whose body runs in a process using the compiled extensions."""
    def deco(fn):
        name = fn.__name__

        def outer(c, ctx):
            if core.SERVING:
                import evoMPS.matmul as mm
                for n in native_names:
                    m = importlib.import_module("evoMPS." + n)
                    if not m.__file__.endswith(".so"):
                        raise core.HarnessError("%s is not the compiled one" % n)
                return fn(c, ctx)
            return delegated("P26", name, c, c["v"], ctx)
        return facet("P26", strategy, name=name, case_timeout=60 if core.SERVING else 240, **kw)(outer)
    return deco


native_names = ("matmul", "core_common", "eps_maps_c", "tdvp_calc_C", "allclose")

# ---- arrays with a memory layout, surrounded by values that would spoil any result they enter

LAYOUTS = ["c", "c", "fenced", "fenced", "f", "strided", "reversed", "perm", "readonly"]


def lay(a, how, fences=None):
    """a copy of a in the given layout; 'fenced' is contiguous inside a larger array full of NaN"""
    if how == "f":
        return np.asfortranarray(a)
    if how == "strided":
        b = np.full(a.shape[:-1] + (2 * a.shape[-1],), np.nan + 0j)
        b[..., ::2] = a
        return b[..., ::2]
    if how == "reversed":
        return np.ascontiguousarray(a[..., ::-1])[..., ::-1]
    if how == "perm":
        p = list(range(a.ndim))[::-1]
        p = p[1:] + p[:1]
        return np.ascontiguousarray(a.transpose(p)).transpose(np.argsort(p))
    if how == "fenced":
        b = np.full(a.size + 64, np.nan + 1j * np.nan)
        b[32:32 + a.size] = a.ravel()
        if fences is not None:
            fences.append((b, a.size))
        return b[32:32 + a.size].reshape(a.shape)
    a = np.array(a, order="C")
    if how == "readonly":
        a = a.copy()
    return a


def fences_ok(fences, ctx):
    for b, n in fences:
        ctx.check(np.isnan(b[:32]).all() and np.isnan(b[32 + n:]).all(), "memory next to an array was overwritten")


def make_env(kind, r, m, n, layout, special=None):
    """(object, dense values) of an environment matrix"""
    import evoMPS.matmul as mm
    if kind == "eye" and m == n:
        return mm.eyemat(m, dtype=np.complex128), np.eye(m, dtype=complex)
    if kind == "diag" and m == n:
        d = gens.cgauss(r, m)
        if special == "positive":
            d = abs(d) + 0j
        if layout in ("strided", "reversed"):
            dd = lay(d, layout)
        else:
            dd = lay(d, "fenced" if layout == "fenced" else "c")
        return mm.simple_diag_matrix(dd, dtype=np.complex128), np.diag(d)
    x = gens.cgauss(r, m, n)
    return lay(x, layout), x


def values(x):
    return np.array(x.toarray() if hasattr(x, "toarray") else x)


dims = st.integers(1, 7)


@compiled(st.fixed_dictionaries(dict(
    v=variant, left=st.booleans(), inplace=st.booleans(), d=st.integers(1, 9), D=st.tuples(dims, dims, dims, dims), square=st.booleans(),
    env=st.sampled_from(["dense", "diag", "eye"]), same=st.booleans(), la=st.sampled_from(LAYOUTS), lb=st.sampled_from(LAYOUTS),
    lx=st.sampled_from(LAYOUTS), threads=st.integers(1, 8), lo=st.sampled_from(["c", "fenced"]), old=st.sampled_from(["garbage", "nan"]),
    big=st.sampled_from([1, 1, 1, 4]), mod=st.sampled_from(["eps_maps_c", "eps_maps_c", "core_common"]), seed=gens.seeds)),
    quick=2600, thorough=40000, shards=4, rule="more than one physical index and some bond dimension above one")
def transfer(c, ctx):
    import pbt_helper
    m = importlib.import_module("evoMPS." + c["mod"])
    r = gens.rng(c["seed"], "e")
    a, b, a2, b2 = [k * c["big"] for k in c["D"]]
    if c["square"] or c["env"] != "dense":
        if c["left"]:
            a2 = a
        else:
            b2 = b
    d = c["d"]
    same = c["same"] and (a, b) == (a2, b2)
    F = []
    A = gens.cgauss(r, d, a, b)
    B = A if same else gens.cgauss(r, d, a2, b2)
    A_ = lay(A, c["la"], F)
    B_ = A_ if same else lay(B, c["lb"], F)
    m1, n1 = (a, a2) if c["left"] else (b, b2)
    x_, x = make_env(c["env"], r, m1, n1, c["lx"])
    if c["left"]:
        want = np.einsum('sab,ac,scd->bd', A.conj(), x, B)
    else:
        want = np.einsum('sab,bc,sdc->ad', A, x, B.conj())
    f = getattr(m, "eps_%s_noop%s" % ("l" if c["left"] else "r", "_inplace" if c["inplace"] else ""))
    pbt_helper.threads(c["threads"])
    try:
        if c["inplace"]:
            out0 = gens.cgauss(r, *want.shape) * 1e6
            if c["old"] == "nan":
                out0[:] = np.nan
            out = lay(out0, c["lo"], F)
            got = f(x_, A_, B_, out)
            ctx.check(got is out, "the result is not the array that was handed in")
        else:
            got = f(x_, A_, B_)
            again = f(x_, A_, B_)
            ctx.check(again is not got and not np.shares_memory(again, got), "two results share memory")
    finally:
        pbt_helper.threads(1)
    sc = np.sqrt(d * a * b) * np.sqrt(a2 * b2) * max(1., abs(x).max())
    ctx.close(got, want, 1e-12, "transfer map", scale=max(1., sc))
    ctx.check(np.array_equal(np.asarray(A_), A) and np.array_equal(np.asarray(B_), B) and np.array_equal(values(x_), x), "an argument was modified")
    fences_ok(F, ctx)
    ctx.nontrivial(d > 1 and max(a, b, a2, b2) > 1)


LOCAL = ["eps_l_op_1s", "eps_r_op_1s", "eps_r_op_2s_A", "eps_r_op_2s_AA12", "eps_r_op_2s_AA_func_op", "eps_r_op_2s_C12", "eps_r_op_2s_C34",
         "calc_AA", "calc_AAA", "calc_AAA_AA", "calc_AAA_AAr", "calc_C_func_op", "calc_C_func_op_AA", "eps_r_noop_multi", "eps_l_op_MPO", "eps_r_op_MPO"]


@compiled(st.fixed_dictionaries(dict(
    v=variant, fn=st.sampled_from(LOCAL), q=st.tuples(*[st.integers(1, 4)] * 3), D=st.tuples(*[st.integers(1, 5)] * 4),
    E=st.tuples(*[st.integers(1, 5)] * 4), env=st.sampled_from(["dense", "dense", "diag", "eye"]), lay=st.tuples(*[st.sampled_from(LAYOUTS)] * 4),
    sparse=st.booleans(), cut=st.integers(0, 3), M=st.tuples(st.integers(1, 3), st.integers(1, 3)), seed=gens.seeds)),
    quick=1800, thorough=30000, shards=3, rule="more than one physical index and some bond dimension above one")
def local(c, ctx):
    import evoMPS.core_common as cc
    r = gens.rng(c["seed"], "L")
    q1, q2, q3 = c["q"]
    D = list(c["D"])
    E = list(c["E"])
    fn = c["fn"]
    n = 1 if "1s" in fn or "MPO" in fn else 2
    if c["env"] != "dense":
        if "_l_" in fn:
            E[0] = D[0]
        else:
            E[n] = D[n]
            if fn == "eps_r_noop_multi":
                E[3] = D[3]
    q = c["q"]
    F = []
    A = [gens.cgauss(r, q[k], D[k], D[k + 1]) for k in range(3)]
    B = [gens.cgauss(r, q[k], E[k], E[k + 1]) for k in range(3)]
    A_ = [lay(a, h, F) for a, h in zip(A, c["lay"])]
    B_ = [lay(b, h, F) for b, h in zip(B, c["lay"][::-1])]

    def op(*sh):
        o = gens.cgauss(r, *sh)
        if c["sparse"]:
            o[r.uniform(size=o.shape) < .6] = 0
        return o

    def call(o):
        return lambda s, t, u, v: o[s, t, u, v]
    AA = np.einsum('sab,tbc->stac', A[0], A[1])
    BB = np.einsum('sab,tbc->stac', B[0], B[1])
    args = []
    if fn == "calc_AA":
        got, want = cc.calc_AA(A_[0], A_[1]), AA
    elif fn == "calc_AAA":
        got, want = cc.calc_AAA(*A_), np.einsum('stac,ucd->stuad', AA, A[2])
    elif fn == "calc_AAA_AA":
        got, want = cc.calc_AAA_AA(lay(AA, c["lay"][0]), A_[2]), np.einsum('stac,ucd->stuad', AA, A[2])
    elif fn == "calc_AAA_AAr":
        X = np.einsum('sab,tbc->stac', A[1], A[2])
        got, want = cc.calc_AAA_AAr(A_[0], lay(X, c["lay"][1])), np.einsum('sab,tubc->stuac', A[0], X)
    elif fn == "calc_C_func_op":
        o = op(q1, q2, q1, q2)
        got, want = cc.calc_C_func_op(call(o), A_[0], A_[1]), np.einsum('stuv,uvab->stab', o, AA)
    elif fn == "calc_C_func_op_AA":
        o = op(q1, q2, q1, q2)
        got, want = cc.calc_C_func_op_AA(call(o), lay(AA, c["lay"][0], F)), np.einsum('stuv,uvab->stab', o, AA)
    elif fn == "eps_r_noop_multi":
        x_, x = make_env(c["env"], r, D[3], E[3], c["lay"][3])
        cut = c["cut"]
        if cut == 0:
            a1, a2 = A_, B_
        elif cut == 1:
            a1, a2 = [lay(AA, c["lay"][0]), A_[2]], B_
        elif cut == 2:
            a1, a2 = A_, [B_[0], np.einsum('sab,tbc->stac', B[1], B[2])]
        else:
            a1, a2 = [np.einsum('stac,ucd->stuad', AA, A[2])], [BB, B_[2]]
        got = cc.eps_r_noop_multi(x_, list(a1), list(a2))
        want = np.einsum('stac,ucd,dD,stAC,uCD->aA', AA, A[2], x, BB.conj(), B[2].conj())
    elif "MPO" in fn:
        M1, M2 = c["M"]
        o = op(M1, M2, q1, q1)
        if "_l_" in fn:
            x = gens.cgauss(r, M1, D[0], E[0])
            got = cc.eps_l_op_MPO(x, A_[0], B_[0], o)
            want = np.einsum('tac,mab,mnst,sbd->ncd', A[0].conj(), x, o.conj(), B[0])
        else:
            x = gens.cgauss(r, M2, D[1], E[1])
            got = cc.eps_r_op_MPO(x, A_[0], B_[0], o)
            want = np.einsum('tac,ncd,mnst,sbd->mab', A[0], x, o, B[0].conj())
    elif n == 1:
        o = op(q1, q1)
        if "_l_" in fn:
            x_, x = make_env(c["env"], r, D[0], E[0], c["lay"][3])
            got = cc.eps_l_op_1s(x_, A_[0], B_[0], o)
            want = np.einsum('sab,ac,tcd,ts->bd', A[0].conj(), x, B[0], o.conj())
        else:
            x_, x = make_env(c["env"], r, D[1], E[1], c["lay"][3])
            got = cc.eps_r_op_1s(x_, A_[0], B_[0], o)
            want = np.einsum('tab,bc,sdc,st->ad', A[0], x, B[0].conj(), o)
    else:
        x_, x = make_env(c["env"], r, D[2], E[2], c["lay"][3])
        o = op(q1, q2, q1, q2)
        C = np.einsum('stuv,uvab->stab', o, AA)
        want = np.einsum('stab,bc,stdc->ad', C, x, BB.conj())
        if fn == "eps_r_op_2s_A":
            got = cc.eps_r_op_2s_A(x_, A_[0], A_[1], B_[0], B_[1], o)
        elif fn == "eps_r_op_2s_AA12":
            got = cc.eps_r_op_2s_AA12(x_, lay(AA, c["lay"][0], F), B_[0], B_[1], o)
        elif fn == "eps_r_op_2s_AA_func_op":
            got = cc.eps_r_op_2s_AA_func_op(x_, lay(AA, c["lay"][0], F), lay(BB, c["lay"][1], F), call(o))
        elif fn == "eps_r_op_2s_C12":
            got = cc.eps_r_op_2s_C12(x_, lay(C, c["lay"][0], F), B_[0], B_[1])
        else:
            C34 = np.einsum('stuv,uvab->stab', o, BB)
            got = cc.eps_r_op_2s_C34(x_, A_[0], A_[1], lay(C34, c["lay"][0], F))
            want = np.einsum('stab,bc,stdc->ad', AA, x, C34.conj())
    ctx.close(got, want, 1e-11, fn, scale=max(1., abs(want).max(), np.prod(q) * max(D + E)))
    for a_, a in zip(A_ + B_, A + B):
        ctx.check(np.array_equal(a_, a), "%s modified an argument" % fn)
    fences_ok(F, ctx)
    ctx.nontrivial(max(q[:n]) > 1 and max(D) > 1)


@compiled(st.fixed_dictionaries(dict(
    v=variant, q=st.tuples(st.integers(1, 5), st.integers(1, 5)), D=st.tuples(dims, dims), kind=st.sampled_from(["dense", "sparse", "zero", "tiny"]),
    out=st.sampled_from(["none", "garbage", "nan", "fenced"]), fenced=st.booleans(), seed=gens.seeds)),
    quick=1500, thorough=15000, shards=2, rule="two sites of more than one state and some bond dimension above one")
def pointer_hamiltonian(c, ctx):
    import pbt_helper
    from evoMPS.tdvp_calc_C import calc_C
    r = gens.rng(c["seed"], "h")
    q1, q2 = c["q"]
    h = gens.cgauss(r, q1, q2, q1, q2)
    if c["kind"] == "sparse":
        h[r.uniform(size=h.shape) < .7] = 0
    elif c["kind"] == "zero":
        h[:] = 0
    elif c["kind"] == "tiny":
        h *= 1e-14
    F = []
    AA = gens.cgauss(r, q1, q2, *c["D"])
    AA_ = lay(AA, "fenced" if c["fenced"] else "c", F)
    pbt_helper.set_table(np.ascontiguousarray(h).tobytes(), q1, q2)
    out = None
    if c["out"] != "none":
        out = lay(np.full(AA.shape, np.nan + 0j) if c["out"] == "nan" else 1e8 * gens.cgauss(r, *AA.shape),
                  "fenced" if c["out"] == "fenced" else "c", F)
    got = calc_C(AA_, pbt_helper.capsule(), out)
    ctx.check(out is None or got is out, "the result is not the array that was handed in")
    ctx.close(got, np.einsum('stuv,uvab->stab', h, AA), 1e-13, "h applied through a function pointer",
              scale=max(1e-300, abs(h).max()) * q1 * q2 * max(1, abs(AA).max()))
    ctx.check(np.array_equal(AA_, AA), "an argument was modified")
    fences_ok(F, ctx)
    if c["out"] == "none":
        got[...] = 0
        ctx.check(np.array_equal(AA_, AA), "the result shares memory with the argument")
    ctx.nontrivial(min(q1, q2) > 1 and max(c["D"]) > 1)


@compiled(st.fixed_dictionaries(dict(
    v=variant, sh=st.tuples(dims, dims), rtol=st.sampled_from([0., 1e-13, 1e-5, .5, 2.]), atol=st.sampled_from([0., 1e-13, 1e-8, .1]),
    scale=st.sampled_from([1., 1., 1e-9, 1e9]), kind=st.sampled_from(["same", "near", "over", "one", "other", "phase"]), at=st.tuples(dims, dims),
    eps=st.floats(.3, 3.), seed=gens.seeds)), quick=1500, thorough=15000, shards=1, rule="more than one entry and the matrices differ")
def closeness(c, ctx):
    from evoMPS.allclose import allclose_mat
    r = gens.rng(c["seed"], "c")
    B = gens.cgauss(r, *c["sh"]) * c["scale"]
    A = B.copy()
    i, j = c["at"][0] % c["sh"][0], c["at"][1] % c["sh"][1]
    u = np.exp(2j * np.pi * r.uniform(size=B.shape))
    lim = c["atol"] + c["rtol"] * abs(B)
    k = c["kind"]
    if k == "near":
        A += lim * u * .99
    elif k == "over":
        A += lim * u * .99
        A[i, j] = B[i, j] + lim[i, j] * u[i, j] * 1.01
    elif k == "one":
        A[i, j] += lim[i, j] * u[i, j] * c["eps"]
    elif k == "other":
        A = gens.cgauss(r, *c["sh"]) * c["scale"]
    elif k == "phase":
        A = B * np.exp(1j * c["eps"])
    d = abs(A - B)
    if np.any(abs(d - lim) < 1e-6 * lim + 1e-15 * abs(B)) and not np.array_equal(A, B):
        raise Skip("on the boundary of the tolerance")
    a0, b0 = A.copy(), B.copy()
    got = allclose_mat(A, B, c["rtol"], c["atol"])
    ctx.check(bool(got) == bool(np.all(d <= lim)), "allclose_mat says %s; the largest excess over the tolerance is %.3g" % (got, (d - lim).max()))
    ctx.check(np.array_equal(A, a0) and np.array_equal(B, b0), "an argument was modified")
    ctx.nontrivial(A.size > 1 and k != "same")


@compiled(st.fixed_dictionaries(dict(
    v=variant, fn=st.sampled_from(["mmul", "mmul", "dot_inplace", "mmul_diag", "H", "adot", "adot_noconj", "sqrtmh", "invmh", "invtr"]),
    kinds=st.lists(st.sampled_from(["dense", "dense", "diag", "eye"]), min_size=1, max_size=5), D=st.lists(dims, min_size=6, max_size=6),
    lay=st.lists(st.sampled_from(LAYOUTS), min_size=5, max_size=5), flag=st.booleans(), given=st.booleans(), seed=gens.seeds)),
    quick=1300, thorough=20000, shards=2, rule="some dimension above one")
def matrices(c, ctx):
    import evoMPS.matmul as mm
    r = gens.rng(c["seed"], "m")
    D, fn, F = list(c["D"]), c["fn"], []
    L0 = c["lay"][0]
    if fn == "mmul":
        for k, kd in enumerate(c["kinds"]):
            if kd != "dense":
                D[k + 1] = D[k]
        X = [make_env(kd, r, D[k], D[k + 1], c["lay"][k]) for k, kd in enumerate(c["kinds"])]
        got = mm.mmul(*[x_ for x_, x in X])
        want = np.eye(D[0])
        for x_, x in X:
            want = want.dot(x)
        ctx.close(values(got), want, 1e-11, fn, scale=max(1., np.prod([np.linalg.norm(x) for _, x in X])))
        for x_, x in X:
            ctx.check(np.array_equal(values(x_), x), "mmul modified an argument")
    elif fn == "dot_inplace":
        k0, k1 = (c["kinds"] + ["dense"])[:2]
        if k0 != "dense" and k1 != "dense":
            k1 = "dense"
        if k0 != "dense":
            D[1] = D[0]
        if k1 != "dense":
            D[2] = D[1]
        (a_, a), (b_, b) = make_env(k0, r, D[0], D[1], L0), make_env(k1, r, D[1], D[2], c["lay"][1])
        out = lay(np.full((D[0], D[2]), np.nan + 0j), "fenced", F)
        got = mm.dot_inplace(a_, b_, out)
        ctx.close(got, a.dot(b), 1e-12, fn, scale=max(1., np.linalg.norm(a) * np.linalg.norm(b)))
        ctx.close(out, a.dot(b), 1e-12, fn, scale=max(1., np.linalg.norm(a) * np.linalg.norm(b)))
    elif fn == "mmul_diag":
        d = gens.cgauss(r, D[0])
        b = gens.cgauss(r, *((D[0], D[1]) if c["flag"] else (D[1], D[0])))
        want = np.diag(d).dot(b) if c["flag"] else b.dot(np.diag(d))
        out = lay(np.full(b.shape, np.nan + 0j), "fenced", F) if c["given"] else None
        got = mm.mmul_diag(d, lay(b, L0), act_right=c["flag"], out=out)
        ctx.close(got, want, 1e-12, fn)
        ctx.close(got if out is None else out, want, 1e-12, fn)
    elif fn == "H":
        a = gens.cgauss(r, D[0], D[1])
        out = np.full((D[1], D[0]), np.nan + 0j) if c["given"] else None
        a_ = lay(a, L0)
        ctx.close(mm.H(a_, out) if c["given"] else mm.H(a_), a.conj().T, 0., fn)
        ctx.check(np.array_equal(a_, a), "H modified its argument")
    elif fn in ("adot", "adot_noconj"):
        a, b = gens.cgauss(r, D[0], D[1]), gens.cgauss(r, *((D[0], D[1]) if fn == "adot" else (D[1], D[0])))
        want = np.trace((a.conj().T if fn == "adot" else a).dot(b))
        ctx.close(getattr(mm, fn)(lay(a, L0), lay(b, c["lay"][1])), want, 1e-12, fn, scale=max(1., a.size))
    elif fn in ("sqrtmh", "invmh"):
        u = gens.rand_unitary(r, D[0])
        w = r.uniform(.3, 2., D[0]) * (1 if fn == "sqrtmh" or not c["flag"] else r.choice([-1, 1], D[0]))
        a = (u * w).dot(u.conj().T)
        a = (a + a.conj().T) / 2
        f = getattr(mm, fn)
        want = (u * (np.sqrt(w) if fn == "sqrtmh" else 1. / w)).dot(u.conj().T)
        got = f(lay(a, L0), evd=(w, u)) if c["given"] else f(lay(a, L0))
        ctx.close(got, want, 1e-11, fn, scale=5.)
        got2, (ev, EV) = f(lay(a, L0), ret_evd=True)
        ctx.close(got2, want, 1e-11, fn, scale=5.)
        ctx.close((EV * ev).dot(EV.conj().T), want, 1e-11, fn + ": eigen-decomposition", scale=5.)
    else:
        a = gens.cgauss(r, D[0], D[0]) * .5 + 2 * np.eye(D[0])
        a = np.tril(a) if c["flag"] else np.triu(a)
        a_ = lay(a, L0)
        got = mm.invtr(a_, lower=c["flag"])
        ctx.close(got, la.inv(a), 1e-9, fn, scale=max(1., abs(la.inv(a)).max()))
        ctx.check(np.array_equal(a_, a), "invtr modified its argument")
    fences_ok(F, ctx)
    ctx.nontrivial(max(D[:2]) > 1)


# ---- whole computations: facets of the other properties, run with the extensions in place

WHOLE = [("P01", "one_site"), ("P01", "two_point"), ("P01", "inner"), ("P02", "restore_qr"), ("P02", "histories"), ("P03", "truncate_many"),
         ("P04", "histories"), ("P05", "energies"), ("P05", "histories"), ("P06", "direction"), ("P07", "exact_when_full"), ("P07", "variants"),
         ("P09", "expand"), ("P10", "sweeps"), ("P14", "solve"), ("P15", "update"), ("P15", "histories"), ("P16", "local"), ("P16", "correlations"), ("P17", "enlarge"),
         ("P18", "energy"), ("P18", "direction"), ("P19", "euler"), ("P20", "overlaps"), ("P21", "trivial"), ("P22", "reported"),
         ("P22", "histories"), ("P23", "direction"), ("P23", "euler"), ("P24", "options")]


def _facets():
    for pid in sorted({p for p, _ in WHOLE}):
        importlib.import_module("pbt.props." + pid.lower())
    return [f for p, n in WHOLE for f in core.REG[p] if f.name == n]


def whole_case():
    fs = _facets()
    return st.integers(0, len(fs) - 1).flatmap(lambda i: st.fixed_dictionaries(dict(
        v=variant, property=st.just(fs[i].pid), facet=st.just(fs[i].name), case=fs[i].strategy)))


if not core.SERVING:
    @facet("P26", whole_case(), quick=1000, thorough=15000, shards=8, rule="as stated for the facet that is run", case_timeout=240)
    def whole(c, ctx):
        delegated(c["property"], c["facet"], c["case"], c["v"], ctx)
