"""P01: observables of finite chains against the state vector."""
import numpy as np
from hypothesis import strategies as st
from ..core import facet, Skip
from .. import gens, dense, finite

CH = dict(minN=1, maxN=6, maxq=4, maxD=6, maxdim=260)


def fn_of(op):
    def f(*idx):
        return op[tuple(int(i) for i in idx)]
    return f


def case(minN=1, **kw):
    k = dict(CH)
    k["minN"] = minN
    k.update(kw)
    return st.fixed_dictionaries(dict(
        c=gens.chain(**k), p=finite.prep(), op=gens.op_kinds, oseed=gens.seeds, callable=st.booleans(),
        a=st.integers(0, 50), b=st.integers(0, 50)))


def make(c, ctx):
    s = finite.plain(c["c"], c["p"])
    psi = dense.state_vec(s)
    ctx.nontrivial(c["c"]["N"] > 1 and max(c["c"]["D"]) > 1)
    return s, psi, max(1., dense.ip(psi, psi).real)


RULE = "more than one site and some bond dimension above one"


@facet("P01", case(), quick=400, rule=RULE)
def one_site(c, ctx):
    s, psi, sc = make(c, ctx)
    q = c["c"]["q"]
    for n in range(1, s.N + 1):
        op = gens.local_op(c["oseed"], [q[n - 1]], c["op"], n)
        got = s.expect_1s(fn_of(op) if c["callable"] else op, n)
        ctx.close(got, dense.ip(psi, dense.apply_op(psi, op, [n - 1])), 1e-10, "expect_1s", scale=sc * 10)
        rho = s.density_1s(n)
        want = np.tensordot(psi, psi.conj(), axes=[[i for i in range(s.N) if i != n - 1]] * 2)
        ctx.close(rho, want, 1e-10, "density_1s", scale=sc)
        ctx.close(np.trace(rho.dot(op)), got, 1e-10, "trace of density times operator", scale=sc * 10)


@facet("P01", case(minN=2), quick=300, rule=RULE)
def two_site(c, ctx):
    s, psi, sc = make(c, ctx)
    q = c["c"]["q"]
    if s.N < 2:
        raise Skip()
    for n in range(1, s.N):
        op = gens.local_op(c["oseed"], q[n - 1:n + 1], c["op"], n)
        got = s.expect_2s(fn_of(op) if c["callable"] else op, n)
        ctx.close(got, dense.ip(psi, dense.apply_op(psi, op, [n - 1, n])), 1e-10, "expect_2s", scale=sc * 10)
    import evoMPS.tdvp_common as tm
    n = 1 + c["a"] % (s.N - 1)
    op = gens.local_op(c["oseed"], q[n - 1:n + 1], c["op"], n)
    ctx.close(s.expect_2s(op, n, AA=tm.calc_AA(s.A[n], s.A[n + 1])),
              dense.ip(psi, dense.apply_op(psi, op, [n - 1, n])), 1e-10, "expect_2s with given product", scale=sc * 10)


@facet("P01", case(minN=3), quick=200, rule=RULE)
def three_site(c, ctx):
    s, psi, sc = make(c, ctx)
    q = c["c"]["q"]
    if s.N < 3:
        raise Skip()
    for n in range(1, s.N - 1):
        op = gens.local_op(c["oseed"], q[n - 1:n + 2], c["op"], n)
        got = s.expect_3s(fn_of(op) if c["callable"] and op.size < 800 else op, n)
        ctx.close(got, dense.ip(psi, dense.apply_op(psi, op, [n - 1, n, n + 1])), 1e-10, "expect_3s", scale=sc * 10)


@facet("P01", case(minN=2), quick=300, rule=RULE)
def density_two(c, ctx):
    s, psi, sc = make(c, ctx)
    if s.N < 2:
        raise Skip()
    n1 = 1 + c["a"] % (s.N - 1)
    n2 = n1 + 1 + c["b"] % (s.N - n1)
    q = c["c"]["q"]
    rho = s.density_2s(n1, n2)
    rest = [i for i in range(s.N) if i not in (n1 - 1, n2 - 1)]
    want = np.tensordot(psi, psi.conj(), axes=[rest, rest]).reshape(q[n1 - 1] * q[n2 - 1], -1)
    ctx.close(rho, want, 1e-10, "density_2s", scale=sc)
    ctx.tag(q[n1 - 1] != q[n2 - 1])


@facet("P01", case(minN=2, uniform_q=True), quick=300, rule=RULE)
def two_point(c, ctx):
    s, psi, sc = make(c, ctx)
    q = c["c"]["q"][0]
    n1 = 1 + c["a"] % s.N
    d = c["b"] % (s.N - n1 + 1)
    o1 = gens.local_op(c["oseed"], [q], c["op"], "x")
    o2 = o1 if c["oseed"] % 4 == 0 else gens.local_op(c["oseed"], [q], c["op"], "y")
    f1, f2 = (fn_of(o1), fn_of(o2)) if c["callable"] else (o1, o2)
    if o1 is o2:
        f2 = f1
    e1 = [dense.ip(psi, dense.apply_op(psi, o1, [n1 - 1 + j])) for j in range(d + 1)]
    e2 = [dense.ip(psi, dense.apply_op(psi, o2, [n1 - 1 + j])) for j in range(d + 1)]
    cf = [dense.ip(psi, dense.apply_op(psi, o1.dot(o2), [n1 - 1]))] + \
         [dense.ip(psi, dense.apply_op(dense.apply_op(psi, o2, [n1 - 1 + j]), o1, [n1 - 1])) for j in range(1, d + 1)]
    sc = 30 * sc * sc
    if d > 0:
        ctx.close(s.expect_1s_1s(f1, f2, n1, n1 + d), cf[-1], 1e-10, "expect_1s_1s", scale=sc)
    ctx.close(s.expect_1s_1s(f1, f2, n1, n1 + d, return_intermediates=True), cf, 1e-10, "expect_1s_1s intermediates", scale=sc)
    want = np.array(cf) - e1[0] * np.array(e2)
    ctx.close(s.correlation_1s_1s(f1, f2, n1, d), want, 1e-10, "correlation_1s_1s", scale=sc)
    ccf, x1, x2 = s.correlation_1s_1s(f1, f2, n1, d, return_exvals=True)
    ctx.close(ccf, want, 1e-10, "correlation_1s_1s", scale=sc)
    ctx.close(x1, e1, 1e-10, "correlation_1s_1s first expectation values", scale=sc)
    ctx.close(x2, e2, 1e-10, "correlation_1s_1s second expectation values", scale=sc)


@facet("P01", case(minN=2), quick=150, rule=RULE)
def two_point_mixed(c, ctx):
    """Different site dimensions: two operators of different size."""
    s, psi, sc = make(c, ctx)
    if s.N < 2:
        raise Skip()
    n1 = 1 + c["a"] % (s.N - 1)
    n2 = n1 + 1 + c["b"] % (s.N - n1)
    q = c["c"]["q"]
    o1 = gens.local_op(c["oseed"], [q[n1 - 1]], c["op"], "x")
    o2 = gens.local_op(c["oseed"], [q[n2 - 1]], c["op"], "y")
    f1, f2 = (fn_of(o1), fn_of(o2)) if c["callable"] else (o1, o2)
    ctx.close(s.expect_1s_1s(f1, f2, n1, n2),
              dense.ip(psi, dense.apply_op(dense.apply_op(psi, o2, [n2 - 1]), o1, [n1 - 1])), 1e-10,
              "expect_1s_1s", scale=30 * sc)


@facet("P01", case(minN=1, uniform_q=True), quick=200, rule=RULE)
def strings(c, ctx):
    s, psi, sc = make(c, ctx)
    q = c["c"]["q"][0]
    n = 1 + c["a"] % s.N
    d = 1 + c["b"] % (s.N - n + 1)
    op = gens.local_op(c["oseed"], [q], c["op"], "x")
    want = []
    x = psi
    for j in range(d):
        x = dense.apply_op(x, op, [n - 1 + j])
        want.append(dense.ip(psi, x))
    got = s.expect_string_1s(fn_of(op) if c["callable"] else op, n, d)
    ctx.close(got, want, 1e-9, "expect_string_1s", scale=sc * 5. ** d)


def rand_mpo(seed, qs, maxb=3):
    r = gens.rng(seed, "mpo")
    k = len(qs)
    b = [1] + [r.randint(1, maxb + 1) for _ in range(k - 1)] + [1]
    return [gens.cgauss(r, b[i], b[i + 1], qs[i], qs[i]) / np.sqrt(b[i]) for i in range(k)]


def mpo_apply(psi, mpo, n0):
    """Apply an MPO (tensors [mL,mR,bra,ket]) to a state tensor starting at leg n0."""
    out = psi[None]                                    # (m, legs...)
    for j, W in enumerate(mpo):
        ax = 1 + n0 + j
        out = np.moveaxis(np.tensordot(W, out, axes=([0, 3], [0, ax])), 1, ax)
    assert out.shape[0] == 1
    return out[0]


@facet("P01", case(minN=1), quick=250, rule=RULE)
def mpo(c, ctx):
    s, psi, sc = make(c, ctx)
    q = c["c"]["q"]
    n = 1 + c["a"] % s.N
    d = 1 + c["b"] % (s.N - n + 1)
    W = rand_mpo(c["oseed"], q[n - 1:n - 1 + d])
    want = dense.ip(psi, mpo_apply(psi, W, n - 1))
    ctx.close(s.expect_MPO(W, n), want, 1e-9, "expect_MPO", scale=sc * 3. ** d)


@st.composite
def pair(draw):
    c = draw(gens.chain(**CH))
    D2 = [1] + draw(st.lists(st.integers(1, 5), min_size=c["N"] - 1, max_size=c["N"] - 1)) + [1]
    c2 = dict(c, D=gens.fix_bonds(D2, c["q"]), seed=draw(gens.seeds), kind=draw(st.sampled_from(["gauss", "real", "deficient"])))
    return dict(c=c, c2=c2, p=draw(finite.prep()), p2=draw(finite.prep()), same=draw(st.booleans()))


@facet("P01", pair(), quick=250, rule=RULE)
def inner(c, ctx):
    s1 = finite.plain(c["c"], c["p"])
    s2 = finite.plain(c["c"] if c["same"] else c["c2"], c["p2"])
    p1, p2 = dense.state_vec(s1), dense.state_vec(s2)
    ctx.nontrivial(c["c"]["N"] > 1 and max(c["c"]["D"]) > 1)
    sc = max(1., np.linalg.norm(p1.ravel()) * np.linalg.norm(p2.ravel()))
    ctx.close(s1.inner(s2), dense.ip(p2, p1), 1e-10, "inner", scale=sc)
    ctx.close(s2.inner(s1), dense.ip(p1, p2), 1e-10, "inner", scale=sc)
    ctx.close(s1.inner(s1), dense.ip(p1, p1), 1e-10, "inner with itself", scale=sc)
