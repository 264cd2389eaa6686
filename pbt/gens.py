"""Strategies for small JSON cases, and the deterministic construction of arrays from them."""
import numpy as np
from hypothesis import strategies as st

seeds = st.integers(0, 10 ** 6)


def rng(seed, *salt):
    return np.random.RandomState([seed % (2 ** 31)] + [abs(hash_(x)) % (2 ** 31) for x in salt])


def hash_(x):
    h = 7
    for ch in str(x):
        h = (h * 131 + ord(ch)) % 2147483647
    return h


def cgauss(r, *shape):
    return (r.standard_normal(shape) + 1j * r.standard_normal(shape)) / np.sqrt(2)


def rand_unitary(r, d):
    q, t = np.linalg.qr(cgauss(r, d, d))
    return q * (np.diag(t) / abs(np.diag(t)))


def maxbond(q):
    """Largest useful bond dimensions of an open chain: q = [q1..qN] -> [D0..DN]."""
    N = len(q)
    D = [1] * (N + 1)
    for n in range(1, N + 1):
        D[n] = min(D[n - 1] * q[n - 1], 10 ** 6)
    D[N] = 1
    for n in range(N - 1, -1, -1):
        D[n] = min(D[n], D[n + 1] * q[n])
    return D


@st.composite
def chain(draw, minN=1, maxN=6, maxq=3, minq=2, maxD=6, maxdim=300, kinds=("gauss", "real", "decay", "deficient"),
          uniform_q=False, full=None):
    N = draw(st.integers(minN, maxN))
    if uniform_q:
        q = [draw(st.integers(minq, maxq))] * N
    else:
        q = draw(st.lists(st.integers(minq, maxq), min_size=N, max_size=N))
    while np.prod(q) > maxdim:                      # keep the dense model small
        i = int(np.argmax(q))
        if uniform_q or q[i] <= max(2, minq):
            q.pop()
            N -= 1
        else:
            q[i] -= 1
    D = [1] + draw(st.lists(st.integers(1, maxD), min_size=N - 1, max_size=N - 1)) + [1]
    mb = maxbond(q)
    isfull = draw(st.booleans()) if full is None else full
    if isfull:
        D = mb
    D = fix_bonds(D, q)
    return dict(N=N, q=q, D=D, kind=draw(st.sampled_from(list(kinds))), seed=draw(seeds))


def fix_bonds(D, q):
    D = list(D)
    N = len(q)
    D[0] = 1
    D[N] = 1
    for n in range(1, N + 1):
        D[n] = min(D[n], D[n - 1] * q[n - 1])
    for n in range(N - 1, -1, -1):
        D[n] = min(D[n], D[n + 1] * q[n])
    return D


def tensors(c):
    """Tensors of a chain case (0-based list)."""
    r = rng(c["seed"], "T")
    q, D, N = c["q"], c["D"], c["N"]
    As = []
    for n in range(N):
        sh = (q[n], D[n], D[n + 1])
        A = r.standard_normal(sh).astype(complex) if c["kind"] == "real" else cgauss(r, *sh)
        A /= np.sqrt(sh[0] * sh[1])
        As.append(A)
    if c["kind"] == "decay":                        # wide range of Schmidt values
        for n in range(1, N):
            w = 10. ** (-r.uniform(0, 2.5, D[n]))
            w[r.randint(D[n])] = 1.
            As[n] = w[None, :, None] * As[n]
    elif c["kind"] == "deficient":                  # exact rank deficiency on some bond
        ns = [n for n in range(1, N) if D[n] > 1]
        for n in ns:
            if r.rand() < .6 or len(ns) == 1:
                k = r.randint(1, D[n])
                P = cgauss(r, D[n], k).dot(cgauss(r, k, D[n])) / D[n]
                As[n] = np.einsum('ab,sbc->sac', P, As[n])
    elif c["kind"] == "product":
        for n in range(1, N):
            w = np.zeros(D[n])
            w[0] = 1
            As[n] = w[None, :, None] * As[n]
    elif c["kind"] == "ghz":                        # degenerate or widely spread diagonal spectra
        w = np.ones(max(D)) if r.rand() < .5 else 10. ** (-r.uniform(0, 2, max(D)))
        for n in range(N):
            As[n] = np.zeros((q[n], D[n], D[n + 1]), dtype=complex)
            for i in range(max(D[n], D[n + 1])):
                As[n][i % q[n], i % D[n], i % D[n + 1]] = (w[i] if n == 0 else 1.) * np.exp(1j * r.uniform(0, 6))
    elif c["kind"] == "scaled":
        for n in range(N):
            As[n] = As[n] * 10. ** r.uniform(-2, 2)
    return As


def herm(r, d, real=False):
    h = r.standard_normal((d, d)) if real else cgauss(r, d, d)
    return (h + h.conj().T) / 2.


def local_op(seed, qs, kind="complex", salt="op"):
    """A (possibly non-Hermitian) operator on sites of dimensions qs, indices bra.. ket.."""
    r = rng(seed, salt)
    d = int(np.prod(qs))
    if kind == "herm":
        o = herm(r, d)
    elif kind == "real":
        o = r.standard_normal((d, d))
    elif kind == "unitary":
        o = rand_unitary(r, d)
    elif kind == "sparse":
        o = np.zeros((d, d), dtype=complex)
        o[r.randint(d), r.randint(d)] = 1.
    else:
        o = cgauss(r, d, d)
    return o.reshape(list(qs) + list(qs))


op_kinds = st.sampled_from(["complex", "herm", "real", "unitary", "sparse"])


@st.composite
def finite_ham(draw, N, sites=None, allow_none=True):
    k = sites or draw(st.sampled_from([2, 3] if N >= 3 else [2]))
    M = N - k + 1
    none = draw(st.lists(st.sampled_from([False, False, False, True]), min_size=M, max_size=M)) if allow_none else [False] * M
    return dict(sites=k, none=none, hseed=draw(seeds), real=draw(st.booleans()))


def ham_terms(c, h):
    """-> (list for evoMPS: [None, h_1, ..., ], dense terms [(op, first site 0-based)])"""
    q, N, k = c["q"], c["N"], h["sites"]
    lst = [None]
    terms = []
    for n in range(1, N - k + 2):
        if h["none"][n - 1]:
            lst.append(None)
            continue
        r = rng(h["hseed"], "H", n)
        qs = q[n - 1:n - 1 + k]
        op = herm(r, int(np.prod(qs)), h["real"]).reshape(qs + qs)
        lst.append(op)
        terms.append((op, n - 1))
    return lst, terms


def ham_callable(lst):
    def f(n, *idx):
        if lst[n] is None:
            return 0.
        return lst[n][tuple(int(i) for i in idx)]
    return f
