"""Cases and a dense model of infinite states with a nonuniform window between two uniform bulks."""
import numpy as np
import scipy.linalg as la
from hypothesis import strategies as st
from .core import Skip
from . import gens, dense, uniform as un


class Sand(object):
    """left bulk cell (ending left of site 1), window tensors of sites 1..N, right bulk cell (starting on site N + 1)."""

    def __init__(self, left, window, right):
        self.a, self.b = un.Inf(left), un.Inf(right)
        self.W = [np.asarray(w, dtype=complex) for w in window]
        self.N = len(self.W)
        self.q = self.a.q
        # left environment of site k <= 1 and right environment of site k >= N are those of the bulks
        v = self.a.l[-1].ravel()
        self.ls = {0: v}
        for n in range(1, self.N + 1):
            v = v.dot(dense.tm([self.W[n - 1]]))
            self.ls[n] = v
        v = self.b.r[-1].ravel()
        self.rs = {self.N: v}
        for n in range(self.N, 0, -1):
            v = dense.tm([self.W[n - 1]]).dot(v)
            self.rs[n - 1] = v
        self.norm = self.ls[0].dot(self.rs[0])

    def A(self, n):
        if n < 1:
            return self.a.As[(n - 1) % self.a.L]
        if n > self.N:
            return self.b.As[(n - self.N - 1) % self.b.L]
        return self.W[n - 1]

    def l(self, n):
        """left environment of everything up to site n (row vector)"""
        if n < 1:
            return self.a.l[(n - 1) % self.a.L].ravel()
        if n <= self.N:
            return self.ls[n]
        if n not in self.ls:
            self.ls[n] = self.l(n - 1).dot(dense.tm([self.A(n)]))
        return self.ls[n]

    def r(self, n):
        """right environment of everything right of site n (column vector)"""
        if n >= self.N:
            return self.b.r[(n - self.N - 1) % self.b.L].ravel()
        if n >= 0:
            return self.rs[n]
        if n not in self.rs:
            self.rs[n] = dense.tm([self.A(n + 1)]).dot(self.r(n + 1))
        return self.rs[n]

    def string(self, ops, k):
        v = self.l(k - 1)
        for j, o in enumerate(ops):
            v = v.dot(dense.tm_op(self.A(k + j), np.eye(self.q) if o is None else o))
        return v.dot(self.r(k + len(ops) - 1)) / self.norm

    def expect(self, op, k, n):
        return self.l(k - 1).dot(dense.tm_ops([self.A(k + j) for j in range(n)], op)).dot(self.r(k + n - 1)) / self.norm

    def rho(self, k, n):
        """rho[ket, bra] of sites k..k+n-1"""
        M = un.blockten([self.A(k + j) for j in range(n)])
        D, E = M.shape[1:]
        return np.einsum('ac,sab,bd,tcd->st', self.l(k - 1).reshape(D, D), M, self.r(k + n - 1).reshape(E, E), M.conj(),
                         optimize=True) / self.norm

    def schmidt_sq(self, n):
        l, r = self.l(n), self.r(n)
        D = int(round(np.sqrt(l.size)))
        w = la.eigvals(r.reshape(D, D).dot(l.reshape(D, D).T)).real / self.norm.real
        return np.sort(np.maximum(w, 0))[::-1]

    def cond(self):
        c = max(self.a.cond(), self.b.cond())
        for n in range(0, self.N + 1):
            for x in (self.l(n), self.r(n)):
                D = int(round(np.sqrt(x.size)))
                x = x.reshape(D, D)
                w = abs(la.eigvalsh((x + x.conj().T) / 2))
                c = max(c, w.max() / max(w.min(), 1e-300))
        return c


@st.composite
def case(draw, maxD=3, maxN=5, maxL=2, maxq=3, minN=1, kinds=("gauss", "gauss", "real", "positive", "near"), same_D=None):
    q = draw(st.integers(2, maxq))
    N = draw(st.integers(minN, maxN))
    c = dict(q=q, N=N, DL=draw(st.integers(1, maxD)), LL=draw(st.sampled_from(list(range(1, maxL + 1)))),
             LR=draw(st.sampled_from(list(range(1, maxL + 1)))), DR=draw(st.integers(1, maxD)),
             kind=draw(st.sampled_from(list(kinds))), window=draw(st.sampled_from(["random", "random", "perturbed", "bulk"])),
             dims=draw(st.lists(st.integers(1, 4), min_size=max(N - 1, 0), max_size=max(N - 1, 0))),
             right=draw(st.sampled_from(["same", "same", "other"])), seed=draw(gens.seeds))
    return c


def tensors(c):
    """(left cell, window, right cell)"""
    r = gens.rng(c["seed"], "S")
    q, N = c["q"], c["N"]
    left = un.tensors(dict(D=c["DL"], q=q, L=c["LL"], kind=c["kind"], seed=c["seed"]))
    if c["right"] == "same":
        right = [A.copy() for A in left]
    else:
        right = un.tensors(dict(D=c["DR"], q=q, L=c["LR"], kind=c["kind"], seed=c["seed"] + 7))
    if c["window"] != "random" and c["right"] == "same":
        f = un.Inf(left)
        W = [f.As[j % f.L].copy() for j in range(N)]
        if c["window"] == "perturbed":
            W = [w + .3 * abs(w).max() * gens.cgauss(r, *w.shape) for w in W]
        return left, W, right
    DL, DR = left[0].shape[1], right[0].shape[1]
    d = [DL] + list(c["dims"]) + [DR]
    for i in range(1, N):
        d[i] = min(d[i], d[i - 1] * q)
    for i in range(N - 1, 0, -1):
        d[i] = min(d[i], d[i + 1] * q)
    W = [gens.cgauss(r, q, d[i], d[i + 1]) for i in range(N)]
    return left, W, right


def wellposed(m, gap=.05, smin=1e-3, cond=1e5):
    un.wellposed(m.a, gap=gap, smin=smin)
    un.wellposed(m.b, gap=gap, smin=smin)
    for n in range(m.N + 1):
        s = np.sqrt(m.schmidt_sq(n))
        if s[-1] < smin * s[0]:
            raise Skip("tiny Schmidt coefficient")
    if m.cond() > cond:
        raise Skip("ill-conditioned environments")


def model_of(s):
    return Sand([np.array(A) for A in s.uni_l.A], [np.array(s.A[n]) for n in range(1, s.N + 1)], [np.array(A) for A in s.uni_r.A])


# ---------------------------------------------------------------- Hamiltonians
def psqrt(x):
    w, v = la.eigh((x + x.conj().T) / 2)
    w = np.sqrt(np.maximum(w, 0))
    return (v * w).dot(v.conj().T), (v / w).dot(v.conj().T)


class Window(object):
    """The Hamiltonian of the infinite chain restricted to variations of the window tensors: an ordinary finite chain
    (left bond space) x q^N x (right bond space) with orthonormal boundary bases.
    terms: function n -> array, for n from 2 - k to N; hl, hr: bulk Hamiltonians (k sites each)."""

    def __init__(self, m, hl, hr, terms, k):
        self.m, self.k = m, k
        N, q = m.N, m.q
        el, er = un.Envs(m.a, hl, k), un.Envs(m.b, hr, k)
        self.el, self.er = el, er
        DL, DR = m.a.D[0], m.b.D[0]
        l, r = m.l(0).reshape(DL, DL), m.r(N).reshape(DR, DR)            # [ket, bra]
        dims = [DL] + [q] * N + [DR]
        d = int(np.prod(dims))
        self.dims = dims
        Iq = np.eye(q ** N)

        def op(Lm, P, Rm):      # indices [ket, bra] on the bonds, P[bra, ket] in the middle -> matrix (bra, ket)
            return np.einsum('ax,st,by->xsyatb', Lm, P, Rm).reshape(d, d)
        # terms outside the window, without the bulks' own constants
        F = op(el.KL[-1].reshape(DL, DL), Iq, r) + op(l, Iq, er.KR[0].reshape(DR, DR))
        self.shift = sum(el.e[(n - 1) % m.a.L] for n in range(2 - k, N + 1))
        self.terms = {}
        for n in range(2 - k, N + 1):
            h = np.asarray(terms(n)).reshape(q ** k, q ** k)
            lo, hi = min(n, 1), max(n + k - 1, N)
            nl, nr = 1 - lo, hi - N
            H = np.kron(np.kron(np.eye(q ** (n - lo)), h), np.eye(q ** (hi - n - k + 1)))
            H = H.reshape(q ** nl, q ** N, q ** nr, q ** nl, q ** N, q ** nr)
            lb = m.l(lo - 1)
            D = int(round(np.sqrt(lb.size)))
            PL = un.blockten([m.A(j) for j in range(lo, 1)]) if nl else np.eye(DL)[None]
            PR = un.blockten([m.A(j) for j in range(N + 1, hi + 1)]) if nr else np.eye(DR)[None]
            rb = m.r(hi)
            E = int(round(np.sqrt(rb.size)))
            X = np.einsum('cd,ica,jdx->iajx', lb.reshape(D, D), PL, PL.conj(), optimize=True)       # left: ket i, a; bra j, x
            Y = np.einsum('cd,ibc,jyd->ibjy', rb.reshape(E, E), PR, PR.conj(), optimize=True)
            F = F + np.einsum('iajx,jsnitm,mbny->xsyatb', X, H, Y, optimize=True).reshape(d, d)
        F = F - self.shift * op(l, Iq, r)       # energies count from the left bulk's local values
        self.H = self.orth(F, l, r, Iq)

    def orth(self, F, l, r, Iq):
        a, ai = psqrt(l.T)
        b, bi = psqrt(r.T)
        self.gl, self.gr = a, b
        T = np.kron(np.kron(ai, Iq), bi)
        H = T.dot(F).dot(T)
        self.herm = abs(H - H.conj().T).max()
        return (H + H.conj().T) / 2

    def chain(self, W):
        """Window tensors as a finite chain with the boundary spaces as first and last site."""
        DL, DR = self.dims[0], self.dims[-1]
        first = self.gl.reshape(DL, 1, DL)
        last = self.gr.reshape(DR, DR, 1)
        return [first] + [np.asarray(w) for w in W] + [last]

    def vec(self, W):
        return dense.vec(self.chain(W))

    def tvec(self, W, B):
        return dense.tangent_vec(self.chain(W), [None] + list(B) + [None])

    def jac(self, W):
        C = self.chain(W)
        return np.concatenate([dense.tangent_columns(C, n) for n in range(1, len(C) - 1)], axis=1)

    def energy(self, psi):
        x = psi.ravel()
        return np.vdot(x, self.H.dot(x)).real / np.vdot(x, x).real

    def direction(self, W):
        """Projection of (H - <H>) psi on the variations of the window tensors."""
        x = self.vec(W)
        v = x.ravel()
        Hx = self.H.dot(v)
        return self.project(W, (Hx - np.vdot(v, Hx).real / np.vdot(v, v).real * v).reshape(x.shape))

    def project(self, W, v, tol=1e-9):
        U, s, _ = la.svd(self.jac(W), full_matrices=False)
        U = U[:, s > tol * s[0]]
        return U.dot(U.conj().T.dot(v.ravel())).reshape(v.shape)

    def flow(self, W, dtau, n):
        """-dW/dtau: a least-squares preimage of P (H - E) psi; classical Runge-Kutta with n substeps; returns tensors."""
        W = [np.array(w) for w in W]

        def f(W):
            x = self.vec(W).ravel()
            Hx = self.H.dot(x)
            v = Hx - np.vdot(x, Hx).real / np.vdot(x, x).real * x
            J = self.jac(W)
            d = -la.lstsq(J, v, cond=1e-8)[0]
            out, i = [], 0
            for w in W:
                out.append(d[i:i + w.size].reshape(w.shape))
                i += w.size
            return out
        h = dtau / n
        for _ in range(n):
            k1 = f(W)
            k2 = f([w + h / 2 * k for w, k in zip(W, k1)])
            k3 = f([w + h / 2 * k for w, k in zip(W, k2)])
            k4 = f([w + h * k for w, k in zip(W, k3)])
            W = [w + h / 6 * (a + 2 * b + 2 * c + d) for w, a, b, c, d in zip(W, k1, k2, k3, k4)]
        return W
