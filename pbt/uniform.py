"""Cases, construction and a dense model of infinite (block-)translation-invariant states."""
import numpy as np
import scipy.linalg as la
from hypothesis import strategies as st
from .core import Skip
from . import gens, dense


@st.composite
def cell(draw, maxD=6, maxq=3, maxL=3, minD=1, minq=2, kinds=("gauss", "gauss", "real", "positive", "decay", "product", "deficient"),
         maxdim=64):
    q = draw(st.integers(minq, maxq))
    L = draw(st.integers(1, maxL))
    while q ** max(L, 1) > maxdim and L > 1:
        L -= 1
    return dict(D=draw(st.integers(minD, maxD)), q=q, L=L, kind=draw(st.sampled_from(list(kinds))), seed=draw(gens.seeds))


def tensors(c):
    """Unit-cell tensors of a case (arbitrary gauge and norm)."""
    r = gens.rng(c["seed"], "U")
    D, q, L, k = c["D"], c["q"], c["L"], c["kind"]
    As = [gens.cgauss(r, q, D, D) for i in range(L)]
    if k == "real":
        As = [A.real.astype(complex) for A in As]
    elif k == "positive":
        As = [abs(A).astype(complex) for A in As]
    elif k == "decay":
        w = 10. ** (-r.uniform(0, 1.5, (L, D)))
        w[:, 0] = 1.
        As = [A * w[i][None, :, None] for i, A in enumerate(As)]
    elif k == "product":                        # one physical vector, rank one in the bond space
        for i in range(L):
            As[i] = .05 * As[i]
            As[i][:, 0, 0] += gens.cgauss(r, q)
    elif k == "deficient" and D > 1:            # the bond spaces are larger than needed
        d = r.randint(1, D)
        U = [gens.cgauss(r, D, D) for i in range(L)]
        for i in range(L):
            B = np.zeros((q, D, D), complex)
            B[:, :d, :d] = gens.cgauss(r, q, d, d)
            As[i] = np.array([la.inv(U[i - 1]).dot(b).dot(U[i]) for b in B])
    elif k == "near":                           # close to a product state: large gap
        for i in range(L):
            As[i] = .2 * As[i]
            As[i][:, 0, 0] += gens.cgauss(r, q)
    return As


class Inf(object):
    """The infinite state of a unit cell, by dense transfer matrices (tensors are rescaled to norm one)."""

    def __init__(self, As):
        As = [np.asarray(A, dtype=complex) for A in As]
        self.L = L = len(As)
        self.q = As[0].shape[0]
        E = dense.tm(As)
        w = la.eigvals(E)
        w = w[np.argsort(abs(w))[::-1]]
        self.spec = w / abs(w[0])
        self.norm = abs(w[0])                       # of the given tensors
        self.gap = 1. - (abs(self.spec[1]) if w.size > 1 else 0.)
        f = self.norm ** (-.5 / L)
        self.As = [A * f for A in As]
        self.D = [A.shape[1] for A in As]
        w0, l, r = dense.fixed_points(dense.tm(self.As))
        # positive representatives
        R = r.reshape(self.D[0], self.D[0])
        ph = np.trace(R) / abs(np.trace(R))
        R = R / ph
        Lm = (l * ph).reshape(self.D[0], self.D[0])        # row vector of the pairing sum_ij l_ij x_ij
        self.l, self.r = [None] * L, [None] * L             # r[k]: right of site k, l[k]: right of site k too
        self.r[L - 1] = R
        self.l[L - 1] = Lm
        for k in range(L - 1, 0, -1):
            self.r[k - 1] = np.einsum('sab,bc,sdc->ad', self.As[k], self.r[k], self.As[k].conj())
        for k in range(L - 1):
            self.l[k] = np.einsum('sab,ac,scd->bd', self.As[k], self.l[k - 1], self.As[k].conj())

    def cond(self):
        """Largest condition number of an environment in the gauge of the given tensors (amplifies rounding in canonical forms)."""
        c = 1.
        for k in range(self.L):
            for x in (self.l[k], self.r[k]):
                w = abs(la.eigvalsh((x + x.conj().T) / 2))
                c = max(c, w.max() / max(w.min(), 1e-300))
        return c

    def lmat(self, k):
        """Left fixed point as a positive matrix in the library's convention (sum_s A^dagger l A), <l|r> = 1."""
        return self.l[k % self.L].conj()

    def schmidt(self, k):
        """Schmidt coefficients at the bond right of site k, descending."""
        x = self.r[k % self.L].dot(self.l[k % self.L].T)
        w = la.eigvals(x).real
        return np.sqrt(np.maximum(np.sort(w)[::-1], 0))

    def sites(self, k, n):
        return [self.As[(k + j) % self.L] for j in range(n)]

    def expect(self, op, k, n):
        """Expectation value of an operator (op[bra.., ket..]) on n sites from site k on."""
        M = dense.tm_ops(self.sites(k, n), op)
        return self.l[(k - 1) % self.L].ravel().dot(M.dot(self.r[(k + n - 1) % self.L].ravel()))

    def string(self, ops, k):
        """Product of one-site operators on sites k, k+1, ... (None: identity)."""
        v = self.l[(k - 1) % self.L].ravel()
        for j, o in enumerate(ops):
            A = self.As[(k + j) % self.L]
            v = v.dot(dense.tm_op(A, np.eye(self.q) if o is None else o))
        return v.dot(self.r[(k + len(ops) - 1) % self.L].ravel())

    def rho(self, k, n):
        """Reduced density matrix of n sites from k on, rho[ket, bra]."""
        K = self.sites(k, n)
        M = K[0]
        for A in K[1:]:
            M = np.tensordot(M, A, (M.ndim - 1, 1))
            M = np.moveaxis(M, -2, M.ndim - 3)
        M = M.reshape(-1, M.shape[-2], M.shape[-1])
        return np.einsum('ac,sab,bd,tcd->st', self.l[(k - 1) % self.L], M, self.r[(k + n - 1) % self.L], M.conj())


def fidelity(As, Bs):
    """Largest mixed transfer eigenvalue over the common cell, both normalised: (value over the common cell, its length)."""
    L1, L2 = len(As), len(Bs)
    L = L1 * L2 // np.gcd(L1, L2)
    a, b = Inf(As), Inf(Bs)
    E = dense.tm(list(a.As) * (L // L1), list(b.As) * (L // L2))
    w = la.eigvals(E)
    return w[abs(w).argmax()], L


def wellposed(inf, gap=.03, smin=1e-4, deficient=False):
    """Stay away from degenerate transfer matrices and (unless wanted) from numerically singular environments."""
    if inf.gap < gap:
        raise Skip("nearly degenerate transfer matrix")
    if not deficient:
        for k in range(inf.L):
            s = inf.schmidt(k)
            if s[-1] < smin * s[0]:
                raise Skip("tiny Schmidt coefficient")


def make(cls, c, As, symm=True, method="arpack", *args, **kw):
    """An instance of a uniform state class holding the tensors, not yet updated."""
    s = cls(As[0].shape[1], As[0].shape[0], *args, L=len(As), do_update=False, **kw)
    setup(s, symm, method)
    for k, A in enumerate(As):
        s.A[k][:] = A
    return s


def setup(s, symm, method):
    s.symm_gauge = symm
    s.ev_brute = method == "brute"
    s.ev_use_arpack = method != "power"


def check_fixed(ctx, s, tol, what):
    """Stored environments are normalised positive fixed points of the stored tensors, everywhere in the cell."""
    L = s.L
    A = [np.asarray(a) for a in s.A]
    w = la.eigvals(dense.tm(A))
    ctx.close(abs(w).max(), 1., tol, what + ": spectral radius")
    l = [dense.arr(x) for x in s.l]
    r = [dense.arr(x) for x in s.r]
    for k in range(L):
        sl, sr = abs(l[k]).max(), abs(r[k]).max()
        ctx.close(np.vdot(l[k], r[k]), 1., tol, what + ": <l|r>")
        ctx.close(l[k], l[k].conj().T, tol, what + ": l Hermitian", scale=sl)
        ctx.close(r[k], r[k].conj().T, tol, what + ": r Hermitian", scale=sr)
        ctx.check(la.eigvalsh((l[k] + l[k].conj().T) / 2)[0] > -tol * sl, what + ": l not positive")
        ctx.check(la.eigvalsh((r[k] + r[k].conj().T) / 2)[0] > -tol * sr, what + ": r not positive")
        x = np.einsum('sba,bc,scd->ad', A[k].conj(), l[k - 1], A[k])
        ctx.close(x, l[k], tol, what + ": l fixed point", scale=max(sl, abs(l[k - 1]).max()))
        x = np.einsum('sab,bc,sdc->ad', A[k], r[k], A[k].conj())
        ctx.close(x, r[k - 1], tol, what + ": r fixed point", scale=max(sr, abs(r[k - 1]).max()))


def check_form(ctx, s, tol, what):
    """The canonical form asked for."""
    for k in range(s.L):
        l, r = dense.arr(s.l[k]), dense.arr(s.r[k])
        D = l.shape[0]
        if s.symm_gauge:
            ctx.close(l, r, tol, what + ": l = r")
            ctx.close(l, np.diag(np.diag(l)), tol, what + ": l diagonal")
        else:
            d = np.diag(r)
            ctx.close(r, np.diag(d), tol, what + ": r diagonal")
            ctx.close(abs(d) * abs(1 - d), np.zeros(D), tol, what + ": r identity (on its support)")
            ctx.close(l, np.diag(np.diag(l)), tol, what + ": l diagonal")


def check_same(ctx, a, b, tol, what, ops=None, ftol=None):
    """Two infinite states (Inf) are physically the same: fidelity and all two-site densities (three for longer reach)."""
    w, L = fidelity(a.As, b.As)
    ctx.close(abs(w), 1., tol if ftol is None else ftol, what + ": fidelity")
    L = max(a.L, b.L)
    for k in range(L):
        ctx.close(a.rho(k, 2), b.rho(k, 2), tol, what + ": two-site density at %d" % k)


# ---------------------------------------------------------------- Hamiltonians on infinite states
def tm_op2(As, op, Bs):
    """Like dense.tm_ops, with different bra tensors."""
    def block(Xs):
        M = np.asarray(Xs[0])
        for X in Xs[1:]:
            M = np.einsum('sab,tbc->stac', M, X).reshape(-1, M.shape[1], X.shape[2])
        return M
    M, N = block(As), block(Bs)
    o = np.asarray(op).reshape(M.shape[0], M.shape[0])
    return np.einsum('st,tab,scd->acbd', o, M, N.conj(), optimize=True).reshape(M.shape[1] * N.shape[1], -1)


def mixed_energy(As, Bs, h, n):
    """Energy per cell as a function of independent ket (As) and bra (Bs) tensors, holomorphic in As and conj(Bs)."""
    L = len(As)
    w, l, r = dense.fixed_points(dense.tm(As, Bs))
    E = [dense.tm([As[k]], [Bs[k]]) for k in range(L)]
    ls, rs = [None] * L, [None] * L
    ls[L - 1], rs[L - 1] = l, r
    for k in range(L - 1):
        ls[k] = ls[k - 1].dot(E[k])
    for k in range(L - 1, 0, -1):
        rs[k - 1] = E[k].dot(rs[k])
    e = 0
    for k in range(L):
        ss = [(k + j) % L for j in range(n)]
        R = rs[ss[-1]]
        num = ls[k - 1].dot(tm_op2([As[s] for s in ss], h, [Bs[s] for s in ss])).dot(R)
        den = R
        for s in reversed(ss):
            den = E[s].dot(den)
        e = e + num / ls[k - 1].dot(den)
    return e


def gradient(As, Ws, h, n, rho=None, pts=8):
    """<W|H - E|psi> per cell: derivative of the energy with respect to the conjugate tensors in direction conj(Ws)."""
    s = max(abs(W).max() for W in Ws)
    rho = (rho or 1e-2) / max(s, 1e-300)
    tot = 0
    for j in range(pts):
        z = rho * np.exp(2j * np.pi * (j + .5) / pts)
        tot = tot + mixed_energy(As, [A + np.conj(z) * W for A, W in zip(As, Ws)], h, n) / z
    return tot / pts


class Envs(object):
    """Sums of Hamiltonian terms to the right of (and including) a site, or to its left, without the constant part.
    KR[k]: all terms starting on site k or further right, as a column vector at the bond left of k;
    KL[k]: all terms ending on site k or further left, as a row vector at the bond right of k."""

    def __init__(self, inf, h, n):
        self.inf, self.h, self.n = inf, h, n
        L = inf.L
        self.e = [inf.expect(h, k, n) for k in range(L)]
        E = [dense.tm([inf.As[k]]) for k in range(L)]
        l = [x.ravel() for x in inf.l]
        r = [x.ravel() for x in inf.r]
        Hr = [dense.tm_ops(inf.sites(k, n), h).dot(r[(k + n - 1) % L]) - self.e[k] * r[k - 1] for k in range(L)]
        lH = [None] * L
        for k in range(L):
            s = (k - n + 1) % L
            lH[k] = l[s - 1].dot(dense.tm_ops(inf.sites(s, n), h)) - self.e[s] * l[k]
        cell = dense.tm(inf.As)
        N = cell.shape[0]
        y = Hr[L - 1]
        for k in range(L - 2, -1, -1):
            y = Hr[k] + E[k].dot(y)
        M = np.eye(N) - cell + np.outer(r[L - 1], l[L - 1])
        self.KR = [None] * L
        self.KR[0] = la.solve(M, y)
        for k in range(L - 1, 0, -1):
            self.KR[k] = Hr[k] + E[k].dot(self.KR[(k + 1) % L])
        y = lH[0]
        for k in range(1, L):
            y = lH[k] + y.dot(E[k])
        self.KL = [None] * L
        self.KL[L - 1] = la.solve(M.T, y)
        for k in range(L - 1):
            self.KL[k] = lH[k] + self.KL[k - 1].dot(E[k])
        self.Hr, self.lH = Hr, lH

    def with_op(self, O, k, m, left=False):
        """sum_j <O h_j> - <O><h_j> for an operator O on m sites from site k on (left: <h_j O>)."""
        inf, h, n = self.inf, self.h, self.n
        L, q = inf.L, inf.q
        o = inf.expect(O, k, m)
        T = dense.tm_ops(inf.sites(k, m), O)
        v = self.KL[k - 1].dot(T).dot(inf.r[(k + m - 1) % L].ravel()) + inf.l[k - 1].ravel().dot(T).dot(self.KR[(k + m) % L])
        W = m + 2 * (n - 1)
        Om = np.kron(np.kron(np.eye(q ** (n - 1)), np.asarray(O).reshape(q ** m, q ** m)), np.eye(q ** (n - 1)))
        tot = 0
        hm = np.asarray(h).reshape(q ** n, q ** n)
        for j in range(W - n + 1):
            Hm = np.kron(np.kron(np.eye(q ** j), hm), np.eye(q ** (W - n - j)))
            tot = tot + (Hm.dot(Om) if left else Om.dot(Hm))
        s = (k - n + 1) % L
        v = v + inf.expect(tot, s, W) - o * sum(self.e[(s + j) % L] for j in range(W - n + 1))
        return v


def gauge_fixed(inf, r):
    """A random right-gauge-fixed tangent direction: sum_s W_s r A_s^dagger = 0 on every site."""
    W = []
    for k in range(inf.L):
        w = gens.cgauss(r, *inf.As[k].shape)
        A = inf.As[k]
        x = np.einsum('sab,bc,sdc->ad', w, inf.r[k], A.conj())
        W.append(w - np.einsum('ab,sbc->sac', x.dot(la.inv(inf.r[k - 1])), A))
    return W


def tangent_ip(inf, W, B):
    """Inner product per cell of two right-gauge-fixed tangent vectors."""
    return sum(np.einsum('ab,sac,cd,sbd->', inf.l[k - 1], B[k], inf.r[k], W[k].conj()) for k in range(inf.L))


def blockten(Xs):
    """Product tensor of several sites, (combined physical, left, right)."""
    M = np.asarray(Xs[0])
    for X in Xs[1:]:
        M = np.einsum('sab,tbc->stac', M, X).reshape(-1, M.shape[1], X.shape[2])
    return M


def local_gradient(inf, h, n, k, m):
    """Derivative of the energy per cell with respect to the conjugate of the m-site tensor at k (terms overlapping these
    m sites only; shape q..q, left, right), with all other terms left out."""
    L, q = inf.L, inf.q
    D = inf.D
    G = 0
    for j in range(n + m - 1):                         # windows starting at s = k - (n - 1) + j
        s = k - (n - 1) + j
        lo, hi = min(s, k), max(s + n, k + m)
        W = hi - lo
        o = np.asarray(h).reshape(q ** n, q ** n)
        O = np.kron(np.kron(np.eye(q ** (s - lo)), o), np.eye(q ** (hi - s - n)))
        M = blockten([inf.As[(lo + i) % L] for i in range(W)])
        X = np.einsum('st,tab->sab', O, M)
        nl, nr = k - lo, hi - k - m
        X = X.reshape(q ** nl, q ** m, q ** nr, X.shape[1], X.shape[2])
        l, r = inf.l[(lo - 1) % L], inf.r[(hi - 1) % L]
        Nl = blockten([inf.As[(lo + i) % L] for i in range(nl)]).conj() if nl else np.eye(l.shape[1])[None]
        Nr = blockten([inf.As[(k + m + i) % L] for i in range(nr)]).conj() if nr else np.eye(r.shape[1])[None]
        G = G + np.einsum('itjxy,xa,iab,yd,jcd->tbc', X, l, Nl, r, Nr, optimize=True)
    return G


def direction(inf, h, n, KR=None):
    """The projected direction of (H - E)|psi> in the right gauge: sum_s B_s r A_s^dagger = 0 (independent of the library)."""
    L = inf.L
    KR = Envs(inf, h, n).KR if KR is None else KR
    B = []
    for k in range(L):
        G = local_gradient(inf, h, n, k, 1)
        K = KR[(k + 1) % L].reshape(inf.D[0], -1)
        G = G + np.einsum('xa,txy,yb->tab', inf.l[k - 1], inf.As[k], K)
        # sum_ab l[a,b] B[s,a,c] r[c,d] = G[s,b,d]
        li, ri = la.inv(inf.l[k - 1].T), la.inv(inf.r[k])
        b = np.array([li.dot(g).dot(ri) for g in G])
        Y = np.einsum('sab,bc,sdc->ad', b, inf.r[k], inf.As[k].conj()).dot(la.inv(inf.r[k - 1]))
        B.append(b - np.einsum('ab,sbc->sac', Y, inf.As[k]))
    return B


def two_site_sv(inf, h, n, k):
    """Singular values of the part of (H - E)|psi> with exactly the sites k, k + 1 changed (two-site tangent component)."""
    q, D = inf.q, inf.D[0]
    L = inf.L
    G = local_gradient(inf, h, n, k, 2)
    A, A1 = inf.As[k], inf.As[(k + 1) % L]
    ls, rs = la.sqrtm(inf.l[k - 1]), la.sqrtm(inf.r[(k + 1) % L])
    Gx = np.einsum("sab,ax,by->sxy", G, la.inv(ls), la.inv(rs))   # in orthonormal outer bases
    X = Gx.reshape(q, q, D, D).transpose(0, 2, 1, 3).reshape(q * D, q * D)
    # directions of the form sum_s A_s (...) must vanish against the weighted tensors on either side
    Ml = np.einsum('ax,sab->sxb', ls, A).reshape(q * D, D)
    Mr = np.einsum('sab,by->say', A1, rs).transpose(0, 2, 1).reshape(q * D, D)
    U, V = la.qr(Ml, mode='economic')[0], la.qr(Mr, mode='economic')[0]
    X = X - U.dot(U.conj().T.dot(X))
    X = X - X.dot(V.conj()).dot(V.T)
    return la.svd(X, compute_uv=False)
