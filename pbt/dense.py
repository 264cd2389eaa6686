"""Dense reference model: state vectors, Hamiltonians, tangent spaces, transfer matrices.  No evoMPS code."""
import numpy as np
import scipy.linalg as la


# ---------------------------------------------------------------- finite chains
def vec(As):
    """State tensor (q1, ..., qN) of a list of tensors A[s, a, b]; boundary bonds must have dimension 1
    (or are kept as extra first/last indices summed if they are 1)."""
    psi = np.ones((1, 1), dtype=complex)          # (phys, right bond)
    qs = []
    assert As[0].shape[1] == 1 and As[-1].shape[2] == 1
    for A in As:
        A = np.asarray(A)
        psi = np.einsum('pa,sab->psb', psi, A)
        psi = psi.reshape(psi.shape[0] * psi.shape[1], psi.shape[2])
        qs.append(A.shape[0])
    return psi.reshape(qs)


def mps_tensors(s):
    """The tensors of an evoMPS finite state as plain arrays."""
    return [np.array(s.A[n]) for n in range(1, s.N + 1)]


def state_vec(s):
    return vec(mps_tensors(s))


def apply_op(psi, op, sites):
    """op as matrix (prod q_bra, prod q_ket) acting on the listed tensor legs (0-based), any order."""
    q = [psi.shape[i] for i in sites]
    k = len(sites)
    op = np.asarray(op).reshape(q + q)
    out = np.tensordot(op, psi, axes=(list(range(k, 2 * k)), list(sites)))
    return np.moveaxis(out, list(range(k)), list(sites))


def ip(a, b):
    """<a|b>"""
    return np.vdot(a, b)


def expect(psi, op, sites):
    return ip(psi, apply_op(psi, op, sites)) / ip(psi, psi)


def schmidt(psi, n):
    """Squared Schmidt coefficients across the cut after site n (1-based count of sites on the left), normalised."""
    q = psi.shape
    m = psi.reshape(int(np.prod(q[:n], dtype=int)), -1)
    s = la.svdvals(m) ** 2
    return s / s.sum()


def ham_apply(psi, terms):
    """terms: list of (array op with q.. bra then q.. ket indices, first site 0-based)"""
    out = np.zeros(psi.shape, dtype=complex)
    for op, n in terms:
        k = op.ndim // 2
        out = out + apply_op(psi, op, list(range(n, n + k)))
    return out


def ham_matrix(qs, terms):
    d = int(np.prod(qs))
    H = np.zeros((d, d), dtype=complex)
    for op, n in terms:
        k = op.ndim // 2
        dl = int(np.prod(qs[:n], dtype=int))
        dr = int(np.prod(qs[n + k:], dtype=int))
        m = int(np.prod(qs[n:n + k], dtype=int))
        H += np.kron(np.kron(np.eye(dl), op.reshape(m, m)), np.eye(dr))
    return H


def tangent_columns(As, n):
    """All derivatives of the state vector with respect to the entries of tensor n (0-based): matrix (dim, q*D*D)."""
    L = np.ones((1, 1), dtype=complex)
    for A in As[:n]:
        L = np.einsum('pa,sab->psb', L, A)
        L = L.reshape(-1, L.shape[2])
    R = np.ones((1, 1), dtype=complex)
    for A in reversed(As[n + 1:]):
        R = np.einsum('sab,bp->asp', A, R)
        R = R.reshape(R.shape[0], -1)
    q = As[n].shape[0]
    cols = np.einsum('pa,st,br->psrtab', L, np.eye(q), R)
    return cols.reshape(L.shape[0] * q * R.shape[1], -1)


def tangent_basis(As, tol=1e-9):
    J = np.concatenate([tangent_columns(As, n) for n in range(len(As))], axis=1)
    U, s, _ = la.svd(J, full_matrices=False)
    keep = s > tol * s[0]
    return U[:, keep], s


def tangent_vec(As, Bs):
    """sum_n |A..B_n..A>"""
    out = 0
    for n, B in enumerate(Bs):
        if B is None:
            continue
        out = out + vec(As[:n] + [np.asarray(B)] + As[n + 1:])
    return out if not np.isscalar(out) else np.zeros([A.shape[0] for A in As], dtype=complex)


def gauge_phase(a, b):
    """Phase that maps vector b on a best."""
    o = np.vdot(b, a)
    return o / abs(o) if abs(o) > 0 else 1.


def same_ray(a, b):
    """Distance of the normalised rays of a and b."""
    a = a / la.norm(a)
    b = b / la.norm(b)
    return la.norm((a - b * gauge_phase(a, b)).ravel())


# ---------------------------------------------------------------- uniform states
def tm(As, Bs=None):
    """Dense transfer matrix of a unit cell acting from the left on right vectors x (D*D):
    (E x) = sum_s A_s x B_s^dagger, product over the cell; shape (Da*Db, Da'*Db')."""
    Bs = As if Bs is None else Bs
    E = None
    for A, B in zip(As, Bs):
        A = np.asarray(A)
        B = np.asarray(B)
        e = np.einsum('sab,scd->acbd', A, B.conj()).reshape(A.shape[1] * B.shape[1], A.shape[2] * B.shape[2])
        E = e if E is None else E.dot(e)
    return E


def tm_op(A, op, B=None):
    B = A if B is None else B
    return np.einsum('st,tab,scd->acbd', op, A, np.conj(B)).reshape(A.shape[1] * B.shape[1], A.shape[2] * B.shape[2])


def tm_ops(As, op):
    """Transfer matrix of len(As) neighbouring sites with an operator op[bra.., ket..] acting on them."""
    k = len(As)
    K = As[0]
    for A in As[1:]:
        K = np.tensordot(K, A, axes=(K.ndim - 1, 1))              # (s.., a, t, b)
        # bring physical legs to the front: current order s1..sj, a, t, b
        K = np.moveaxis(K, -2, K.ndim - 3)
    qs = K.shape[:k]
    Da, Db = K.shape[k], K.shape[k + 1]
    M = K.reshape(int(np.prod(qs)), Da, Db)
    o = np.asarray(op).reshape(M.shape[0], M.shape[0])
    return tm_op(M, o)


def fixed_points(E):
    """Dominant eigenvalue and left/right eigenvectors of a dense transfer matrix, with <l|r> = 1."""
    w, vl, vr = la.eig(E, left=True, right=True)
    i = abs(w).argmax()
    r = vr[:, i]
    l = vl[:, i].conj()                        # row vector: l E = w l
    return w[i], l / (l.dot(r)), r


# ---------------------------------------------------------------- stored environments of finite chains
def arr(x):
    """Any stored matrix (array, identity or diagonal object) as a dense array."""
    return np.array(x.A if hasattr(x, "A") and not isinstance(x, np.ndarray) else x, dtype=complex)


def envs(As):
    """True environments: l[0..N], r[0..N] with l[0] = r[N] = 1."""
    N = len(As)
    l = [np.eye(As[0].shape[1], dtype=complex)]
    for A in As:
        l.append(np.einsum('sba,bc,scd->ad', A.conj(), l[-1], A))
    r = [None] * (N + 1)
    r[N] = np.eye(As[-1].shape[2], dtype=complex)
    for n in range(N, 0, -1):
        r[n - 1] = np.einsum('sab,bc,sdc->ad', As[n - 1], r[n], As[n - 1].conj())
    return l, r


# ---------------------------------------------------------------- tangent space of an open chain, from the Schmidt vectors
class Tangent(object):
    """Projector on the tangent space of MPS with ranks D at psi: sum_n PL(n-1) 1 PR(n) - sum_n PL(n) PR(n)."""

    def __init__(self, psi, D):
        self.q = psi.shape
        N = len(self.q)
        self.N = N
        self.L, self.R = [None] * (N + 1), [None] * (N + 1)
        self.smin = 1.
        for n in range(1, N):
            m = psi.reshape(int(np.prod(self.q[:n], dtype=int)), -1)
            U, s, V = la.svd(m, full_matrices=False)
            k = D[n]
            self.smin = min(self.smin, s[k - 1] / s[0])
            self.L[n] = U[:, :k]
            self.R[n] = V[:k].T                   # columns: right vectors
    def PL(self, n, x):
        if n == 0:
            return x
        m = x.reshape(self.L[n].shape[0], -1)
        return self.L[n].dot(self.L[n].conj().T.dot(m)).reshape(x.shape)
    def PR(self, n, x):
        if n == self.N:
            return x
        m = x.reshape(-1, self.R[n].shape[0])
        return m.dot(self.R[n].conj()).dot(self.R[n].T).reshape(x.shape)
    def PL0(self, n, x):
        """n = 0: the left space is one-dimensional and trivial, the projector is the identity"""
        return self.PL(n, x)
    def __call__(self, x):
        out = 0
        for n in range(1, self.N + 1):
            out = out + self.PL(n - 1, self.PR(n, x))
        for n in range(1, self.N):
            out = out - self.PL(n, self.PR(n, x))
        return out
    def two_site(self, n, x):
        """Component of x in left(n-1) (x) sites n, n+1 (x) right(n+1), outside both neighbouring one-site spaces:
        PL(n-1) (1-PL(n)) (1-PR(n)) PR(n+1)."""
        y = self.PL(n - 1, self.PR(n + 1, x))
        y = y - self.PL(n, y)
        return y - self.PR(n, y)
