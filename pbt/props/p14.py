"""P14: inverting one minus the transfer matrix solves the geometric series."""
import logging
import numpy as np
import scipy.linalg as la
import scipy.sparse.linalg as las
from hypothesis import strategies as st
from ..core import facet, Skip
from .. import gens, dense


class Capture(logging.Handler):
    """Collects the warnings of the library during one call."""

    def __init__(self):
        logging.Handler.__init__(self)
        self.msgs = []

    def emit(self, rec):
        self.msgs.append(rec.getMessage())

    def __enter__(self):
        self.log = logging.getLogger("evoMPS")
        self.log.addHandler(self)
        return self

    def __exit__(self, *a):
        self.log.removeHandler(self)


@st.composite
def case(draw, maxD=5):
    return dict(D=draw(st.integers(1, maxD)), q=draw(st.integers(1, 3)), L=draw(st.integers(1, 3)), seed=draw(gens.seeds),
                pair=draw(st.sampled_from(["same", "same", "other", "near", "gauge"])),
                env=draw(st.sampled_from(["dense", "diag", "eye"])), real=False,
                p=draw(st.sampled_from([0., 0., 0.3, -1.1, 2., np.pi, -np.pi, 7.])),
                left=draw(st.booleans()), pseudo=draw(st.booleans()), rho=draw(st.sampled_from([1., 1., 0.9, 0.5])),
                x=draw(st.sampled_from(["gauss", "herm", "proj", "env", "zero", "small", "big"])),
                tol=draw(st.sampled_from([None, 1e-6, 1e-10, 1e-12])),
                start=draw(st.sampled_from(["none", "gauss", "zero", "sol"])),
                solver=draw(st.sampled_from(["default", "default", "lgmres", "gmres"])))


def build(c):
    """Cell tensors A1, A2 (dominant mixed eigenvalue c['rho']) and environments with <l|r> = 1."""
    r = gens.rng(c["seed"], "P")
    D, q, L = c["D"], c["q"], c["L"]

    def cell():
        T = [gens.cgauss(r, q, D, D) for k in range(L)]
        return [t.real.copy() for t in T] if c["real"] else T
    A1 = cell()
    if c["pair"] == "same":
        A2 = A1
    elif c["pair"] == "other":
        A2 = cell()
    elif c["pair"] == "near":
        A2 = [a + .1 * b for a, b in zip(A1, cell())]
    else:
        g = [la.qr(t[0])[0] for t in cell()]
        A2 = [np.array([g[k - 1].dot(t).dot(g[k].conj().T) for t in A1[k]]) for k in range(L)]
    E = dense.tm(A1, A2)
    w = la.eigvals(E)
    w0 = w[abs(w).argmax()]
    if abs(w0) < 1e-3:
        raise Skip("nilpotent transfer matrix")
    if c["real"] and abs(w0.imag) > 1e-12:
        raise Skip("complex dominant eigenvalue with real tensors")
    f = c["rho"] / (w0.real if c["real"] else w0)
    if A2 is A1:
        f = abs(f)
        A1 = [a * f ** (.5 / L) for a in A1]
        A2 = A1
    else:
        if c["real"]:
            A1 = [A1[0] * f] + A1[1:]
        else:
            A1 = [A1[0] * f] + A1[1:]
    E = dense.tm(A1, A2)
    w, l, rr = dense.fixed_points(E)
    lam = np.sort(abs(la.eigvals(E)))
    gap = 1. if lam.size == 1 else (lam[-1] - lam[-2]) / lam[-1]
    # the library's left environment lL: column-stacked, (lL|x) = sum conj(lL) x
    lL = l.conj().reshape(D, D)
    rL = rr.reshape(D, D)
    if A2 is A1:                              # positive representatives
        ph = np.trace(rL)
        ph /= abs(ph)
        rL = rL / ph
        lL = lL / ph
    if c["real"]:
        if max(abs(rL.imag).max(), abs(lL.imag).max()) > 1e-10 * (abs(rL).max() + abs(lL).max()):
            raise Skip("complex environments with real tensors")
        rL, lL = rL.real.copy(), lL.real.copy()
    return A1, A2, E, lL, rL, gap


@facet("P14", case(), quick=700, shards=4,
       rule="bond dimension of at least two, pseudo inverse or momentum or a starting vector involved")
def solve(c, ctx):
    import evoMPS.mps_uniform_pinv as pinv
    import evoMPS.matmul as mm
    A1, A2, E, lL, rL, gap = build(c)
    D = c["D"]
    r = gens.rng(c["seed"], "x")
    if gap < 1e-4:
        raise Skip("nearly degenerate transfer matrix")
    le, re_ = lL, rL
    if c["env"] != "dense":
        # a gauge in which one environment is the identity (or diagonal): only for states paired with themselves
        if c["pair"] != "same":
            le, re_ = lL, rL
        else:
            ev = la.eigvalsh(rL)
            if ev[0] < 1e-6 * ev[-1] or c["L"] == 0:
                raise Skip("nearly singular environment")
            X = la.cholesky(rL, lower=True)
            Xi = la.inv(X)
            A1 = [a.copy() for a in A1]
            A1[0] = np.array([Xi.dot(t) for t in A1[0]])
            A1[-1] = np.array([t.dot(X) for t in A1[-1]])
            l2 = X.conj().T.dot(lL).dot(X)
            w, U = la.eigh((l2 + l2.conj().T) / 2)
            A1[0] = np.array([U.conj().T.dot(t) for t in A1[0]])
            A1[-1] = np.array([t.dot(U) for t in A1[-1]])
            A2 = A1
            E = dense.tm(A1, A2)
            lL, rL = np.diag(w), np.eye(D, dtype=A1[0].dtype)
            le = mm.simple_diag_matrix(w, dtype=A1[0].dtype)
            re_ = mm.eyemat(D, A1[0].dtype) if c["env"] == "eye" else mm.simple_diag_matrix(np.ones(D), dtype=A1[0].dtype)
    P = np.outer(rL.ravel(), lL.conj().ravel()) if c["pseudo"] else 0.
    M = np.eye(D * D) - np.exp(1j * c["p"]) * (E - P)
    if c["left"]:
        M = M.conj().T
    sv = la.svdvals(M)
    if sv[-1] < 1e-4 * max(1, sv[0]):
        raise Skip("nearly singular problem")
    k = c["x"]
    x = gens.cgauss(r, D, D)
    if k == "herm":
        x = x + x.conj().T
    elif k == "proj":
        f, g = (rL, lL) if c["left"] else (lL, rL)
        x = x - g * np.vdot(f, x) if not c["left"] else x - lL * np.vdot(rL, x)
    elif k == "env":
        x = (lL if c["left"] else rL).astype(complex)
    elif k == "zero":
        x = np.zeros((D, D), complex)
    elif k == "small":
        x = x * 1e-9
    elif k == "big":
        x = x * 1e6
    dtype = A1[0].dtype
    if c["real"]:
        if np.exp(1j * c["p"]).imag != 0:
            raise Skip("complex phase with real tensors")
        x = np.ascontiguousarray(x.real)
    want = la.solve(M, x.ravel()).reshape(D, D)
    tol = c["tol"] or 1e-6
    kw = {} if c["tol"] is None else dict(tol=tol)
    out = {"none": None, "gauss": gens.cgauss(r, D, D), "zero": np.zeros((D, D), complex), "sol": want.copy()}[c["start"]]
    if out is not None and c["real"]:
        out = np.ascontiguousarray(out.real)
    solver = {"default": None, "lgmres": las.lgmres, "gmres": las.gmres}[c["solver"]]
    if c["rho"] == 1. and not c["pseudo"] and gap < 1e-3:
        raise Skip("slow")
    ins = [a.copy() for a in A1] + [a.copy() for a in A2] + [x.copy()]
    ctx.nontrivial(D > 1 and (c["pseudo"] or c["p"] != 0 or c["start"] != "none"))
    ctx.tag("left" if c["left"] else "right")
    with Capture() as cap:
        res = pinv.pinv_1mE(x, A1, A2, le, re_, p=c["p"], left=c["left"], pseudo=c["pseudo"], out=out, solver=solver, **kw)
    for a, b in zip(ins, list(A1) + list(A2) + [x]):
        ctx.check(np.array_equal(a, b), "an input was modified")
    ctx.check(res.shape == (D, D), "shape of the result: %r" % (res.shape,))
    if out is not None:
        ctx.check(res is out, "the supplied output array is not the one returned")
    if any("Did not converge" in s for s in cap.msgs):
        # short recurrences may break down; a full Krylov method has to manage
        ctx.tag("bicgstab did not converge")
        ctx.check(c["solver"] == "default", "no convergence with a full Krylov method")
        res = pinv.pinv_1mE(x, A1, A2, le, re_, p=c["p"], left=c["left"], pseudo=c["pseudo"], solver=las.lgmres, **kw)
    n = max(1., la.norm(x))      # (SciPy accepts a start whose absolute residual is below the tolerance)
    resid = la.norm(M.dot(res.ravel()) - x.ravel())
    ctx.close(resid, 0., 1., "residual", scale=20 * tol * n + 1e-12 * n * sv[0] / sv[-1] + 1e-14)
    ctx.close(res, want, 1., "solution", scale=(20 * tol * n + 1e-12 * n * sv[0] / sv[-1]) / sv[-1] + 1e-14 / sv[-1])
    if c["pseudo"] and k == "proj":
        f = rL if c["left"] else lL
        ctx.close(np.vdot(f, res), 0., 1., "component along the dominant eigenvector",
                  scale=la.norm(f) * (20 * tol * n + 1e-12 * n * sv[0] / sv[-1]) / sv[-1] + 1e-14 / sv[-1])


@facet("P14", case(maxD=4), quick=350, shards=2, rule="bond dimension of at least two")
def dense_helpers(c, ctx):
    import evoMPS.mps_uniform_pinv as pinv
    A1, A2, E, lL, rL, gap = build(c)
    D = c["D"]
    if c["real"] and np.exp(1j * c["p"]).imag != 0:
        raise Skip("complex phase with real tensors")
    P = np.outer(rL.ravel(), lL.conj().ravel()) if c["pseudo"] else 0.
    M = np.eye(D * D) - np.exp(1j * c["p"]) * (E - P)
    sv = la.svdvals(M)
    if sv[-1] < 1e-5 * max(1, sv[0]):
        raise Skip("nearly singular problem")
    ctx.nontrivial(D > 1)
    Mi = la.inv(M)
    t = 1e-11 * sv[0] / sv[-1]
    sc = abs(Mi).max()
    ctx.close(pinv.pinv_1mE_brute(A1, A2, lL, rL, p=c["p"], pseudo=c["pseudo"]), Mi, t, "dense inverse", scale=sc)
    ctx.close(pinv.pinv_1mE_brute_LOP(A1, A2, lL, rL, p=c["p"], pseudo=c["pseudo"], left=c["left"]), Mi, t,
              "dense inverse from the operator", scale=sc)
    # the operator itself
    r = gens.rng(c["seed"], "y")
    for left in (False, True):
        op = pinv.PinvOp(c["p"], A1, A2, lL, rL, left=left, pseudo=c["pseudo"])
        x = gens.cgauss(r, D * D)
        if c["real"]:
            x = np.ascontiguousarray(x.real)
        keep = x.copy()
        a = op.matvec(x)
        b = op.matvec(2 * x)
        ctx.check(np.array_equal(x, keep), "matvec modified its argument")
        Mx = (M.conj().T if left else M).dot(x)
        ctx.close(a, Mx, 1e-11, "matvec", scale=1 + sv[0] * la.norm(x))
        ctx.close(b, 2 * Mx, 1e-11, "matvec (later call)", scale=1 + sv[0] * la.norm(x))
    if c["pseudo"] or c["rho"] < 1:
        # geometric series
        if c["rho"] < 1 or gap > .2:
            Q = np.exp(1j * c["p"]) * (E - P)
            S = np.eye(D * D, dtype=complex)
            T = np.eye(D * D, dtype=complex)
            rad = max(abs(la.eigvals(Q)))
            if rad > .95:
                return
            for i in range(600):
                T = T.dot(Q)
                S = S + T
                if abs(T).max() < 1e-15:
                    break
            ctx.close(pinv.pinv_1mE_brute(A1, A2, lL, rL, p=c["p"], pseudo=c["pseudo"]), S, 1e-9, "geometric series",
                      scale=sc * sv[0] / sv[-1])
