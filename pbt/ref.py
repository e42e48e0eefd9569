"""Reference oracles, independent of the code under test.

Everything here works in extended precision (80-bit longdouble, eps 1.1e-19) by plain
Taylor scaling and squaring on (block-)augmented matrices, or in mpmath.
"""
import math
import numpy as np

LD = np.longdouble
EPS = float(np.finfo(np.float64).eps)


def infnorm(a):
    a = np.asarray(a)
    return float(np.max(np.sum(np.abs(a), axis=1))) if a.size else 0.0


class Exp:
    """exp(A) in longdouble, with the exponentials of A/2^j kept for error bounds."""

    def __init__(self, A, stages=0):
        A = np.asarray(A, dtype=LD) if not np.iscomplexobj(A) else np.asarray(A, dtype=np.clongdouble)
        n = A.shape[0]
        self.n = n
        theta = infnorm(A)
        self.theta = theta
        s = max(0, int(math.ceil(math.log2(theta * 4))) if theta > 0 else 0, stages)
        S = A / LD(2) ** s
        X = np.eye(n, dtype=A.dtype)
        term = np.eye(n, dtype=A.dtype)
        j = 1
        while j < 60:
            term = (term @ S) / LD(j)
            X = X + term
            if j > 4 and infnorm(term) < 1e-24:
                break
            j += 1
        self.norms = [None] * (s + 1)   # norms[j] = ||exp(A/2^j)||
        self.norms[s] = infnorm(X)
        for k in range(s, 0, -1):
            X = X @ X
            self.norms[k - 1] = infnorm(X)
        self.E = X
        self.s = s

    def roundoff(self, delta=0.0, stages=None, eps=EPS):
        """Bound on the error of a scaling-and-squaring evaluation with `stages` squarings
        whose scaled approximant has absolute error delta."""
        N = self.s if stages is None else min(stages, self.s)
        err = delta + 8 * self.n * eps * max(1.0, self.norms[N])
        for j in range(N, 0, -1):
            x = self.norms[j]
            err = 2 * x * err + err * err + 8 * self.n * eps * max(x * x, 1e-300)
        return float(err)


def aug_phi(A, k):
    """Matrix whose exponential holds phi_0..phi_k(A) in its first block row."""
    A = np.asarray(A)
    n = A.shape[0]
    dt = np.clongdouble if np.iscomplexobj(A) else LD
    if k == 0:
        return A.astype(dt)
    Z = np.zeros(((k + 1) * n, (k + 1) * n), dtype=dt)
    Z[:n, :n] = A
    for j in range(k):
        Z[j * n:(j + 1) * n, (j + 1) * n:(j + 2) * n] = np.eye(n)
    return Z


def phis(A, k, stages=0):
    """[phi_0(A), ..., phi_k(A)] in longdouble and the Exp they come from."""
    A = np.asarray(A)
    n = A.shape[0]
    ex = Exp(aug_phi(A, k), stages)
    return [ex.E[:n, j * n:(j + 1) * n] for j in range(k + 1)], ex


def phi(A, k):
    return phis(A, k)[0][k]


def aug_comb(A, vb):
    """Matrix M, such that exp(M) e = [sum_j phi_j(A) vb_j ; e_last] for e = [vb_0; e_last]."""
    A = np.asarray(A, dtype=LD)
    n, p = A.shape[0], len(vb) - 1
    M = np.zeros((n + p, n + p), dtype=LD)
    M[:n, :n] = A
    for j in range(1, p + 1):
        M[:n, n + p - j] = vb[j]
    for i in range(p - 1):
        M[n + i, n + i + 1] = 1
    return M


def phi_comb(A, vb):
    """sum_j phi_j(A) vb_j in longdouble."""
    A = np.asarray(A, dtype=LD)
    k = len(vb) - 1
    ps, ex = phis(A, k)
    out = np.zeros(A.shape[0], dtype=LD)
    for j in range(k + 1):
        out = out + ps[j] @ np.asarray(vb[j], dtype=LD)
    return out


def sq_stages(theta):
    """Squarings that bring theta below 1/8 (the scaling rule of the squaring method)."""
    return int(math.floor(max(0.0, math.log2(theta * 16) - 1e-6))) if theta > 0 else 0


PADE13 = 8.83e-36   # leading error coefficient of the [13/13] Pade approximant of exp


def expm_tol(A, scale=1.0):
    """Error bound for the float64 dense exponential of jax.scipy: [13/13] Pade with
    floor(log2(norm/5.37)) squarings, so the scaled norm can be as large as 10.74."""
    A = np.asarray(A)
    A = A.astype(complex if np.iscomplexobj(A) else float)
    if not A.size:
        return 0.0
    n1 = float(np.max(np.sum(np.abs(A), axis=0)))
    N = int(max(0.0, math.floor(math.log2(n1 / 5.371920351148152)))) if n1 > 0 else 0
    ex = Exp(A, N)
    x = n1 / 2.0 ** N
    # the denominator's condition grows like exp(x) in the worst case for non-normal A
    delta = 10 * PADE13 * x ** 27 * ex.norms[N] + 200 * A.shape[0] * EPS * math.exp(min(x, 11.0) / 2) * max(1.0, ex.norms[N])
    return 5 * ex.roundoff(delta=delta, stages=N) * scale


def arr(x):
    return np.asarray(x, dtype=np.float64)


def maxabs(x):
    x = np.asarray(x)
    return float(np.max(np.abs(x))) if x.size else 0.0


def arnoldi(A, v, m, tiny=1e-11):
    """Arnoldi with reorthogonalisation in longdouble. Returns Q, H, exhausted."""
    A = np.asarray(A, dtype=LD)
    v = np.asarray(v, dtype=LD)
    n = len(v)
    m = min(n, m)
    Q = [v / np.sqrt(v @ v)]
    H = np.zeros((m, m), dtype=LD)
    for j in range(m):
        w = A @ Q[j]
        for _ in range(2):
            for i in range(j + 1):
                h = w @ Q[i]
                H[i, j] += h
                w = w - h * Q[i]
        nw = np.sqrt(w @ w)
        if nw < tiny:
            return np.array(Q).T, H[:j + 1, :j + 1], True
        if j + 1 < m:
            H[j + 1, j] = nw
            Q.append(w / nw)
    return np.array(Q).T, H, m == n


def appl_tol(A, B, k):
    """Error bound for phi_k(A)B computed by squaring the augmented matrix [[A, B, 0], [0, 0, I], [0, 0, 0]]
    with a degree-4 Taylor start (k > 0)."""
    n, M = B.shape
    Z = np.zeros((n + k * M, n + k * M), dtype=np.result_type(A, B, float))
    Z[:n, :n] = A
    Z[:n, n:n + M] = B
    for i in range((k - 1) * M):
        Z[n + i, n + M + i] = 1.0
    th = infnorm(Z)
    N = sq_stages(th)
    ex = Exp(Z, N)
    delta = (th / 2.0 ** N) ** 5 / 120
    return 3 * ex.roundoff(delta=delta, stages=N)


def krylov_tol(H, k):
    """Error bound for phi_k(H) e1 as the Krylov routines evaluate it."""
    H = np.asarray(H, dtype=float)
    n = len(H)
    e1 = np.zeros((n, 1))
    e1[0] = 1.0
    if k == 0:
        return expm_tol(H)
    return appl_tol(H, e1, k)
