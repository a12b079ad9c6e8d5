"""Reference Hobby splines and Bernstein polynomials (no gdspy code)."""
import cmath
import math

import numpy as np


def wrap(a):
    return math.remainder(a, 2 * math.pi)


def rho(t, p):
    a = math.sqrt(2) * (math.sin(t) - math.sin(p) / 16) * (math.sin(p) - math.sin(t) / 16) * (
        math.cos(t) - math.cos(p))
    c = (3 - math.sqrt(5)) / 2
    return (2 + a) / (1 + (1 - c) * math.cos(t) + c * math.cos(p) or 1e-16)


def hobby(pts, angles=None, curl_start=1, curl_end=1, t_in=1, t_out=1, cycle=False, reduce=True):
    """Control points [(c1, c2)] as complex pairs, one per segment: Hobby's equations in
    the mock curvatures, one unknown start angle and end angle per segment."""
    z = [complex(*p) for p in pts]
    n = len(z)
    ti = list(t_in) if hasattr(t_in, "__iter__") else [t_in] * n
    to = list(t_out) if hasattr(t_out, "__iter__") else [t_out] * n
    ang = list(angles) if angles is not None else [None] * n
    m = n if cycle else n - 1
    d = [z[(k + 1) % n] - z[k] for k in range(m)]
    L = [abs(v) for v in d]
    # arg(0 + -0j) conventions never matter: neighbours differ
    a = [cmath.phase(v) for v in d]
    red = wrap if reduce else (lambda v: v)
    if not cycle and n == 2 and ang == [None, None]:
        return [(z[0] + d[0] / (3 * to[0]), z[1] - d[0] / (3 * ti[1]))]
    # rows of the linear system in theta_0..m-1, phi_0..m-1
    A = np.zeros((2 * m, 2 * m))
    b = np.zeros(2 * m)
    row = 0

    def out_curv(k):
        """Mock curvature leaving the start of segment k, as a row."""
        r = np.zeros(2 * m)
        i, j = k, (k + 1) % n
        f = to[i] ** 2 / (L[k] * ti[j])
        r[k] = f * (3 * ti[j] - 1)
        r[m + k] = -f
        return r

    def in_curv(k):
        """Mock curvature arriving at the end of segment k."""
        r = np.zeros(2 * m)
        i, j = k, (k + 1) % n
        f = ti[j] ** 2 / (L[k] * to[i])
        r[m + k] = f * (3 * to[i] - 1)
        r[k] = -f
        return r

    for v in range(n):
        arr = (v - 1) % m if (cycle or v > 0) else None   # segment arriving at v
        dep = v % m if (cycle or v < n - 1) else None     # segment leaving v
        if ang[v] is not None:
            if dep is not None:
                A[row, dep] = 1
                b[row] = red(ang[v] - a[dep])
                row += 1
            if arr is not None:
                A[row, m + arr] = 1
                b[row] = red(a[arr] - ang[v])
                row += 1
        elif arr is None:
            A[row] = out_curv(0) - curl_start * in_curv(0)
            row += 1
        elif dep is None:
            A[row] = in_curv(m - 1) - curl_end * out_curv(m - 1)
            row += 1
        else:
            A[row] = in_curv(arr) - out_curv(dep)
            row += 1
            psi = a[dep] - a[arr]
            psi = (psi + math.pi) % (2 * math.pi) - math.pi
            A[row, dep] = 1
            A[row, m + arr] = 1
            b[row] = -psi
            row += 1
    assert row == 2 * m
    sc = np.abs(A).max(axis=1)
    sol = np.linalg.solve(A / sc[:, None], b / sc)
    out = []
    for k in range(m):
        t, p = sol[k], sol[m + k]
        j = (k + 1) % n
        out.append((z[k] + cmath.exp(1j * t) * d[k] * rho(t, p) / (3 * to[k]),
                    z[j] - cmath.exp(-1j * p) * d[k] * rho(p, t) / (3 * ti[j])))
    return out


def bezier(ctrl):
    """Bernstein form: (curve(u), derivative(u)) on tuples."""
    z = [complex(*p) if hasattr(p, "__iter__") else complex(p) for p in ctrl]
    n = len(z) - 1

    def f(u):
        v = sum(math.comb(n, k) * u ** k * (1 - u) ** (n - k) * z[k] for k in range(n + 1))
        return v.real, v.imag

    def df(u):
        v = n * sum(math.comb(n - 1, k) * u ** k * (1 - u) ** (n - 1 - k) * (z[k + 1] - z[k])
                    for k in range(n))
        return v.real, v.imag

    return f, df
