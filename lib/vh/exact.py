"""Exact entropy solutions: Riemann problems and smooth flows."""
import numpy as np
from . import ref


def scalar_riemann(eq, l, r, xi):
    """u(xi): minimiser (maximiser) of f(v) - xi v between the states."""
    if l == r:
        return np.full_like(xi, l)
    v = np.linspace(min(l, r), max(l, r), 4001)
    f = np.asarray(ref.flux(eq, v[None], 0))[0]
    g = f[None] - xi[:, None] * v[None]
    k = g.argmin(1) if l < r else g.argmax(1)
    return v[k]


def euler_star(rl, ul, pl, rr, ur, pr, g):
    al, ar = np.sqrt(g * pl / rl), np.sqrt(g * pr / rr)

    def side(p, rho, pk, a):
        if p > pk:
            A, B = 2 / ((g + 1) * rho), (g - 1) / (g + 1) * pk
            return (p - pk) * np.sqrt(A / (p + B))
        return 2 * a / (g - 1) * ((p / pk) ** ((g - 1) / (2 * g)) - 1)
    if 2 * (al + ar) / (g - 1) <= ur - ul:
        return None
    lo, hi = 1e-14, 1e8
    for _ in range(200):
        m = np.sqrt(lo * hi)
        if side(m, rl, pl, al) + side(m, rr, pr, ar) + ur - ul > 0:
            hi = m
        else:
            lo = m
    p = np.sqrt(lo * hi)
    return p, (ul + ur + side(p, rr, pr, ar) - side(p, rl, pl, al)) / 2


def euler_riemann(L, R, xi, g):
    """L, R: density, normal velocity, pressure. -> array [3, len(xi)], True where left of the contact."""
    (rl, ul, pl), (rr, ur, pr) = L, R
    s = euler_star(rl, ul, pl, rr, ur, pr, g)
    if s is None:
        return None
    p, u = s
    out = np.zeros((3, len(xi)))
    left = xi < u
    for side in (True, False):
        k = left == side
        sgn = 1 if side else -1
        rho, v, q = (rl, ul, pl) if side else (rr, ur, pr)
        a = np.sqrt(g * q / rho)
        y = sgn * xi[k]  # mirrored to a left wave
        vv, us = sgn * v, sgn * u
        full = lambda w: np.broadcast_to(np.array(w)[:, None], (3, len(y)))
        outer = full((rho, vv, q))
        if p > q:
            S = vv - a * np.sqrt((g + 1) / (2 * g) * p / q + (g - 1) / (2 * g))
            inner = full((rho * (p / q + (g - 1) / (g + 1)) / ((g - 1) / (g + 1) * p / q + 1), us, p))
            w = np.where(y < S, outer, inner)
        else:
            ast = a * (p / q) ** ((g - 1) / (2 * g))
            inner = full((rho * (p / q) ** (1 / g), us, p))
            c = np.maximum(2 / (g + 1) + (g - 1) / ((g + 1) * a) * (vv - y), 1e-12)
            fan = np.array([rho * c ** (2 / (g - 1)), 2 / (g + 1) * (a + (g - 1) / 2 * vv + y), q * c ** (2 * g / (g - 1))])
            w = np.where(y < vv - a, outer, np.where(y > us - ast, inner, fan))
        out[:, k] = w * np.array([1, sgn, 1])[:, None]
    return out, left


def burgers_smooth(u0, du_min, x, t):
    """u(x,t) before the shock by characteristics (u0 periodic and smooth)."""
    assert t * (-du_min) < 0.95
    y = x - t * u0(x)
    for _ in range(400):
        y = 0.5 * y + 0.5 * (x - t * u0(y))
    # Newton-free fixed point converges for t |u0'| < 1 with damping
    return u0(y)
