"""Reference models: the published formulas, written independently of /repo, in extended precision.

States are arrays [variable, z, y, x].  Everything is vectorised over cells."""
import numpy as np
L = np.longdouble
SCALAR = ("burgers", "buckleyleverett", "cubic", "linear")
EULER = ("euler1", "euler2", "euler3")


def ndim_vel(eq):
    return int(eq[5]) if eq.startswith("euler") else 0


def nvar(eq):
    return ndim_vel(eq) + 2 if eq.startswith("euler") else 1


# ---------------------------------------------------------------- equations
def prim(u, n, g):
    rho, m, E = u[0], u[1:1 + n], u[1 + n]
    v = m / rho
    p = (g - 1) * (E - (m * v).sum(0) / 2)
    return rho, v, p


def cons(rho, v, p, g):
    v = np.asarray(v)
    rho, p = np.asarray(rho), np.asarray(p)
    E = p / (g - 1) + rho * (v * v).sum(0) / 2
    return np.concatenate([rho[None], rho[None] * v, E[None]])


def flux(eq, u, d, g=None):
    """Physical flux in direction d."""
    if eq == "burgers":
        return u * u / 2
    if eq == "buckleyleverett":
        return u * u / (u * u + (1 - u) * (1 - u))
    if eq == "cubic":
        return u * u * u / 3
    if eq == "linear":
        return u.copy()
    n = ndim_vel(eq)
    rho, v, p = prim(u, n, g)
    f = u * v[d]
    f[1 + d] = f[1 + d] + p
    f[n + 1] = f[n + 1] + p * v[d]
    return f


def dflux(eq, u):
    if eq == "burgers":
        return u.copy()
    if eq == "buckleyleverett":
        return 2 * u * (1 - u) / (u * u + (1 - u) ** 2) ** 2
    if eq == "cubic":
        return u * u
    return np.ones_like(u)


def wavespeed(eq, u, d, g=None):
    if eq in SCALAR:
        return abs(dflux(eq, u))[0]
    n = ndim_vel(eq)
    rho, v, p = prim(u, n, g)
    return abs(v[d]) + np.sqrt(g * p / rho)


# ---------------------------------------------------------------- two-point fluxes
def logmean(a, b):
    """(a-b)/(log a - log b), accurate for nearly equal arguments."""
    z = (b - a) / (b + a)
    z2 = z * z
    small = z2 < 1e-3
    series = 1 + z2 * (1 / L(3) + z2 * (1 / L(5) + z2 * (1 / L(7) + z2 * (1 / L(9) + z2 * (1 / L(11) + z2 / 13)))))
    with np.errstate(all="ignore"):
        exact = np.where(small, L(1), np.arctanh(np.where(small, L(0.5), z)) / np.where(small, L(0.5), z))
    return (a + b) / 2 / np.where(small, series, exact)


def hll_speeds(eq, l, r, d, g, three):
    n = ndim_vel(eq)
    rl, vl, pl = prim(l, n, g)
    rr, vr, pr = prim(r, n, g)
    wl, wr = np.sqrt(rl), np.sqrt(rr)
    ut = (wl * vl[d] + wr * vr[d]) / (wl + wr)
    pt = (wl * pl + wr * pr) / (wl + wr)
    ct = np.sqrt(g * pt / ((rl + rr) / 2))
    c = np.maximum(0, vl[d] - vr[d]) / 2 if three else 0
    sl = np.minimum(vl[d] + c - np.sqrt(g * pl / rl), ut - ct)
    sr = np.maximum(vr[d] - c + np.sqrt(g * pr / rr), ut + ct)
    return sl, sr


def f_hll(eq, l, r, d, g):
    sl, sr = hll_speeds(eq, l, r, d, g, False)
    fl, fr = flux(eq, l, d, g), flux(eq, r, d, g)
    with np.errstate(all="ignore"):
        mid = (sr * fl - sl * fr + sl * sr * (r - l)) / (sr - sl)
    return np.where(sl >= 0, fl, np.where(sr <= 0, fr, mid))


def f_hll3(eq, l, r, d, g):
    """Three-wave solver of Toro/Spruce/Speares type (contact restored)."""
    n = ndim_vel(eq)
    sl, sr = hll_speeds(eq, l, r, d, g, True)
    fl, fr = flux(eq, l, d, g), flux(eq, r, d, g)
    rl, vl, pl = prim(l, n, g)
    rr, vr, pr = prim(r, n, g)
    # conservation over the fan: mass, normal and transverse momentum
    a = rr * (vr[d] - sr) - rl * (vl[d] - sl)
    sm = (rr * vr[d] * (vr[d] - sr) - rl * vl[d] * (vl[d] - sl) + pr - pl) / a
    us = (fr[1:1 + n] - fl[1:1 + n] - sr * r[1:1 + n] + sl * l[1:1 + n]) / a
    us[d] = sm

    def side(u, f, rho, vn, p, s):
        q = vn - s
        rs = rho * q / (sm - s)
        ps = p + rho * (vn - sm) * q
        Es = (q * u[n + 1] + p * vn - ps * sm) / (sm - s)
        star = np.concatenate([rs[None], rs[None] * us, Es[None]])
        return f + s * (star - u)
    with np.errstate(all="ignore"):
        ml = side(l, fl, rl, vl[d], pl, sl)
        mr = side(r, fr, rr, vr[d], pr, sr)
    return np.where(sl >= 0, fl, np.where(sr <= 0, fr, np.where(sm >= 0, ml, mr)))


def f_central(eq, l, r, d, g):
    return (flux(eq, l, d, g) + flux(eq, r, d, g)) / 2


def f_rusanov(eq, l, r, d, g):
    s = np.maximum(wavespeed(eq, l, d, g), wavespeed(eq, r, d, g))
    return f_central(eq, l, r, d, g) - s * (r - l) / 2


def f_godunov(eq, l, r, d, g):
    """Exact scalar Riemann solver: extremum of f between the states."""
    fl, fr = flux(eq, l, d), flux(eq, r, d)
    lo, hi = np.minimum(fl, fr), np.maximum(fl, fr)
    if eq == "burgers":  # the only critical point of f is 0, a minimum
        inside = (np.minimum(l, r) <= 0) & (np.maximum(l, r) >= 0)
        lo = np.where(inside, 0, lo)
    # on [0,1] the Buckley-Leverett flux is increasing; cubic and linear always are
    return np.where(l <= r, lo, hi)


def f_roe_burgers(eq, l, r, d, g):
    """Roe's upwinding with the sonic entropy fix, which is the exact solution."""
    return f_godunov(eq, l, r, d, g)


def f_upwind(eq, l, r, d, g):
    return flux(eq, l, d)


BOUND = (L(0), L(2))  # range of the logarithmic entropy of the scalar equations


def scalar_entropy(u):
    a, b = BOUND
    return -np.log(b - u) - np.log(u - a)


def scalar_v(u):
    a, b = BOUND
    return 1 / (b - u) - 1 / (u - a)


def scalar_psi(u):
    a, b = BOUND
    return scalar_v(u) * u * u / 2 - (-2 * u - b * np.log(b - u) - a * np.log(u - a))


def f_tecno_burgers(eq, l, r, d, g):
    # [psi]/[v] = mean over the segment in v of f(u(v)); stable by quadrature when close
    same = abs(r - l) < 1e-4
    vl, vr = scalar_v(l), scalar_v(r)
    with np.errstate(all="ignore"):
        direct = (scalar_psi(r) - scalar_psi(l)) / (vr - vl)
    # Gauss-Legendre in u with weight v'(u) = 1/(b-u)^2 + 1/(u-a)^2
    x, w = np.polynomial.legendre.leggauss(8)
    num, den = 0, 0
    for xi, wi in zip(x, w):
        u = (l + r) / 2 + (r - l) / 2 * L(xi)
        k = 1 / (BOUND[1] - u) ** 2 + 1 / (u - BOUND[0]) ** 2
        num = num + L(wi) * k * u * u / 2
        den = den + L(wi) * k
    return np.where(same, num / den, direct)


def f_tecno_euler(eq, l, r, d, g):
    """Ismail-Roe entropy conservative flux in parameter vector form."""
    n = ndim_vel(eq)
    rl, vl, pl = prim(l, n, g)
    rr, vr, pr = prim(r, n, g)
    z1l, z1r = np.sqrt(rl / pl), np.sqrt(rr / pr)
    z5l, z5r = np.sqrt(rl * pl), np.sqrt(rr * pr)
    z1 = (z1l + z1r) / 2
    z5 = (z5l + z5r) / 2
    v = (z1l * vl + z1r * vr) / 2 / z1
    z1n, z5n = logmean(z1l, z1r), logmean(z5l, z5r)
    f0 = v[d] * z1 * z5n
    fm = v * f0
    fm[d] = fm[d] + z5 / z1
    fE = ((g + 1) / (g - 1) * f0 / z1n + (z1 * v * fm).sum(0)) / (2 * z1)
    return np.concatenate([f0[None], fm, fE[None]])


BASE = {
    "euler": dict(hll=f_hll, hll3=f_hll3, central=f_central, tecno1=f_tecno_euler),
    "burgers": dict(central=f_central, rusanov=f_rusanov, godunov=f_godunov, roe=f_roe_burgers,
                    tecno1=f_tecno_burgers),
    "buckleyleverett": dict(central=f_central, rusanov=f_rusanov, godunov=f_godunov),
    "cubic": dict(central=f_central, rusanov=f_rusanov, roe=f_upwind),
    "linear": dict(central=f_central, rusanov=f_rusanov, upwind=f_upwind, roe=f_upwind),
}
COMBINED = {"tecno4": ("tecno1", 1), "tecno6": ("tecno1", 2), "godunov4": ("godunov", 1), "godunov6": ("godunov", 2)}


def family(eq):
    return "euler" if eq.startswith("euler") else eq


def fluxes(eq):
    b = list(BASE[family(eq)])
    if family(eq) in ("euler", "burgers"):
        b += ["tecno4", "tecno6"]
    if eq == "burgers":
        b += ["godunov4", "godunov6"]
    return b


def flux_width(name):
    """Cells on each side of an interface."""
    return 1 + COMBINED[name][1] if name in COMBINED else 1


def flux_ghosts(name):
    return 2 * flux_width(name) - 1


# published coefficients of the linear combinations
COMB_COEF = {1: {(0, 1): L(4) / 3, (-1, 1): -L(1) / 6, (0, 2): -L(1) / 6},
             2: {(0, 1): L(3) / 2, (-1, 1): -L(3) / 10, (0, 2): -L(3) / 10,
                 (-2, 1): L(1) / 30, (-1, 2): L(1) / 30, (0, 3): L(1) / 30}}


def sh(a, k, d):
    """value of cell i+k at position i along direction d."""
    return np.roll(a, -k, axis=a.ndim - 1 - d)


def interface_flux(eq, name, left, right, d, g):
    """Flux at the right interface of every cell.  left/right: values of each cell at its own
    lower/upper edge (both the average without reconstruction)."""
    if name in COMBINED:
        base, k = COMBINED[name]
        f = BASE[family(eq)][base]
        # the wide fluxes are defined on one set of values
        tot = 0
        for (a, b), c in COMB_COEF[k].items():
            tot = tot + c * f(eq, sh(left, a, d), sh(left, b, d), d, g)
        return tot
    return BASE[family(eq)][name](eq, right, sh(left, 1, d), d, g)


# ---------------------------------------------------------------- reconstruction
def minmod(*a):
    a = np.stack(a)
    lo, hi = a.min(0), a.max(0)
    return np.where(lo > 0, lo, np.where(hi < 0, hi, 0))


ENO_C = {}


def _eno_coeffs(k):
    """Coefficients of cell-average interpolation, from the definition (Shu's lecture notes)."""
    from fractions import Fraction as Fr
    C = {}
    for r in range(-1, k):
        row = []
        for j in range(k):
            s = Fr(0)
            for m in range(j + 1, k + 1):
                num, den = Fr(0), Fr(1)
                for l in range(k + 1):
                    if l != m:
                        den *= m - l
                        q = Fr(1)
                        for t in range(k + 1):
                            if t != m and t != l:
                                q *= r - t + 1
                        num += q
                s += num / den
            row.append(L(s.numerator) / L(s.denominator))
        C[r] = row
    return C


def edge_value(u, d, k, r, side):
    """Value at the upper (side=1) or lower edge of cell i from cells i-r..i-r+k-1."""
    if k not in ENO_C:
        ENO_C[k] = _eno_coeffs(k)
    c = ENO_C[k][r if side else r - 1]
    return sum(c[j] * sh(u, j - r, d) for j in range(k))


def eno_shift(w, d, k):
    """Number of cells the stencil extends to the left, by the ENO rule on the indicator w."""
    shift = np.zeros(w.shape, int)
    dd = w
    for level in range(k - 1):
        dd = sh(dd, 1, d) - dd  # dd[i]: undivided difference of cells i..i+level+1
        # current stencil starts at i-shift; adding the left cell gives dd[i-shift-1],
        # adding the right cell gives dd[i-shift]
        left = np.zeros_like(w)
        right = np.zeros_like(w)
        for s in range(level + 1):
            left = np.where(shift == s, abs(sh(dd, -s - 1, d)), left)
            right = np.where(shift == s, abs(sh(dd, -s, d)), right)
        shift = shift + (left < right)
    return shift


RECON_GHOSTS = dict(none=1, eno2=2, eno3=3, eno4=4, weno2=2, weno3=3, wenof2=2, mc=2, mm=2)
EPS_WENO = L(1e-8)


def weno_weights(w, d, k):
    if k == 2:
        beta = [(sh(w, 1, d) - w) ** 2, (w - sh(w, -1, d)) ** 2]
        dr = [L(2) / 3, L(1) / 3]
    else:
        a, b, c, e, f = (sh(w, j, d) for j in (-2, -1, 0, 1, 2))
        beta = [L(13) / 12 * (c - 2 * e + f) ** 2 + (3 * c - 4 * e + f) ** 2 / 4,
                L(13) / 12 * (b - 2 * c + e) ** 2 + (b - e) ** 2 / 4,
                L(13) / 12 * (a - 2 * b + c) ** 2 + (a - 4 * b + 3 * c) ** 2 / 4]
        dr = [L(3) / 10, L(3) / 5, L(1) / 10]
    out = []
    for co in (dr[::-1], dr):  # lower edge, upper edge
        al = [co[r] / (EPS_WENO + beta[r]) ** 2 for r in range(k)]
        s = sum(al)
        out.append([x / s for x in al])
    return out


def reconstruct(name, u, d, eq, g=None):
    """-> (value at lower edge, value at upper edge) of every cell (periodic roll: edges need ghosts)."""
    if name == "none":
        return u, u
    if name in ("mc", "mm"):
        dl, dr = u - sh(u, -1, d), sh(u, 1, d) - u
        s = minmod(2 * dl, (dl + dr) / 2, 2 * dr) if name == "mc" else minmod(dl, dr)
        return u - s / 2, u + s / 2
    w = u[:1]
    if name.startswith("eno"):
        k = int(name[3])
        s = eno_shift(w, d, k)
        lo = sum(np.where(s == r, edge_value(u, d, k, r, 0), 0) for r in range(k))
        hi = sum(np.where(s == r, edge_value(u, d, k, r, 1), 0) for r in range(k))
        return lo, hi
    if name in ("weno2", "weno3"):
        k = int(name[4])
        wl, wh = weno_weights(w, d, k)
        lo = sum(wl[r] * edge_value(u, d, k, r, 0) for r in range(k))
        hi = sum(wh[r] * edge_value(u, d, k, r, 1) for r in range(k))
        return lo, hi
    if name == "wenof2":
        n = ndim_vel(eq)
        wts = weno_weights(w, d, 2)
        rho, v, p = prim(u, n, g)
        q = np.concatenate([rho[None], v, p[None]])
        res = []
        for side in (0, 1):
            # slope: convex combination of one-sided differences of primitive variables
            dq = wts[side][1] * (q - sh(q, -1, d)) + wts[side][0] * (sh(q, 1, d) - q)
            dq[0] = np.clip(dq[0], -L(1.9) * rho, L(1.9) * rho)
            dq[-1] = np.clip(dq[-1], -L(1.9) * p, L(1.9) * p)
            du = dq[1:1 + n]
            du2 = (du * du).sum(0)
            lll = rho * du2 / 8 - np.minimum(0, dq[0] * (v * du).sum(0)) / 2 + dq[0] ** 2 * du2 / rho / 2
            R = p / (g - 1)
            a = np.sqrt(R / np.maximum(R, lll)) / 2
            e = q + (a if side else -a) * dq
            res.append(cons(e[0], e[1:1 + n], e[-1], g))
        return res[0], res[1]
    raise ValueError(name)


# ---------------------------------------------------------------- boundary and operator
def active(dims):
    """Directions with ghost cells: x always, y and z when they have more than one cell."""
    return [True, dims[1] > 1, dims[2] > 1]


def pad(u, ng, bc):
    """bc: 'periodic', 'neumann' or six letters (p/n) for x-,x+,y-,y+,z-,z+."""
    bc = {"periodic": "pppppp", "neumann": "nnnnnn"}.get(bc, bc)
    nz, ny, nx = u.shape[1:]
    act = active((nx, ny, nz))
    for d in range(3):
        if not act[d]:
            continue
        ax = u.ndim - 1 - d
        n = u.shape[ax]
        idx = []
        for i in range(-ng, n + ng):
            if 0 <= i < n:
                idx.append(i)
            else:
                kind = bc[2 * d + (1 if i >= n else 0)]
                idx.append(i % n if kind == "p" else (-1 - i if i < 0 else 2 * n - 1 - i))
        u = np.take(u, idx, axis=ax)
    return u


def crop(u, ng, act):
    sl = [slice(None)] + [slice(ng, -ng) if act[d] and ng else slice(None) for d in (2, 1, 0)]
    return u[tuple(sl)]


def entropy_v(eq, u, g):
    if eq in SCALAR:
        return scalar_v(u)
    n = ndim_vel(eq)
    rho, v, p = prim(u, n, g)
    s = np.log(p) - g * np.log(rho)
    return np.concatenate([((g - s) / (g - 1) - rho * (v * v).sum(0) / 2 / p)[None],
                           rho * v / p, (-rho / p)[None]])


def entropy(eq, u, g):
    if eq in SCALAR:
        return scalar_entropy(u)[0]
    n = ndim_vel(eq)
    rho, v, p = prim(u, n, g)
    return -rho * (np.log(p) - g * np.log(rho)) / (g - 1)


def rhs_flux(eq, name, recon, u, h, bc, g=None, dims=None):
    """du/dt of the finite volume scheme and the sum of |flux| scales (for tolerances)."""
    u = np.asarray(u, dtype=L)
    nz, ny, nx = u.shape[1:]
    act = active((nx, ny, nz))
    fg = flux_ghosts(name)
    ng = max(fg, (fg + 1) // 2 - 1 + RECON_GHOSTS[recon])
    e = pad(u, ng, bc)
    out = np.zeros_like(u)
    scale = L(0)
    ws = [L(0)] * 3
    for d in range(3):
        if d and u.shape[3 - d] == 1:
            continue
        lo, hi = reconstruct(recon, e, d, eq, g)
        F = interface_flux(eq, name, lo, hi, d, g)
        diff = -(F - sh(F, -1, d)) / L(h[d])
        out = out + crop(diff, ng, act)
        scale = scale + np.max(abs(crop(F, ng, act))) / L(h[d])
    return out, scale


# ---------------------------------------------------------------- time integrators
RK = {
    "forwardeuler": ([[0]], [1]),
    "rungekutta2": ([[0, 0], [1, 0]], [.5, .5]),
    "rungekutta3": ([[0, 0, 0], [1, 0, 0], [.25, .25, 0]], [L(1) / 6, L(1) / 6, L(2) / 3]),
    "rungekutta4": ([[0, 0, 0, 0], [.5, 0, 0, 0], [0, .5, 0, 0], [0, 0, 1, 0]],
                    [L(1) / 6, L(1) / 3, L(1) / 3, L(1) / 6]),
}


def rk_step(name, f, u, dt):
    A, b = RK[name]
    k = []
    for row in A:
        y = u
        for a, kk in zip(row, k):
            if a:
                y = y + dt * L(a) * kk
        k.append(f(y))
    return u + dt * sum(L(w) * kk for w, kk in zip(b, k))
