"""Reference values of the functionals for states [var,z,y,x] without ghost cells."""
import numpy as np
from numpy.polynomial import legendre as L


def legp(k, x):
    return L.legval(x, [0] * k + [1])


def dims(n):
    return 3 if n[2] > 1 else 2 if n[1] > 1 else 1


def bv(u, p):
    """u: [z,y,x] with one layer in z."""
    u = u[0]
    if u.shape[0] == 1:
        d = np.abs(np.diff(u[0]))
    else:
        a = u[1:, 1:] - u[1:, :-1]
        b = u[1:, 1:] - u[:-1, 1:]
        d = np.sqrt(a * a + b * b)
    return float(np.sum(d ** p))


def shifted(u, off, bc):
    """Array of u at the position moved by off = (dx,dy,dz)."""
    idx = []
    for ax, o in ((0, off[2]), (1, off[1]), (2, off[0])):
        i = np.arange(u.shape[ax]) + o
        i = np.mod(i, u.shape[ax]) if bc == "periodic" else np.clip(i, 0, u.shape[ax] - 1)
        idx.append(i)
    return u[np.ix_(*idx)]


def structure_base(u, direction, p, nh):
    out = []
    for h in range(nh):
        off = [0, 0, 0]
        off[direction] = h
        out.append(float(np.mean(np.abs(u - shifted(u, off, "periodic")) ** p)))
    return np.array(out)


def shell(h, nd):
    r = range(-h, h + 1)
    o = []
    for z in (r if nd > 2 else [0]):
        for y in (r if nd > 1 else [0]):
            for x in r:
                if max(abs(x), abs(y), abs(z)) == h:
                    o.append((x, y, z))
    return o


def structure_cube(u, p, nh, bc, nd):
    out = [0.0]
    for h in range(1, nh):
        s = 0.0
        for off in shell(h, nd):
            s += float(np.mean(np.abs(u - shifted(u, off, bc)) ** p))
        out.append(s)
    return np.array(out)


def log_entropy(u, gamma, vol):
    rho, m, E = u[0], u[1:-1], u[-1]
    p = (gamma - 1) * (E - np.sum(m * m, axis=0) / (2 * rho))
    s = np.log(p) - gamma * np.log(rho)
    return float(np.sum(-rho * s / (gamma - 1)) * vol)


def apply(f, u, names, n, lo, hi, bc):
    """f: dict with name and parameters. Returns [var,z,y,x] of the functional, None: refused."""
    nd = dims(n)
    k = f["name"]
    nv = len(names)
    h = [(hi[d] - lo[d]) / n[d] if d == 0 or n[d] > 1 else 1.0 for d in range(3)]
    vol = h[0] * h[1] * h[2]
    one = np.zeros((nv, 1, 1, 1))
    if k == "identity":
        return u.copy()
    if k == "moment":
        return u ** f["degree"]
    if k == "bv":
        if nd == 3:
            return None
        for v in range(nv):
            one[v] = bv(u[v], f["degree"])
        return one
    if k in ("legendre", "legendre_pointwise"):
        if nd != 2:
            return None
        chosen = f.get("variables", "").split() or names
        if any(c not in names for c in chosen):
            return None
        out = np.zeros_like(u) if k != "legendre" else one
        for c in chosen:
            v = names.index(c)
            s = (u[v] - f["minValue"]) / (f["maxValue"] - f["minValue"])
            if np.abs(s).max() > 1 + 1e-12:
                return None  # outside the interval of the polynomials
            if np.abs(s).max() > 1 - 1e-12:
                return "either"
            if k == "legendre_pointwise":
                out[v] += legp(f["degree"], s)
            else:
                x = 2 * (np.arange(n[0]) + 0.5) / n[0] - 1
                y = 2 * (np.arange(n[1]) + 0.5) / n[1] - 1
                out[v] += np.sum(legp(f["degree_k"], x)[None, None, :] *
                                 legp(f["degree_n"], y)[None, :, None] *
                                 legp(f["degree_m"], s)) * vol
        return out
    if k == "log_entropy":
        if names[0] != "rho":
            return None
        one[nv - 1] = log_entropy(u, f["gamma"], vol)
        return one
    if k == "structure_base":
        out = np.zeros((nv, 1, 1, f["numberOfH"]))
        for v in range(nv):
            out[v, 0, 0] = structure_base(u[v], f["direction"], f["p"], f["numberOfH"])
        return out
    if k == "structure_cube":
        if bc not in ("periodic", "neumann"):
            return None
        out = np.zeros((nv, 1, 1, f["numberOfH"]))
        for v in range(nv):
            out[v, 0, 0] = structure_cube(u[v], f["p"], f["numberOfH"], bc, nd)
        return out
    raise ValueError(k)
