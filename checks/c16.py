from vh.fw import *
from vh import gen, ref

ID = "C16"
TARGETS = ["alsh"]
RULE = ("A case is an equation, a gas constant and a few states drawn over several orders of "
        "magnitude (at rest, sonic, supersonic, near vacuum, equal components) - for the "
        "admissibility predicate also non-finite and unphysical ones, placed in one cell of a "
        "grid. Every definition is compared with its formula in extended precision or with the "
        "numerical derivative it has to equal. Each case with a state not at rest is "
        "non-trivial.")
ASSUME = ["entropy functions are compared for burgers (states in (0,2)) and the Euler equations, "
          "the only equations with schemes that use them"]
LD = np.longdouble


@st.composite
def states(draw):
    eq = draw(st.sampled_from(gen.EQS))
    c = dict(eq=eq, gamma=draw(st.one_of(gen.GAMMA, st.floats(1.05, 3.0))), p=[])
    for _ in range(draw(st.integers(1, 3))):
        if eq.startswith("euler"):
            n = int(eq[5])
            rho = 10 ** draw(st.floats(-3, 2))
            p = 10 ** draw(st.floats(-3, 2))
            a = float(np.sqrt(c["gamma"] * p / rho))
            v = [draw(st.one_of(st.just(0.0), st.sampled_from([a, -a]),
                                st.floats(-4, 4).map(lambda m: m * a))) for _ in range(n)]
            c["p"].append([rho] + v + [p])
        elif eq == "burgers":
            c["p"].append([draw(st.floats(0.05, 1.95))])
        elif eq == "buckleyleverett":
            c["p"].append([draw(st.floats(0, 1))])
        else:
            c["p"].append([draw(st.floats(-5, 5))])
    return c


def near(a, b, scale, tol, what, key):
    a, b = np.asarray(a, float), np.asarray(b, float)
    err = np.max(np.abs(a - b) / scale)
    check(err <= tol, lambda: "%s: %s instead of %s" % (what, a.ravel()[:8], b.ravel()[:8]), key)


def ev_states(env, c):
    eq, g = c["eq"], c["gamma"]
    nv = gen.nvars(eq)
    p = np.array(c["p"])
    r = env.call("eq", {"p": p}, eq=eq, gamma=g)
    P = p.astype(LD).T
    U = P if nv == 1 else ref.cons(P[0], P[1:-1], P[-1], LD(g))
    U = np.asarray(U)
    us = np.max(np.abs(U), axis=0) + LD(1e-300)
    nst = p.shape[0]
    near(r["cons"].reshape(nst, nv), U.T, us[:, None], 1e-14, "conserved variables", "conserved")
    if nv > 1:
        # going back loses digits where the kinetic energy dominates
        for k in range(nst):
            kin = float(U[-1, k] / (P[-1, k] / (LD(g) - 1)))
            q = r["prim"].reshape(nst, nv)[k]
            tol = 1e-14 * kin * 4 + 1e-14
            vs = float(max(np.max(np.abs(P[1:-1, k])), 1e-300))
            check(abs(q[0] - p[k][0]) <= 1e-15 * p[k][0] * 4 and
                  np.all(np.abs(q[1:-1] - p[k][1:-1]) <= 1e-14 * vs) and
                  abs(q[-1] - p[k][-1]) <= tol * p[k][-1],
                  lambda: "primitive -> conserved -> primitive: %s from %s" % (q, p[k]), "prim")
    else:
        check(np.array_equal(r["prim"], p.ravel()), "primitive variables", "prim")
    check(np.all(r["obeys"] == 1), "an admissible state is called inadmissible", "obeys")
    nd = int(eq[5]) if nv > 1 else 3
    u64 = np.array(U, dtype=float).T
    for d in range(nd):
        F = np.asarray(ref.flux(eq, U, d, LD(g))).T
        fs = np.max(np.abs(F), axis=1, keepdims=True) + 1e-300
        w = np.asarray(ref.wavespeed(eq, U, d, LD(g)))
        if nv > 1:
            kin = np.array(U[-1] / (P[-1] / (LD(g) - 1)), dtype=float)
        else:
            kin = np.ones(nst)
        near(r["f%d" % d].reshape(nst, nv), F, fs, 1e-13 * kin.max(), "flux in direction %d" % d,
             "flux")
        near(r["ws%d" % d], w, np.abs(w) + (1e-300 if nv > 1 else 1e-3), 1e-13 * kin.max(),
             "largest wave speed in direction %d" % d, "speed")
        ev = r["ev%d" % d].reshape(nst, -1)
        R = r["R%d" % d].reshape(nst, nv, nv)
        if eq in ("buckleyleverett", "cubic", "linear"):
            pass
        for k in range(nst):
            if nv == 1:
                near(ev[k], ref.dflux(eq, U[0, k]), abs(w[k]) + 1e-3, 1e-12,
                     "eigenvalue in direction %d" % d, "eigen")
                continue
            un = P[1 + d, k]
            a = np.sqrt(LD(g) * P[-1, k] / P[0, k])
            lam = np.array([un - a] + [un] * nd + [un + a], dtype=float)
            near(ev[k], lam, float(abs(un) + a), 1e-13 * kin[k] + 1e-13,
                 "eigenvalues in direction %d" % d, "eigen")
            # A R = R diag(lambda), the Jacobian by differences of the exact flux
            A = jac(eq, U[:, k], d, LD(g))
            Rk = R[k].astype(LD)
            X, Y = A @ Rk, Rk * lam.astype(LD)
            s = np.abs(A) @ np.abs(Rk) + np.abs(Y)
            unit = np.array([1.0] + [float(a)] * nd + [float(a * a)])[:, None]
            size = np.max(np.abs(Rk) / unit, axis=0) * unit * float(a + abs(un))
            bad = np.abs(X - Y) > 1e-8 * kin[k] * (s + 1e-3 * size)
            check(not np.any(bad), lambda: "eigenvectors in direction %d: column %d does not "
                  "satisfy A r = lambda r for state %s (gamma %.4g)" %
                  (d, int(np.argwhere(bad)[0][1]), list(p[k]), g), "vectors")
            # in units of the sound speed
            nrm = R[k] / np.array([1.0] + [float(a)] * nd + [float(a * a)])[:, None]
            nrm = nrm / np.linalg.norm(nrm, axis=0)
            check(np.abs(np.linalg.det(nrm)) > 1e-7, "eigenvectors are dependent", "vectors")
    if nv > 1 or eq == "burgers":
        v = r["v"].reshape(nst, nv)
        V = np.asarray(ref.entropy_v(eq, U, LD(g))).T
        near(v, V, np.max(np.abs(V), axis=1, keepdims=True) + 1, 1e-12 * (kin.max() if nv > 1
             else 1), "entropy variables", "entropy")
        # gradient of the entropy by differences
        for k in range(nst):
            for j in range(nv):
                hh = LD(1e-7) * us[k] if nv > 1 else LD(1e-7)
                if nv > 1:
                    hh = LD(1e-6) * min(P[0, k], P[-1, k], LD(1)) * (1 / (1 + np.max(np.abs(
                        P[1:-1, k]))) if j else 1)
                e = np.zeros(nv, LD)
                e[j] = hh
                der = (ent(eq, U[:, k] + e, g) - ent(eq, U[:, k] - e, g)) / (2 * hh)
                check(abs(der - LD(v[k, j])) <= 1e-4 * (np.max(np.abs(V[k])) + 1) *
                      float(kin[k] if nv > 1 else 1),
                      lambda: "entropy variable %d is %.10g, the derivative of the entropy is "
                      "%.10g" % (j, v[k, j], float(der)), "entropy")
        psi = r["psi"].reshape(nst, -1)
        if nv > 1:
            near(psi, (P[0] * P[1:-1]).T, np.abs(P[0] * np.max(np.abs(P[1:-1]), axis=0))[:, None]
                 + 1e-300, 1e-13, "entropy potential", "psi") if psi.shape[1] == nd else None
        else:
            near(psi[:, 0], ref.scalar_psi(U[0]), 1 + np.abs(V[:, 0]), 1e-12,
                 "entropy potential", "psi")
            # psi' = v' f
            hh = LD(1e-6)
            dpsi = (ref.scalar_psi(U[0] + hh) - ref.scalar_psi(U[0] - hh)) / (2 * hh)
            dv = (ref.scalar_v(U[0] + hh) - ref.scalar_v(U[0] - hh)) / (2 * hh)
            near(dpsi, dv * U[0] ** 2 / 2, 1 + np.abs(dv), 1e-6, "harness: potential", None)
    return eq if np.any(p[:, 1:-1]) or nv == 1 else None


def ent(eq, u, g):
    return np.asarray(ref.entropy(eq, np.asarray(u, dtype=LD).reshape(-1, 1, 1, 1), LD(g))).ravel()[0]


def jac(eq, u, d, g):
    n = len(u)
    A = np.zeros((n, n), LD)
    rho, m, E = u[0], u[1:-1], u[-1]
    v = m / rho
    q = (v * v).sum() / 2
    p = (g - 1) * (E - rho * q)
    H = (E + p) / rho
    # exact Jacobian of the Euler flux
    dp = np.concatenate([[(g - 1) * q], -(g - 1) * v, [g - 1]])
    A[0, 1 + d] = 1
    for i in range(n - 2):
        A[1 + i, 0] += -v[i] * v[d]
        A[1 + i, 1 + i] += v[d]
        A[1 + i, 1 + d] += v[i]
        if i == d:
            A[1 + i] += dp
    A[-1] += v[d] * dp
    A[-1, -1] += v[d]
    A[-1, 0] += -v[d] * H
    A[-1, 1 + d] += H
    return A


@st.composite
def grids(draw):
    eq = draw(st.sampled_from(gen.EQS))
    nd = draw(st.sampled_from(gen.eq_dims(eq)))
    c = dict(eq=eq, nd=nd, n=draw(gen.shape(nd, lo=1)), ng=draw(st.integers(0, 3)),
             gamma=draw(gen.GAMMA), f=draw(gen.field()), mach=1.0,
             bad=draw(st.sampled_from(["none", "nan", "inf", "-inf", "rho0", "rho-", "p0",
                                       "p-"])),
             at=draw(st.integers(0, 10 ** 6)), var=draw(st.integers(0, 9)))
    return c


def ev_grids(env, c):
    """The predicate over a whole grid, the largest wave speed, the extra variables."""
    u = gen.data(c)
    eq, g, ng = c["eq"], c["gamma"], c["ng"]
    nv = gen.nvars(eq)
    act = ref.active(c["n"])
    full = np.array(ref.pad(u, ng, "periodic") if all(c["n"][d] >= 1 for d in range(3)) else u)
    idx = np.unravel_index(c["at"] % u[0].size, u[0].shape)
    pos = tuple(i + (ng if act[2 - k] else 0) for k, i in enumerate(idx))
    bad, expect = c["bad"], True
    cell = full[(slice(None),) + pos]
    if bad in ("nan", "inf", "-inf"):
        full[(c["var"] % nv,) + pos] = float(bad)
        expect = False
    elif nv > 1 and bad in ("rho0", "rho-", "p0", "p-"):
        q = np.array(ref.prim(cell.reshape(-1, 1, 1, 1), nv - 2, g)[2]).ravel()[0]
        if bad[0] == "r":
            full[(0,) + pos] = 0.0 if bad[-1] == "0" else -cell[0]
        elif bad == "p0":
            full[(slice(None),) + pos] = [1.0] + [0.0] * (nv - 1)
        else:
            full[(nv - 1,) + pos] = cell[-1] - 1.5 * q / (g - 1) - 1e-6
        expect = False
    r = env.call("cells", {"full": full}, eq=eq, gamma=g, nx=c["n"][0], ny=c["n"][1],
                 nz=c["n"][2], ng=ng, dims=c["nd"])
    check(bool(r.i("obeys")) == expect, "the state with %s in one cell is called %s" %
          (bad, "admissible" if r.i("obeys") else "inadmissible"), "predicate")
    if bad == "none":
        for d in range(c["nd"]):
            w = float(np.max(ref.wavespeed(eq, u.astype(LD), d, LD(g))))
            check(abs(r["ws"][d] - w) <= 1e-12 * (w + 1e-3), "largest wave speed in direction %d "
                  "is %.17g, not %.17g" % (d, r["ws"][d], w), "speed")
    return "%s %s" % (eq, bad)


SUBS = [Sub("states", states(), ev_states, 2), Sub("grids", grids(), ev_grids, 1)]
TIME = dict(quick=30, thorough=300)
