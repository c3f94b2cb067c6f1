from vh.fw import *
from vh import gen, ref

ID = "C02"
TARGETS = ["alsh"]
RULE = ("A case is a scheme, a grid, a boundary condition and one state (generated, or chosen at "
        "rest, sonic in either sense, or at a zero of the derivative of the flux) in every cell, "
        "put through the spatial operator (operator) or run for several steps (run). Every such "
        "case is non-trivial; the label gives equation, dimension and kind of state.")


@st.composite
def cases(draw, op):
    c = draw(gen.scheme(integ=op == "run"))
    c["bc"] = draw(st.sampled_from(["periodic", "neumann"]))
    c["n"] = draw(gen.shape(c["nd"], lo=gen.min_cells(c)))
    c["box"] = draw(gen.box(c["nd"]))
    c["state"] = draw(st.sampled_from(["any", "rest", "sonic+", "sonic-", "super+", "super-",
                                       "zero"]))
    eq = c["eq"]
    lo, hi = gen.RANGE.get(eq, (0, 1))
    if eq == "burgers" and ("tecno" in c["flux"] or "diff" in c):
        lo, hi = 0.1, 1.9
    c["lohi"] = [lo, hi]
    c["v"] = [draw(st.floats(0, 1, width=32)) for _ in range(5)]
    c["sd"] = draw(st.integers(0, 2))
    if op == "run":
        c["cfl"] = draw(st.sampled_from([0.4, 0.9]))
        c["steps"] = draw(st.integers(1, 8))
    return c


def state(c):
    eq, v = c["eq"], c["v"]
    if not eq.startswith("euler"):
        lo, hi = c["lohi"]
        x = lo + (hi - lo) * v[0]
        if c["state"] in ("rest", "zero") and lo <= 0:
            x = 0.0
        if c["state"] == "super+":
            x = hi
        if c["state"] == "super-":
            x = lo
        return np.array([x])
    n = int(eq[5])
    g = c["gamma"]
    rho, p = 0.2 * 15 ** v[0], 0.2 * 15 ** v[1]
    a = np.sqrt(g * p / rho)
    vel = np.array([2 * x - 1 for x in v[2:2 + n]]) * c["mach"]
    d = c["sd"] % n
    if c["state"] == "rest":
        vel[:] = 0
    if c["state"] == "zero":
        vel[d] = 0
    if c["state"].startswith("sonic"):
        vel[d] = a if c["state"][-1] == "+" else -a
    if c["state"].startswith("super"):
        vel[d] = (1.5 + v[4]) * (a if c["state"][-1] == "+" else -a)
    return np.concatenate([[rho], vel, [p]])


def scales(c, s):
    """Size of the terms that have to cancel in the operator (times the x cell length)."""
    eq, g = c["eq"], c.get("gamma")
    u = gen.cons(eq, s.reshape(-1, 1, 1, 1), g)
    h = gen.cell_lengths(c)
    k = 0.0
    for d in range(c["nd"]):
        f = np.max(np.abs(np.array(ref.flux(eq, u.astype(np.longdouble), d, g), dtype=float)))
        w = float(np.max(ref.wavespeed(eq, u.astype(np.longdouble), d, g)))
        k += (f + w * np.max(np.abs(u))) * h[0] / h[d]
        if "diff" in c:
            v = np.max(np.abs(np.array(ref.entropy_v(eq, u.astype(np.longdouble), g),
                                       dtype=float)))
            r = 1.0
            if eq.startswith("euler"):
                n = int(eq[5])
                a = np.sqrt(g * s[-1] / s[0])
                q = np.sum(np.abs(s[1:1 + n]))
                H = (u.ravel()[-1] + s[-1]) / s[0]
                r = (1 + q + a + H + q * a + q * q) ** 2 * max(1, s[0])
            k += r * w * v * h[0] / h[d]
    return u, k


def operator(env, c):
    s = state(c)
    u, k = scales(c, s)
    full = np.broadcast_to(u, (u.shape[0],) + tuple(c["n"][::-1]))
    r = env.call("rhs", {"u": full}, mode="system", **gen.args(c))
    e = np.max(np.abs(r["out"])) if np.all(np.isfinite(r["out"])) else np.inf
    check(e <= 1e-11 * k + 1e-300, lambda: "the operator gives %.3g for the uniform state %s "
          "(terms of size %.3g)" % (e, list(s), k), "uniform")
    return "%s %dd %s" % (c["eq"], c["nd"], c["state"])


def run_(env, c):
    s = state(c)
    u, k = scales(c, s)
    full = np.broadcast_to(u, (u.shape[0],) + tuple(c["n"][::-1]))
    still = all(float(np.max(ref.wavespeed(c["eq"], u.astype(np.longdouble), d, c.get("gamma"))))
                < 1e-12 for d in range(c["nd"]))
    extra = dict(writers="raw;fixed,0.5,1e9,1") if still else {}
    r = env.call("sim", {"u": full}, end=1e300, maxsteps=c["steps"], **gen.args(c, **extra))
    check(r.i("steps") == c["steps"] and not r.s("failure"),
          lambda: "the run of a uniform state stopped: " + r.s("failure"), "stopped")
    t, x = r["t0"], r["s0"].reshape(len(r["t0"]), -1)
    dt = np.max(np.diff(t)) if len(t) > 1 else 0
    tol = (1e-11 * k * dt / gen.cell_lengths(c)[0] + 1e-14 * np.max(np.abs(u))) * len(t) * 10
    e = np.max(np.abs(x - full.ravel()[None]))
    check(e <= tol, lambda: "the uniform state %s changed by %.3g after %d steps" %
          (list(s), e, c["steps"]), "uniform")
    return "%s %dd %s" % (c["eq"], c["nd"], c["state"])


SUBS = [Sub("operator", cases("op"), operator, 2), Sub("run", cases("run"), run_, 1)]
