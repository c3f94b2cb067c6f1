from vh.fw import *
from vh import gen, ref

ID = "C01"
TARGETS = ["alsh"]
RULE = ("A case is a scheme (equation, dimension, flux, reconstruction, diffusion, integrator), "
        "a periodic grid with generated cell sizes and generated data, run for a few steps (run) "
        "or put through the spatial operator once (operator). Non-trivial: the state changed by "
        "more than 1e-9 relative and the run did not stop with an error.")


@st.composite
def cases(draw, op):
    c = draw(gen.scheme(dims=draw(st.sampled_from([[1], [2], [3], [1, 2, 3]])), integ=op != "rhs"))
    c["bc"] = "periodic"
    c["n"] = draw(gen.shape(c["nd"], lo=gen.min_cells(c)))
    c["box"] = draw(gen.box(c["nd"]))
    c["f"] = draw(gen.field())
    if c["eq"] == "burgers" and ("tecno" in c["flux"] or "diff" in c):
        c["rng"] = gen.positive_range("burgers")
    if op == "run":
        c["cfl"] = draw(st.sampled_from([0.4, 0.2, 0.9]))
        c["steps"] = draw(st.integers(1, 6))
    return c


def integral_error(u0, u1, nv):
    a, b = u0.reshape(nv, -1).astype(np.longdouble), u1.reshape(nv, -1).astype(np.longdouble)
    return np.abs(b.sum(1) - a.sum(1)), a.shape[1]


def operator(env, c):
    u = gen.data(c)
    nv = gen.nvars(c["eq"])
    r = env.call("rhs", {"u": u}, mode="system", **gen.args(c))
    out = r["out"].reshape(nv, -1).astype(np.longdouble)
    if not np.all(np.isfinite(out)):
        return None
    n = out.shape[1]
    # the size of the fluxes that have to cancel
    g = c.get("gamma")
    fl = 0
    for d in range(c["nd"]):
        f = np.abs(np.array(ref.flux(c["eq"], u.astype(np.longdouble), d, g), dtype=float))
        w = np.array(ref.wavespeed(c["eq"], u.astype(np.longdouble), d, g), dtype=float)
        fl = fl + (np.max(f) + np.max(w) * np.max(np.abs(u))) * r["h"][0] / r["h"][d]
    tol = 1e-11 * n * (fl + np.max(np.abs(out))) + 1e-300
    s = np.abs(out.sum(1))
    check(np.all(s <= tol), lambda: "the net change %s of the integral is not zero (%d cells, "
          "fluxes of size %.3g)" % ([float(x) for x in s], n, fl), "sum")
    return c["eq"] + str(c["nd"]) if np.max(np.abs(out)) > 1e-9 * fl else None


def run_(env, c):
    u = gen.data(c)
    nv = gen.nvars(c["eq"])
    r = env.call("sim", {"u": u}, end=1e9, maxsteps=c["steps"], **gen.args(c))
    t, s = r["t0"], r["s0"].reshape(-1, nv, u[0].size)
    if not len(t):
        return None
    check(len(t) == len(s), "snapshots")
    start, n = u.reshape(nv, -1).astype(np.longdouble), u[0].size
    moved = 0
    for k in range(len(t)):
        if not np.all(np.isfinite(s[k])):
            return None
        h = gen.cell_lengths(c)
        scale = np.max(np.abs(s[:k + 1])) + np.max(np.abs(u))
        tol = 3e-12 * n * (k + 1) * scale
        e = np.abs(s[k].astype(np.longdouble).sum(1) - start.sum(1))
        check(np.all(e <= tol), lambda: "after %d steps the sums over the cells changed by %s "
              "(values of size %.3g, %d cells)" % (k, [float(x) for x in e], scale, n), "sum")
        moved = max(moved, np.max(np.abs(s[k] - u.reshape(nv, -1))) / scale)
    return c["eq"] + str(c["nd"]) if moved > 1e-9 else None


SUBS = [Sub("operator", cases("rhs"), operator, 2), Sub("run", cases("run"), run_, 2)]
