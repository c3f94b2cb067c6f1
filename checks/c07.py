from vh.fw import *
from vh import gen, ref

ID = "C07"
TARGETS = ["alsh"]
RULE = ("A case is a time integrator, a scheme, a boundary condition, a grid and data; every step "
        "of a short run is compared with the published tableau applied to the spatial operator "
        "(evaluated on its own, ghost cells refilled before each stage) with the step length the "
        "run reports (tableau), and for scalar equations and first-order fluxes with the method "
        "of lines computed wholly in extended precision (reference). Step lengths vary by CFL "
        "number and by a snapshot schedule. Non-trivial: the state changes by more than 1e-6.")


@st.composite
def cases(draw, refer):
    if refer:
        c = draw(gen.scheme(diff=False, recons=["none", "mc", "mm"],
                            fluxes=["rusanov", "upwind", "hll", "central"]))
    else:
        c = draw(gen.scheme())
    c["bc"] = draw(st.sampled_from(["periodic", "neumann"]))
    c["n"] = draw(gen.shape(c["nd"], lo=gen.min_cells(c), hi={1: 20, 2: 8, 3: 6}[c["nd"]]))
    c["box"] = draw(gen.box(c["nd"]))
    # equal differences make the ENO choice hang on the rounding of the stages
    ties = "eno" in c["recon"] or "eno" in c.get("diffrecon", "")
    c["f"] = draw(gen.field(kinds=["rand"] if ties else ["rand", "sine", "step", "spike"]))
    if c["f"]["a"] < 0.1:
        c["f"]["a"] = 0.5
    if c["eq"] == "burgers" and ("tecno" in c["flux"] or "diff" in c):
        c["rng"] = [0.4, 1.6]
    if c["eq"].startswith("euler"):
        c["mach"] = 0.3
        c["f"]["a"] = min(c["f"]["a"], 0.5)
    c["cfl"] = draw(st.sampled_from([0.3, 0.1, 0.02, 0.475]))
    c["steps"] = draw(st.integers(1, 4))
    c["sched"] = draw(st.sampled_from([0, 0, 0.37, 0.9]))
    return c


def simulate(env, c, u):
    kw = gen.args(c)
    if c["sched"]:
        # a snapshot time that shortens some step
        r = env.call("rhs", {"u": u}, mode="system", **kw)
        s = sum(r["ws"][d] / r["h"][d] for d in range(c["nd"]))
        if not s > 0:
            return None
        kw["writers"] = "raw;fixed,%s,1e300,1" % float(c["cfl"] / s * c["sched"]).hex()
    r = env.call("sim", {"u": u}, end=1e300, maxsteps=c["steps"], **kw)
    t = r["t0"]
    return t, r["s0"].reshape((len(t),) + u.shape)


def steps_agree(c, u, t, s, f, tol):
    moved = None
    for k in range(len(t) - 1):
        dt = t[k + 1] - t[k]
        if not np.isfinite(dt):
            return None
        with np.errstate(all="ignore"):
            exp = np.array(ref.rk_step(c["integ"], f, s[k].astype(np.longdouble),
                                       np.longdouble(dt)), dtype=float)
        if not np.all(np.isfinite(exp)):
            return moved
        scale = np.max(np.abs(s[k])) + np.max(np.abs(exp - s[k]))
        # the reported times carry the rounding of their sum
        rel = tol + 4e-16 * abs(t[k + 1]) / dt
        e = np.abs(s[k + 1] - exp)
        check(np.max(e) <= rel * scale, lambda: "step %d of length %.6g with %s is off by %.3g "
              "(%.3g of the change)" % (k, dt, c["integ"], np.max(e),
                                        np.max(e) / np.max(np.abs(exp - s[k]))), "rk")
        if np.max(np.abs(exp - s[k])) > 1e-6 * scale:
            moved = "%s %s %dd" % (c["integ"], c["eq"], c["nd"])
    return moved


def tableau(env, c):
    u = gen.data(c)
    res = simulate(env, c, u)
    if res is None:
        return None
    kw = gen.args(c)

    def f(y):
        r = env.call("rhs", {"u": np.array(y, dtype=float)}, mode="system", **kw)
        return (r["out"].reshape(u.shape) / r["h"][0]).astype(np.longdouble)
    return steps_agree(c, u, *res, f, 1e-11)


def reference(env, c):
    u = gen.data(c)
    res = simulate(env, c, u)
    if res is None:
        return None
    h = gen.cell_lengths(c)
    return steps_agree(c, u, *res, lambda y: ref.rhs_flux(
        c["eq"], c["flux"], c["recon"], y, h, c["bc"], c.get("gamma"))[0], 1e-11)


SUBS = [Sub("tableau", cases(False), tableau, 2), Sub("reference", cases(True), reference, 1)]
