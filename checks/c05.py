from vh.fw import *
from vh import gen, ref

ID = "C05"
TARGETS = ["alsh"]
RULE = ("A case is a scalar equation with a monotone flux, a grid, data inside the range in which "
        "the equation is defined and a scheme: first order with forward Euler or a strong-"
        "stability-preserving integrator at CFL numbers up to 0.9, or a TVD limiter with the "
        "default CFL number 0.475. Range and (in 1D) total variation are compared after every "
        "step (bounds); two ordered data sets, and two arbitrary ones, are advanced with a common "
        "step (ordering: order kept, L1 distance not increased). Non-trivial: the data is not "
        "constant and the state changes.")
MONO = dict(burgers=["godunov", "roe", "rusanov"], buckleyleverett=["godunov"],
            cubic=["rusanov", "roe"], linear=["rusanov", "upwind", "roe"])


@st.composite
def base(draw, eqs=None):
    eq = draw(st.sampled_from(eqs or list(MONO)))
    nd = draw(st.sampled_from([1, 1, 2, 3]))
    c = dict(eq=eq, nd=nd, flux=draw(st.sampled_from(MONO[eq])), recon="none",
             bc=draw(st.sampled_from(["periodic", "neumann"])))
    return c


def grid(draw, c):
    c["n"] = draw(gen.shape(c["nd"], lo=gen.min_cells(c), hi={1: 40, 2: 10, 3: 6}[c["nd"]]))
    c["box"] = draw(gen.box(c["nd"]))
    c["f"] = draw(gen.field())
    return c


@st.composite
def bounded(draw):
    c = draw(base())
    if draw(st.booleans()):
        c["recon"] = draw(st.sampled_from(["mc", "mm"]))
        c["integ"] = draw(st.sampled_from(["forwardeuler", "rungekutta2", "rungekutta3"]))
        c["cfl"] = draw(st.sampled_from([0.475, 0.475, 0.2]))
    else:
        c["integ"] = draw(st.sampled_from(["forwardeuler", "forwardeuler", "rungekutta2",
                                           "rungekutta3"]))
        c["cfl"] = draw(st.sampled_from([0.9, 0.9, 0.5]))
    grid(draw, c)
    c["steps"] = draw(st.integers(1, 12))
    return c


def tv(a, bc):
    d = np.abs(np.diff(a, axis=-1)).sum(-1)
    return d + (np.abs(a[..., 0] - a[..., -1]) if bc == "periodic" else 0)


def bounds(env, c):
    u = gen.data(c)
    kw = gen.args(c)
    kw["writers"] = "raw;fixed,%s,1e300,1" % (1e3).hex()  # for data at rest
    r = env.call("sim", {"u": u}, end=1e300, maxsteps=c["steps"], **kw)
    check(not r.s("failure"), lambda: "the run stopped: " + r.s("failure"), "stopped")
    s = r["s0"].reshape((len(r["t0"]),) + u.shape)
    size = np.max(np.abs(u))
    for k in range(1, len(s)):
        lo, hi = s[k - 1].min(), s[k - 1].max()
        e = max(lo - s[k].min(), s[k].max() - hi)
        check(e <= 1e-13 * size, lambda: "step %d leaves the range [%.17g, %.17g] of the previous "
              "values by %.3g" % (k, lo, hi, e), "range")
        if c["nd"] == 1:
            a, b = tv(s[k - 1].ravel(), c["bc"]), tv(s[k].ravel(), c["bc"])
            check(b - a <= 1e-13 * size * u.size, lambda: "total variation grows from %.17g to "
                  "%.17g in step %d" % (a, b, k), "tv")
    if np.ptp(u) > 1e-6 and np.max(np.abs(s[-1] - u)) > 1e-9:
        return "%s %s %s %dd" % (c["eq"], c["flux"], c["recon"], c["nd"])


@st.composite
def pairs(draw):
    c = draw(base())
    # the dissipation of the rusanov flux varies with the states
    c["cfl"] = 0.9 if c["flux"] != "rusanov" or c["eq"] == "linear" else \
        dict(burgers=0.24, cubic=0.15)[c["eq"]]
    grid(draw, c)
    c["g"] = draw(gen.field())
    c["ordered"] = draw(st.booleans())
    c["steps"] = draw(st.integers(1, 4))
    return c


def ordering(env, c):
    a, b = gen.data(c), gen.data(c, extra=c["g"])
    if c["ordered"]:
        a, b = np.minimum(a, b), np.maximum(a, b)
    h = gen.cell_lengths(c)
    kw = gen.args(c)
    a0 = a
    for k in range(c["steps"]):
        ra = env.call("rhs", {"u": a}, mode="system", **kw)
        rb = env.call("rhs", {"u": b}, mode="system", **kw)
        s = max(sum(r["ws"][d] / h[d] for d in range(c["nd"])) for r in (ra, rb))
        if not s > 0:
            return None
        dt = c["cfl"] / s
        a2 = a + dt / h[0] * ra["out"].reshape(a.shape)
        b2 = b + dt / h[0] * rb["out"].reshape(b.shape)
        size = max(np.max(np.abs(a)), np.max(np.abs(b)))
        if c["ordered"]:
            check(np.max(a2 - b2) <= 1e-13 * size, lambda: "two ordered solutions cross by %.3g "
                  "in step %d" % (np.max(a2 - b2), k + 1), "order")
        if c["bc"] == "periodic":
            d1, d2 = np.abs(a - b).sum(), np.abs(a2 - b2).sum()
            check(d2 <= d1 + 1e-13 * size * a.size, lambda: "the L1 distance of two solutions "
                  "grows from %.17g to %.17g" % (d1, d2), "contraction")
        a, b = a2, b2
    return "%s %s %dd" % (c["eq"], c["flux"], c["nd"]) if np.max(np.abs(a - a0)) > 1e-9 else None


SUBS = [Sub("bounds", bounded(), bounds, 2), Sub("ordering", pairs(), ordering, 1)]
