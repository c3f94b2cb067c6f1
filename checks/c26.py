from vh.fw import *
from vh import gen, ref

ID = "C26"
TARGETS = ["alsh"]
RULE = ("conserve: an entropy-conservative flux (tecno1/4/6) on a periodic grid; the entropy rate sum(v.du/dt) "
        "computed from the rate of change returned by the code has to vanish. stable: the entropy diffusion with "
        "each matrix and reconstruction, alone and added to an entropy-conservative flux; the rate must not be "
        "positive, and uniform states must not change. quadratic: monotone scalar schemes; the sum of squares "
        "does not grow in a step under the CFL condition. positive: HLL and HLL3 with strong shocks, expansions "
        "and near-vacuum states; density and pressure stay positive for CFL numbers up to one half. "
        "Non-trivial: the data varies and the state changes.")
LD = np.longdouble
MONO = dict(burgers=["godunov", "roe", "rusanov"], buckleyleverett=["godunov"],
            cubic=["rusanov", "roe"], linear=["rusanov", "upwind", "roe"])
TEC = ["burgers", "euler1", "euler2", "euler3"]


def grid(draw, c, lo=None):
    c["n"] = draw(gen.shape(c["nd"], lo=lo or gen.min_cells(c), hi={1: 40, 2: 10, 3: 7}[c["nd"]]))
    c["box"] = draw(gen.box(c["nd"]))
    c["f"] = draw(gen.field())


@st.composite
def tec(draw, diff):
    eq = draw(st.sampled_from(TEC))
    nd = draw(st.sampled_from(gen.eq_dims(eq)))
    c = dict(eq=eq, nd=nd, flux=draw(st.sampled_from(["tecno1", "tecno4", "tecno6"])), recon="none", bc="periodic",
             gamma=draw(gen.GAMMA), mach=draw(gen.MACH))
    if diff:
        c["diff"] = draw(st.sampled_from(["tecnoroe", "tecnorusanov"]))
        c["diffrecon"] = draw(st.sampled_from(["none", "eno2", "eno3", "eno4"]))
    if eq == "burgers":
        c["rng"] = draw(st.sampled_from([[0.1, 1.9], [0.01, 1.99], [0.9, 1.1]]))
    grid(draw, c)
    return c


def rates(env, c, u, mode):
    """(entropy rate, its scale) of the operator."""
    r = env.call("rhs", {"u": u}, mode=mode, **gen.args(c))
    h = gen.cell_lengths(c)
    out = r["out"].reshape(u.shape) / h[0]
    v = np.asarray(ref.entropy_v(c["eq"], u.astype(LD), LD(c["gamma"])))
    # the scale: what the fluxes at single interfaces contribute
    scale = LD(0)
    for d in range(c["nd"]):
        f = np.asarray(ref.flux(c["eq"], u.astype(LD), d, LD(c["gamma"])))
        w = np.asarray(ref.wavespeed(c["eq"], u.astype(LD), d, LD(c["gamma"])))
        scale += np.abs(v * f).sum() / h[d] + (np.abs(v * u) * w.max()).sum() / h[d]
    return float((v * out).sum()), float(scale), out


def ev_conserve(env, c):
    u = gen.data(c)
    r, s, out = rates(env, c, u, "system")
    check(abs(r) <= 1e-11 * s, lambda: "the entropy rate of the entropy-conservative flux is %.3g (terms of size "
          "%.3g)" % (r, s), "conserve")
    if np.max(np.abs(out)) > 1e-6:
        return "%s %s %dd" % (c["eq"], c["flux"], c["nd"])


def ev_stable(env, c):
    u = gen.data(c)
    label = None
    r, s, out = rates(env, c, u, "diff")
    check(r <= 1e-11 * s, lambda: "the entropy rate of the diffusion is %.3g (terms of size %.3g)" % (r, s), "sign")
    if c["f"]["k"] == "const":
        flat = np.broadcast_to(u.reshape(u.shape[0], -1)[:, :1].reshape(-1, 1, 1, 1), u.shape).copy()
        r2 = env.call("rhs", {"u": flat}, mode="diff", **gen.args(c))
        check(np.all(np.abs(r2["out"]) <= 1e-11 * s), "the diffusion changes a uniform state", "uniform")
    if r < -1e-7 * s:
        label = "%s %s %s %dd" % (c["eq"], c["diff"], c["diffrecon"], c["nd"])
    r, s, out = rates(env, c, u, "system")
    check(r <= 1e-11 * s, lambda: "the entropy rate of flux and diffusion is %.3g (terms of size %.3g)" % (r, s),
          "system")
    return label


@st.composite
def mono(draw):
    eq = draw(st.sampled_from(list(MONO)))
    c = dict(eq=eq, nd=draw(st.sampled_from([1, 1, 2, 3])), flux=draw(st.sampled_from(MONO[eq])), recon="none",
             bc="periodic", integ="forwardeuler", steps=draw(st.integers(1, 8)))
    # the dissipation of the rusanov flux varies with the states
    c["cfl"] = 0.9 if c["flux"] != "rusanov" or eq == "linear" else dict(burgers=0.24, cubic=0.15)[eq]
    grid(draw, c)
    return c


def ev_quadratic(env, c):
    u = gen.data(c)
    kw = gen.args(c)
    kw["writers"] = "raw;fixed,%s,1e300,1" % (1e3).hex()  # for data at rest
    r = env.call("sim", {"u": u}, end=1e300, maxsteps=c["steps"], **kw)
    check(not r.s("failure"), lambda: "the run stopped: " + r.s("failure"), "stopped")
    s = r["s0"].reshape((len(r["t0"]), -1))
    e = (s.astype(LD) ** 2).sum(1)
    for k in range(1, len(s)):
        check(e[k] <= e[k - 1] + 1e-13 * s.shape[1] * np.max(np.abs(u)) ** 2, lambda: "the sum of squares grows from "
              "%.17g to %.17g in step %d" % (e[k - 1], e[k], k), "quadratic")
    if e[-1] < e[0] * (1 - 1e-6):
        return "%s %s %dd" % (c["eq"], c["flux"], c["nd"])


@st.composite
def strong(draw):
    eq = draw(st.sampled_from(["euler1", "euler2", "euler3"]))
    # hll3 averages the transverse velocities over the fan, which costs energy: one dimension only
    c = dict(eq=eq, nd=int(eq[5]), flux=draw(st.sampled_from(["hll", "hll3"] if eq == "euler1" else ["hll"])), recon="none",
             bc=draw(st.sampled_from(["periodic", "neumann"])), integ="forwardeuler", cfl=0.49,
             gamma=draw(gen.GAMMA), mach=draw(st.sampled_from([0.3, 3.0, 10.0, 30.0])),
             contrast=draw(st.sampled_from([1.0, 2.0, 4.0])), steps=draw(st.integers(1, 12)))
    grid(draw, c)
    return c


def ev_positive(env, c):
    u = gen.data(c, contrast=c["contrast"])
    n = c["nd"]
    kw = gen.args(c)
    kw["writers"] = "raw;fixed,%s,1e300,1" % (1e3).hex()
    r = env.call("sim", {"u": u}, end=1e300, maxsteps=c["steps"], **kw)
    check(not r.s("failure"), lambda: "the run stopped: " + r.s("failure"), "positive")
    s = r["s0"].reshape((len(r["t0"]),) + u.shape)
    for k in range(len(s)):
        rho, v, p = ref.prim(s[k].astype(LD), n, LD(c["gamma"]))
        check(rho.min() > 0 and p.min() > 0, lambda: "density %.3g, pressure %.3g in step %d" %
              (rho.min(), p.min(), k), "positive")
    if np.max(np.abs(s[-1] - u)) > 1e-9 * np.max(np.abs(u)):
        return "%s %s mach %g contrast %g" % (c["eq"], c["flux"], c["mach"], c["contrast"])


SUBS = [Sub("conserve", tec(False), ev_conserve, 2), Sub("stable", tec(True), ev_stable, 2),
        Sub("quadratic", mono(), ev_quadratic, 1), Sub("positive", strong(), ev_positive, 1.5)]
