from vh.fw import *
from vh import gen, ref

ID = "C08"
TARGETS = ["alsh"]
RULE = ("A case is a scheme, CFL number, grid with generated cell aspect ratios, data, an end time "
        "of a generated number of steps and zero to two outputs with their own schedules. Every "
        "step of the run is compared with a model of the step length: CFL number over the sum of "
        "wave speed over cell length for the state before the step, cut at the next requested "
        "time (steps); the wave speeds themselves are compared with the largest eigenvalue of the "
        "states on both sides of the interfaces (speeds). Non-trivial: at least two steps, or "
        "wave speeds that differ between the directions or cells.")


@st.composite
def cases(draw, steps):
    c = draw(gen.scheme(diff=steps, dims=draw(st.sampled_from([[1], [2], [3]]))))
    c["bc"] = draw(st.sampled_from(["periodic", "neumann"]))
    c["n"] = draw(gen.shape(c["nd"], lo=gen.min_cells(c), hi={1: 20, 2: 8, 3: 6}[c["nd"]]))
    c["box"] = draw(gen.box(c["nd"]))
    c["f"] = draw(gen.field())
    if c["eq"] == "burgers" and ("tecno" in c["flux"] or "diff" in c):
        c["rng"] = gen.positive_range("burgers")
    elif not c["eq"].startswith("euler") and not gen.has_eno(c) and draw(st.integers(0, 3)) == 0:
        lo, hi = gen.RANGE[c["eq"]]
        c["rng"] = draw(st.sampled_from([[lo, min(0.0, hi)], [0.0, hi], [0.0, 0.0], [lo, lo / 2]]))
        if c["eq"] == "buckleyleverett":
            c["rng"] = draw(st.sampled_from([[0.0, 0.4], [0.6, 1.0], [0.0, 0.0], [0.0, 1.0]]))
    gen.untie(c)
    if not steps and gen.has_eno(c):
        c["bc"] = "periodic"
        c["n"] = [max(x, 3) if x > 1 or k == 0 else x for k, x in enumerate(c["n"])]
    if steps:
        c["cfl"] = draw(st.sampled_from([0.475, 0.9, 0.4, 0.05, 0.3]))
        if draw(st.booleans()):
            c["flux"] = draw(st.sampled_from([f for f in ref.fluxes(c["eq"]) if f in (
                "hll", "hll3", "rusanov", "godunov", "upwind", "roe")] or [c["flux"]]))
            c["n"] = [max(x, gen.min_cells(c)) if x > 1 or k == 0 else x
                      for k, x in enumerate(c["n"])]
        c["len"] = draw(st.sampled_from([0.3, 1.0, 1.7, 4.2, 9.5]))
        c["fixed"] = draw(st.lists(st.tuples(st.integers(1, 7), st.booleans()), max_size=2))
        c["coarse"] = draw(st.integers(0, 5)) == 0
    return c


def spectral(eq, s, d, g):
    return float(np.max(ref.wavespeed(eq, np.asarray(s, dtype=np.longdouble), d, g)))


def speeds(env, c):
    u = gen.data(c)
    eq, g = c["eq"], c.get("gamma")
    if c["flux"] in gen.WIDE and c["recon"] != "none":
        return None  # which edge values these see is not documented (see C04)
    r = env.call("rhs", {"u": u}, mode="flux", **gen.args(c))
    ng = gen.nghost(c["flux"], c["recon"])
    e = ref.pad(u.astype(np.longdouble), ng, c["bc"])
    lab = None
    with np.errstate(all="ignore"):
        for d in range(3):
            if d >= c["nd"]:
                check(r["ws"][d] == 0, "a wave speed in a direction the grid does not have", "speed")
                continue
            lo, hi = spectral(eq, u, d, g), spectral(eq, u, d, g)
            if c["recon"] != "none" or c["eq"] == "buckleyleverett" or eq.startswith("euler"):
                a, b = ref.reconstruct(c["recon"], e, d, eq, g)
                nxt = ref.sh(a, 1, d)
                sl = [slice(None)] * 4
                ax = 3 - d
                act = ref.active(tuple(c["n"]))
                # interfaces between ng-1 and n+ng in this direction, interior in the others
                for k, axis in ((0, 3), (1, 2), (2, 1)):
                    if act[k]:
                        m = e.shape[axis]
                        sl[axis] = slice(ng - 1, m - ng) if k == d else slice(ng, m - ng)
                L_, R_ = b[tuple(sl)], nxt[tuple(sl)]
                if not (np.all(np.isfinite(L_)) and np.all(np.isfinite(R_))):
                    return None
                if eq.startswith("euler"):
                    for s in (L_, R_):
                        q = ref.prim(s, int(eq[5]), g)
                        if not (np.min(q[0]) > 1e-6 and np.min(q[-1]) > 1e-6):
                            return None
                w = max(spectral(eq, L_, d, g), spectral(eq, R_, d, g))
                lo, hi = min(lo, w), max(hi, w)
                if c["recon"] == "none":
                    lo = max(lo, w)
                if eq.startswith("euler"):
                    # the speeds of the Riemann solver that the flux uses
                    v = ref.hll_speeds(eq, L_, R_, d, g, c["flux"] != "hll")
                    w = max(float(np.max(np.abs(v[0]))), float(np.max(np.abs(v[1]))))
                    lo, hi = min(lo, w), max(hi, w)
                    for k in range(2, 4 if c["flux"] in gen.WIDE else 2):
                        # combinations of two-point fluxes between cells further apart
                        v = ref.hll_speeds(eq, e, ref.sh(e, k, d), d, g, True)
                        hi = max(hi, float(np.max(np.abs(v[0]))), float(np.max(np.abs(v[1]))))
                elif eq == "buckleyleverett":
                    # the wave speed is not monotone: states between the two sides count
                    if np.any((np.minimum(L_, R_) <= 0.5) & (np.maximum(L_, R_) >= 0.5)):
                        hi = max(hi, 2.0)
            tol = 1e-11 * abs(hi) + 1e-14
            check(lo - tol <= r["ws"][d] <= hi + tol, lambda: "%s %s: wave speed %.17g in "
                  "direction %d, the largest of the states is %.17g%s" %
                  (eq, c["flux"], r["ws"][d], d, lo, "" if hi == lo else " to %.17g" % hi), "speed")
            if np.ptp(u) > 1e-9:
                lab = "%s %s %d" % (eq, c["flux"], d)
    return lab


def steps(env, c):
    u = gen.data(c)
    kw = gen.args(c)

    def cfl_step(s):
        r = env.call("rhs", {"u": s}, mode="system", **kw)
        w = sum(np.longdouble(r["ws"][d]) / np.longdouble(h) for d, h in
                zip(range(c["nd"]), gen.cell_lengths(c)))
        if not np.isfinite(float(w)):
            return np.nan
        return float(c["cfl"] / w) if w > 0 else np.inf
    dt0 = cfl_step(u)
    if not np.isfinite(dt0) and not (dt0 == np.inf and c["fixed"]):
        return None
    if dt0 > 1e30:
        dt0 = 1.0
        if not c["fixed"]:
            return None
    end = float(c["len"] * dt0)
    out = ["raw"]
    sched = []
    for n, init in c["fixed"]:
        iv = end / n
        out.append("fixed,%s,%s,%d" % (iv.hex(), end.hex(), init))
        sched.append([iv, 0 if init else 1])
    if c["coarse"]:
        # one group of saves around each multiple: spacing 2 cell lengths in time
        iv = max(end, 8 * gen.cell_lengths(c)[0])
        out.append("coarse,%s,1,%s,1" % (iv.hex(), end.hex()))
    r = env.call("sim", {"u": u}, end=end, maxsteps=30, writers=";".join(out), **kw)
    t, n = r["t0"], r["n0"]
    s = r["s0"].reshape((len(t),) + u.shape)
    check(t[0] == 0 and n[0] == 0, "the first output is not at time zero", "clock")
    lab = None
    for k in range(len(t) - 1):
        check(t[k] < end, lambda: "step %d starts at %.17g, after the end %.17g" % (k, t[k], end),
              "end")
        check(n[k + 1] == k + 1, lambda: "step counter %s after %d steps" % (n[k + 1], k + 1),
              "counter")
        want = cfl_step(s[k])
        if not want > 0:
            return lab
        tiny, short = 1e-12 * end, False  # rounding may leave a rest before a requested time
        for sc in sched:
            x = lambda: end if abs(sc[1] * sc[0] - end) < 1e-8 * sc[0] else sc[1] * sc[0]
            while t[k] >= x() - tiny:
                short = short or t[k] < x()
                sc[1] += 1
            want = min(want, x() - t[k])
        if c["coarse"]:
            # the coarse output asks for (0), then interval-2h*..., never before 6 cell lengths
            first = iv - 2 * gen.cell_lengths(c)[0]
            if t[k] < first:
                want = min(want, first - t[k])
            else:
                return lab
        dt = t[k + 1] - t[k]
        if not np.isfinite(want):
            return lab
        check(dt > 0 or want <= 2e-16 * t[k], lambda: "step %d has length %.3g" % (k, dt), "length")
        check(abs(dt - want) <= 1e-11 * want + 4e-16 * t[k + 1] + 1e-12 * want
              or (dt < tiny and short), lambda: "step %d from t=%.17g has length %.17g instead "
              "of %.17g" % (k, t[k], dt, want), "length")
        if k >= 1:
            lab = "%s %dd %s" % (c["eq"], c["nd"], "scheduled" if sched else "free")
    if not r.s("failure"):
        check(r.i("steps") == len(t) - 1, "steps and outputs differ", "counter")
        if r.i("steps") < 30:
            check(r.i("atend") == 1 and t[-1] >= end, lambda: "the run stopped at %.17g before its "
                  "end %.17g" % (t[-1], end), "end")
            if sched:
                check(abs(t[-1] - end) <= 1e-12 * end, lambda: "a run with evenly spaced outputs "
                      "ends at %.17g instead of %.17g" % (t[-1], end), "end")
        check(r.f("t") == t[-1], "clock of the simulator", "clock")
    return lab


SUBS = [Sub("speeds", cases(False), speeds, 1), Sub("steps", cases(True), steps, 2)]
