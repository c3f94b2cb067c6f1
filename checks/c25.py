from vh.fw import *
from vh import gen, ref, conf, funref

ID = "C25"
TARGETS = ["alsh"]
RULE = ("A case is a scheme, a grid, data, an output schedule, time windows (wide and narrow ones, anywhere in "
        "the run, with ends on and off the time steps), a number of snapshots and functionals. All states and "
        "times of the run are recorded as well, and the time averages and time integrals are summed up from "
        "them: every step (or snapshot) ending in the window counts with the part of it inside the window. "
        "direct: the library; run: configuration files and their output files, also with two processes. "
        "Windows without any step have to end with an error and without output. Non-trivial: at least two "
        "steps in the window and one outside, states that change.")
FUNS = ["identity", "moment", "bv", "structure_cube", "legendre_pointwise"]


@st.composite
def window(draw):
    return dict(at=draw(st.one_of(st.floats(0.05, 0.95), st.sampled_from([0.25, 0.5, 0.75, 0.625]))),
                rad=draw(st.one_of(st.floats(0.02, 0.6), st.sampled_from([0.125, 0.25, 0.5]))),
                snaps=draw(st.integers(1, 5)))


def clip(w, end):
    """Window inside the run: centre and radius."""
    t = w["at"] * end
    r = w["rad"] * end
    return float(t), float(min(r, t, end - t))


@st.composite
def cases(draw, files=False, np_=1):
    c = draw(gen.scheme(dims=draw(st.sampled_from([[1], [1], [2], [3]]))))
    nd = c["nd"]
    g = gen.min_cells(c)
    c["n"] = draw(gen.shape(nd, lo=max(g, 2), hi={1: 16, 2: 7, 3: 5}[nd]))
    if np_ > 1:
        c["n"][0] = 2 * max(g, 3)
    c["bc"] = draw(st.sampled_from(["periodic", "neumann"]))
    c["box"] = draw(gen.box(nd))
    c["f"] = draw(gen.field(kinds=["sine", "step", "rand", "spike"]))
    c["f"]["a"] = min(c["f"]["a"], 0.5)
    if c["eq"].startswith("euler"):
        c["mach"] = draw(st.sampled_from([0.3, 1.0]))
    c["cfl"] = draw(st.sampled_from([0.45, 0.2]))
    c["len"] = draw(st.sampled_from([2.3, 5.6, 9.0, 14.0]))
    c["end"] = draw(st.sampled_from([None, None, 1.0, 0.3, 2.0]))
    c["sched"] = draw(st.sampled_from([None, None, 4, 8, 3]))
    c["wins"] = draw(st.lists(window(), min_size=1, max_size=3))
    fs = [f for f in FUNS if not (f == "bv" and nd == 3) and (nd == 2 or f != "legendre_pointwise") and not (np_ > 1 and f in ("bv", "structure_cube"))]
    c["funs"] = [draw(st.sampled_from(fs)) for _ in c["wins"]]
    c["narrow"] = draw(st.integers(0, 5)) == 0
    return c


def params(name, eq):
    if name == "moment":
        return dict(name=name, degree=2)
    if name == "bv":
        return dict(name=name, degree=1)
    if name == "structure_cube":
        return dict(name=name, p=2.0, numberOfH=2)
    if name == "legendre_pointwise":
        return dict(name=name, degree=2, minValue=-1000.0, maxValue=1000.0)
    return dict(name=name)


def end_time(env, c, u):
    r = env.call("rhs", {"u": u}, mode="system", **gen.args(c))
    w = sum(r["ws"][d] / r["h"][d] for d in range(c["nd"]))
    if not 1e-12 < w < 1e12:
        return None
    dt = c["cfl"] / w
    end = c["end"] if c["end"] else float(c["len"] * dt)
    return None if end / dt > 60 else float(end)


def snapshots(times, states, T, R, n, end=None):
    """The states a schedule with interval R/n from the start of the window passes on."""
    start = max(T - R, 0.0)
    dt = R / n
    out, k = [], 1
    for t, s in zip(times, states):
        if t >= start + k * dt - 1e-9 * dt:
            out.append((t, s))
            k += 1
    return out


def contributions(pairs, T, R):
    """(weight, state) of the steps that end in the window, and whether a tie was met."""
    last, out, tie = 0.0, [], False
    for t, s in pairs:
        a, b = T - R, T + R
        if a < t <= b * (1 + 1e-12) + 1e-9 * R or (abs(t - a) < 1e-9 * R):
            w = t - max(last, a)
            if w > (1e-9 * R if abs(t - a) < 1e-9 * R else 0):  # tiny steps count: their states may be huge
                out.append((w, s))
        last = t
    return out


def close(o, e, what, scale=0.0):
    o, e = np.asarray(o, float).ravel(), np.asarray(e, float).ravel()
    check(o.shape == e.shape, lambda: "%s: %s instead of %s values" % (what, o.size, e.size), "shape")
    s = 1e-8 * (1e-300 + max(scale, float(np.abs(e).max()) if e.size else 0.0))
    ok = np.abs(o - e) <= s
    check(bool(np.all(ok)), lambda: "%s: %r instead of %r (largest difference %r)" % (
        what, o[~ok][0], e[~ok][0], np.abs(o - e).max()), "value")


def narrow_window(times):
    """A window strictly inside the longest step."""
    d = np.diff(times)
    k = int(np.argmax(d))
    return float(times[k] + 0.5 * d[k]), float(0.2 * d[k])


def expectation(c, f, parts, names, lo, hi):
    tot = None
    for w, s in parts:
        v = w * np.asarray(funref.apply(f, s, names, c["n"], lo, hi, c["bc"]), float)
        tot = v if tot is None else tot + v
    return tot


def interesting(pairs, parts):
    return len(parts) >= 2 and len(parts) < len(pairs) and any(
        np.abs(a[1] - b[1]).max() > 1e-12 for a, b in zip(parts, parts[1:]))


def ev_direct(env, c):
    u = gen.data(c)
    end = end_time(env, c, u)
    if end is None:
        return None
    lo, hi = c["box"]["lo"], c["box"]["hi"]
    names = conf.NAMES[c["eq"]]
    wr = "raw"
    if c["sched"]:
        wr += ";fixed,%s,%s,1" % ((end / c["sched"]).hex(), end.hex())
    base = wr.count(";") + 1
    wins = [clip(w, end) for w in c["wins"]]
    wins = [(T, R, w, f) for (T, R), w, f in zip(wins, c["wins"], c["funs"]) if R > 1e-6 * end]
    if not wins:
        return None
    for T, R, w, f in wins:
        p = params(f, c["eq"])
        wr += ";tint,%s,%s;tintfixed,%s,%s,%d" % (T.hex(), R.hex(), T.hex(), R.hex(), w["snaps"])
        wr += ";ftint,%s,%s,%s" % (T.hex(), R.hex(), f)
        for k, v in p.items():
            if k != "name":
                wr += ",%s,%r" % (k, v)
    r = env.call("sim", {"u": u}, **gen.args(c, end=end, writers=wr, maxsteps=400))
    times = r["t0"]
    states = r["s0"].reshape([len(times)] + list(u.shape))
    pairs = list(zip(times, states))
    if r.kv.get("failure"):
        if "No timestep" in r.kv["failure"]:
            # allowed only if one of the windows is empty up to here
            empty = [not contributions(pairs, T, R) for T, R, w, f in wins] + \
                [not contributions(snapshots(times, states, T, R, w["snaps"]), T, R) for T, R, w, f in wins]
            check(any(empty), lambda: "the run stops: %s" % r.kv["failure"], "empty")
        return None
    done = times[-1]
    good = False
    for i, (T, R, w, f) in enumerate(wins):
        k = base + 3 * i
        if done < (T + R) - 1e-9 * R:
            continue
        for j, ps in ((k, pairs), (k + 1, snapshots(times, states, T, R, w["snaps"]))):
            parts = contributions(ps, T, R)
            what = "average over %r +- %r%s" % (T, R, " of snapshots" if j > k else "")
            if not parts:
                check(False, lambda: what + ": there is no step in the window, but the run goes on", "empty")
            check(len(r["t%d" % j]) == 1, lambda: "%s: written %d times" % (what, len(r["t%d" % j])), "once")
            check(abs(r["t%d" % j][0] - T) <= 1e-12 * (1 + T), lambda: "%s: labelled with time %r" % (
                what, r["t%d" % j][0]), "label")
            e = sum(q * s for q, s in parts) / (2 * R)
            close(r["s%d" % j], e, what, scale=float(np.abs(states).max()))
            if np.ptp(states.reshape(len(states), -1), axis=0).max() == 0 and not T - R < 0 and j > k:
                close(r["s%d" % j], states[0], what + " of a steady state")
            good = good or interesting(ps, parts)
        parts = contributions(pairs, T, R)
        fp = params(f, c["eq"])
        e = expectation(c, fp, parts, names, lo, hi)
        what = "integral of %s over %r +- %r" % (f, T, R)
        check(len(r["t%d" % (k + 2)]) == 1, lambda: "%s: written %d times" % (what, len(r["t%d" % (k + 2)])),
              "once")
        close(r["s%d" % (k + 2)], e, what, scale=sum(q for q, s in parts) * max(
            1.0, float(np.abs(states).max()) ** 2))
    if c["narrow"] and len(times) > 2:
        T, R = narrow_window(times)
        r = env.call("sim", {"u": u}, **gen.args(c, end=end, writers="raw%s;tint,%s,%s" % (
            ";fixed,%s,%s,1" % ((end / c["sched"]).hex(), end.hex()) if c["sched"] else "", T.hex(), R.hex()),
            maxsteps=400))
        # the schedule of the snapshots above may have shortened steps: only look at this run
        ps = list(zip(r["t0"], r["s0"].reshape([len(r["t0"])] + list(u.shape))))
        if not contributions(ps, T, R) and r["t0"][-1] >= T + R:
            check(bool(r.kv.get("failure")), "a window without any step is not reported", "empty")
        elif not contributions(ps, T, R):
            j = 2 if c["sched"] else 1
            check(len(r["t%d" % j]) == 0, "a window without any step is written", "empty")
    return "direct %s" % ("schedule" if c["sched"] else "free") if good else None


@st.composite
def runs(draw, np_=1):
    c = draw(cases(True, np_))
    c["wsnap"] = draw(st.booleans())
    c["fsnap"] = draw(st.booleans())
    c["mpi"] = draw(st.booleans())
    return c


def ev_run(np_):
    def ev(env, c):
        arr = conf.prim_data(c)
        u = gen.cons(c["eq"], arr, c.get("gamma", 1.4))
        end = end_time(env, c, u)
        if end is None:
            return None
        w = c["wins"][0]
        T, R = clip(w, end)
        if R < 1e-3 * end:
            return None
        w2 = c["wins"][-1]
        T2, R2 = clip(w2, end)
        if R2 < 1e-3 * end:
            return None
        f = c["funs"][-1]
        d = env.dir()
        wr = dict(type="netcdf", basename=os.path.join(d, "o"), time=T, timeRadius=R)
        if c["wsnap"]:
            wr["numberOfSnapshots"] = w["snaps"]
        fun = dict(params(f, c["eq"]), time=T2, timeRadius=R2,
                   writer=dict(type="netcdf", basename=os.path.join(d, "f")))
        if c["fsnap"]:
            fun["numberOfSnapshots"] = w2["snaps"]
        path = conf.write(d, c, arr, end=end, writer=wr, functionals=[fun])
        try:
            try:
                if np_ == 1:
                    r = env.call("setup", file=path, mpi=int(c["mpi"]), all=1, maxsteps=400)
                    times, allst = r["times"], r["all"].reshape([-1] + list(u.shape))
                else:
                    r = env.srv(np_).call("setup", file=path, px=np_, all=1, maxsteps=400)
                    for q in range(np_):
                        if r.kv.get("status.%d" % q) != "ok":
                            raise Refused(r.kv.get("what.%d" % q))
                    times = r["times.0"]
                    blocks = [r["all.%d" % q].reshape([-1, u.shape[0]] + list(
                        r["dims.%d" % q].astype(int)[::-1])) for q in range(np_)]
                    allst = np.concatenate(blocks, axis=-1)
            except Refused as e:
                if any(q in str(e) for q in ("NaN", "constraint", "Constraint", "inf", "No timestep", "Legendre")):
                    return None
                raise
            pairs = list(zip(times, allst))
            states = allst
            ps = snapshots(times, states, T, R, w["snaps"]) if c["wsnap"] else pairs
            fs = snapshots(times, states, T2, R2, w2["snaps"]) if c["fsnap"] else pairs
            out = conf.numbered(d, "o")
            parts = contributions(ps, T, R)
            scale = float(np.abs(states).max())
            names = conf.NAMES[c["eq"]]
            if times[-1] >= T + R - 1e-9 * R:
                check(list(out) == [0], lambda: "files of the average: %s" % sorted(out), "once")
                v, a = conf.read_nc_zyx(out[0])
                e = sum(q * s for q, s in parts) / (2 * R)
                for k, nme in enumerate(names):
                    close(v[nme], e[k], "average %s over %r +- %r" % (nme, T, R), scale)
            elif times[-1] < T + R - 1e-6 * R:
                check(not out, "the average is written before the window ends", "once")
            out = conf.numbered(d, "f")
            fparts = contributions(fs, T2, R2)
            check(list(out) == [0], lambda: "files of the integral: %s" % sorted(out), "once")
            v, a = conf.read_nc_zyx(out[0])
            if fparts:
                e = expectation(c, params(f, c["eq"]), fparts, names, c["box"]["lo"], c["box"]["hi"])
                e = e.reshape(len(names), -1)
                for k, nme in enumerate(names):
                    close(v[nme], e[k], "integral of %s of %s over %r +- %r" % (f, nme, T2, R2),
                          sum(q for q, s in fparts) * max(1.0, scale ** 2))
            return "run%s%s%s" % (np_, " snapshots" if c["wsnap"] or c["fsnap"] else "", "") \
                if interesting(ps, parts) or interesting(fs, fparts) else None
        finally:
            env.drop(d)
    return ev


SUBS = [
    Sub("direct", cases(), ev_direct, 3),
    Sub("run", runs(), ev_run(1), 2),
    Sub("run2", runs(2), ev_run(2), 1),
]
