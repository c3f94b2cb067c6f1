from vh.fw import *
from vh import gen, ref, conf

ID = "C11"
TARGETS = ["alsh", "alsvinncli"]
RULE = ("A case is a scheme, a grid, data, an end time of a generated (possibly fractional, large or "
        "below one) number of steps and a set of outputs with their own numbers of saves, with and "
        "without the initial state, or with coarse-grained groups. In the library (schedule) the "
        "times and states each output receives are compared with the requested times and with the "
        "states of a recorder of every step; from the command line (cli) the numbered files and "
        "their times, for the field output and functionals, on one or two processes. Non-trivial: "
        "at least two saves that are not all at step ends of the free run.")


@st.composite
def cases(draw, cli=False):
    c = draw(gen.scheme(eqs=["burgers", "linear", "cubic", "buckleyleverett", "euler1", "euler2",
                             "euler3"], diff=False, recons=["none", "mc", "weno2"],
                        fluxes=["rusanov", "godunov", "upwind", "hll", "hll3"],
                        dims=draw(st.sampled_from([[1], [1], [2], [3]]))))
    c["integ"] = draw(st.sampled_from(["forwardeuler", "rungekutta2", "rungekutta3"]))
    c["bc"] = draw(st.sampled_from(["periodic", "neumann"]))
    lo = max(gen.min_cells(c), 2)
    c["n"] = draw(gen.shape(c["nd"], lo=lo if not cli else 2 * lo,
                            hi={1: 16, 2: 7, 3: 5}[c["nd"]]))
    c["box"] = draw(gen.box(c["nd"]))
    c["f"] = draw(gen.field(kinds=["sine", "step", "rand"]))
    if c["eq"].startswith("euler"):
        c["mach"] = 0.5
    c["cfl"] = draw(st.sampled_from([0.45, 0.3]))
    c["len"] = draw(st.sampled_from([0.01, 0.4, 1.0, 2.3, 5.0, 9.7]))
    c["end"] = draw(st.sampled_from([None, None, 1.0, 0.1, 0.3, 0.7, 2.0 / 3, 5.0]))
    n = st.integers(1, 12)
    if cli:
        c["saves"], c["init"] = draw(n), draw(st.sampled_from([None, 0, 1]))
        c["fun"] = draw(st.one_of(st.none(), n))
        c["np"] = draw(st.sampled_from([1, 1, 2]))
        if c["np"] == 2:
            c["n"][0] += c["n"][0] % 2
            # functionals of parallel runs are the subject of another property
            c["fun"] = None
    else:
        c["fixed"] = draw(st.lists(st.tuples(n, st.booleans()), min_size=0, max_size=3))
        c["coarse"] = draw(st.one_of(st.none(), st.tuples(st.sampled_from([1, 2, 4]),
                                                          st.integers(0, 3), st.integers(0, 2))))
        if not c["fixed"] and not c["coarse"]:
            c["fixed"] = [[3, True]]
    return c


def end_time(env, c, u):
    r = env.call("rhs", {"u": u}, mode="system", **gen.args(c))
    w = sum(r["ws"][d] / r["h"][d] for d in range(c["nd"]))
    if not 1e-12 < w < 1e12:
        return None
    dt = c["cfl"] / w
    end = c["end"] if c["end"] else float(c["len"] * dt)
    return None if end / dt > 60 else float(end)


def schedule(env, c):
    u = gen.data(c)
    end = end_time(env, c, u)
    if end is None:
        return None
    kw = gen.args(c)
    out, want = [], []
    for n, init in c["fixed"]:
        out.append("fixed,%s,%s,%d" % ((end / n).hex(), end.hex(), init))
        want.append([0.0] * init + [k * end / n for k in range(1, n + 1)])
    if c["coarse"]:
        n, m, skips = c["coarse"]
        h = gen.cell_lengths(c)[0] * (skips + 1)
        # groups have to be apart: rescale lengths and times of x
        if end / n <= (2 * m + 1) * h:
            m = 0
        out.append("coarse,%s,%d,%s,%d" % ((end / n).hex(), m, end.hex(), skips))
        t = [0.0]
        for k in range(1, n + 1):
            t += [k * end / n + j * h for j in range(-m, m + 1)]
        want.append([x for x in t if x <= end])
    out.append("raw")
    r = env.call("sim", {"u": u}, end=end, maxsteps=3000, writers=";".join(out), **kw)
    if r.s("failure"):
        return None
    T, S = r["t%d" % len(want)], r["s%d" % len(want)].reshape(-1, u.size)
    # rounding leaves tiny steps before requested times
    for k, w in enumerate(want):
        t, s = r["t%d" % k], r["s%d" % k].reshape(-1, u.size)
        check(len(t) == len(w), lambda: "%s delivers %d snapshots instead of %d: %s" %
              (out[k], len(t), len(w), [float(x) for x in t]), "count")
        e = np.abs(np.array(w) - t)
        check(np.all(e <= 1e-12 * end), lambda: "%s: snapshot %d at time %.17g instead of %.17g" %
              (out[k], int(np.argmax(e)), t[int(np.argmax(e))], w[int(np.argmax(e))]), "time")
        for j in range(len(t)):
            i = [i for i in range(len(T)) if T[i] == t[j]]
            check(i and any(np.array_equal(S[q], s[j]) for q in i), lambda: "snapshot %d is not the "
                  "state of the run at its time" % j, "state")
        check(r.i("fin%d" % k) == 1, "outputs are not finalized once", "finalize")
    return "%s %d outputs" % (c["eq"], len(want)) if max(map(len, want)) > 2 else None


def cli(env, c):
    p = conf.prim_data(c)
    u = gen.cons(c["eq"], p, c.get("gamma"))
    end = end_time(env, c, u)
    if end is None:
        return None
    d = env.dir()
    try:
        w = dict(type="netcdf", basename="o", numberOfSaves=c["saves"])
        if c["init"] is not None:
            w["writeInitialTimestep"] = c["init"]
        fun = [dict(name="moment", degree=1, numberOfSaves=c["fun"],
                    writer=dict(type="netcdf", basename="f"))] if c["fun"] else []
        conf.write(d, c, p, end=end, writer=w, functionals=fun)
        a = ["alsvinncli/alsvinncli"] + (["--multi-x", 2] if c["np"] == 2 else []) + ["config.xml"]
        rc, log = env.run(a, cwd=d, np_=c["np"], timeout=60)
        if rc == "timeout":
            return None
        if rc != 0 and "constraints" in log:
            return None
        check(rc == 0, lambda: "status %s: %s" % (rc, log[-400:]), "status")
        for base, n, init in [("o", c["saves"], c["init"] or 0)] + (
                [("f", c["fun"], 1)] if fun else []):
            want = [0.0] * init + [k * end / n for k in range(1, n + 1)]
            files = conf.numbered(d, base)
            check(sorted(files) == list(range(len(want))), lambda: "output %s: files %s instead of "
                  "%d" % (base, sorted(files), len(want)), "count")
            for k, x in enumerate(want):
                t = float(np.ravel(conf.read_nc(files[k])[0]["time"])[0])
                check(abs(t - x) <= 1e-12 * end, lambda: "output %s_%d has time %.17g instead of "
                      "%.17g" % (base, k, t, x), "time")
        return "np%d%s" % (c["np"], " functional" if fun else "") if c["saves"] > 1 else None
    finally:
        env.drop(d)


SUBS = [Sub("schedule", cases(), schedule, 2), Sub("cli", cases(True), cli, 1, batch=12)]
