from vh.fw import *
from vh import gen, ref, conf

ID = "C06"
TARGETS = ["alsh", "alsvinncli"]
RULE = ("A case is a scheme, grid and data chosen to become inadmissible in some runs (strong "
        "gradients, near vacuum, unstable combinations of flux and CFL number, a NaN, infinity, "
        "negative density or pressure planted in one cell); it is run in the library with an "
        "output that records every state (run), with the failing step recomputed from the spatial "
        "operator to see that the stop was justified, and by the command line program on one or "
        "two processes (cli). Non-trivial: the run ended with an error, or an inadmissible value "
        "was planted.")


def admissible(eq, u, g):
    """u: [var,...]"""
    if not np.all(np.isfinite(u)):
        return False
    if not eq.startswith("euler"):
        return True
    n = int(eq[5])
    rho = u[0].astype(np.longdouble)
    if not np.all(u[0] > 0):
        return False
    kin = (u[1:1 + n].astype(np.longdouble) ** 2).sum(0) / rho / 2
    p = u[-1] - kin
    # the sign of a pressure within rounding of zero is not decided
    return bool(np.all(p > -1e-13 * (np.abs(u[-1]) + kin)))


def clearly_admissible(eq, u, g):
    if not np.all(np.isfinite(u)) or np.max(np.abs(u)) > 1e100:
        return False
    if not eq.startswith("euler"):
        return True
    n = int(eq[5])
    if not np.all(u[0] > 1e-9 * np.max(np.abs(u[0]))):
        return False
    kin = (u[1:1 + n] ** 2).sum(0) / u[0] / 2
    return bool(np.all(u[-1] - kin > 1e-9 * np.abs(u[-1]).max()))


@st.composite
def cases(draw, cli=False):
    eqs = ["euler1", "euler2", "euler3", "euler1", "euler2", "burgers", "cubic",
           "buckleyleverett", "linear"]
    c = draw(gen.scheme(eqs=eqs, diff=not cli))
    if c["eq"].startswith("euler"):
        c["mach"] = draw(st.sampled_from([0.5, 3.0, 10.0, 40.0]))
        c["contrast"] = draw(st.sampled_from([1.0, 3.0]))
        if cli:  # most scalar runs stay finite for a long time
            c["flux"] = draw(st.sampled_from(["hll", "hll3", "central", "central"]))
    c["bc"] = draw(st.sampled_from(["periodic", "neumann"]))
    c["n"] = draw(gen.shape(c["nd"], lo=gen.min_cells(c), hi={1: 20, 2: 8, 3: 5}[c["nd"]]))
    c["box"] = draw(gen.box(c["nd"]))
    c["f"] = draw(gen.field())
    c["f"]["a"] = 1.0
    if c["eq"] == "burgers" and ("tecno" in c["flux"] or "diff" in c):
        c["rng"] = [0.01, 1.99]
    c["cfl"] = draw(st.sampled_from([0.475, 0.9, 1.5, 4.0]))
    c["steps"] = draw(st.integers(1, 20 if not cli else 60))
    if not cli:
        c["plant"] = draw(st.sampled_from([None, None, "nan", "inf", "rho", "p", "tiny"]))
        c["at"] = draw(st.integers(0, 10 ** 6))
    else:
        c["np"] = draw(st.sampled_from([1, 1, 2]))
        c["recon"] = draw(st.sampled_from(["none", "mc", "weno2"]))
        lo = gen.min_cells(c)
        c["n"] = [max(x, 2 * lo) if d == 0 else max(x, lo) if x > 1 else x
                  for d, x in enumerate(c["n"])]
        c["n"][0] += c["n"][0] % 2
        c["saves"] = draw(st.integers(1, 6))
        c["init"] = draw(st.booleans())
    return c


def data(c):
    kw = dict(contrast=c["contrast"]) if "contrast" in c else {}
    u = gen.data(c, **kw)
    p = c.get("plant")
    if p:
        idx = np.unravel_index(c["at"] % u[0].size, u[0].shape)
        v = c["at"] % u.shape[0]
        if p == "nan":
            u[(v,) + idx] = np.nan
        elif p == "inf":
            u[(v,) + idx] = np.inf
        elif p == "rho":
            u[(0,) + idx] *= -1
        elif p == "p":
            u[(u.shape[0] - 1,) + idx] *= -1
        elif p == "tiny" and u.shape[0] > 1:
            u[(0,) + idx] *= 1e-3
    return u


def run_(env, c):
    u = data(c)
    eq, g = c["eq"], c.get("gamma")
    with np.errstate(all="ignore"):
        r = env.call("sim", {"u": u}, end=1e300, maxsteps=c["steps"],
                     **gen.args(c, writers="raw;fixed,%s,1e300,1" % (1e3).hex()))
        s = r["s0"].reshape((len(r["t0"]),) + u.shape)
        for k in range(1, len(s)):
            check(admissible(eq, s[k], g), lambda: "step %d hands on an inadmissible state: %s" %
                  (k, bad(eq, s[k])), "silent")
            check(np.isfinite(r["t0"][k]), lambda: "time %s after step %d" % (r["t0"][k], k),
                  "time")
        if not r.s("failure"):
            check(r.i("steps") == c["steps"] and len(s) == c["steps"] + 1, "a step was not output",
                  "missing")
            return "planted" if c["plant"] in ("nan", "inf") else None
        # was the stop justified?
        v = s[-1]
        if admissible(eq, v, g) and clearly_admissible(eq, v, g) and "eno" not in str(
                (c["recon"], c.get("diffrecon"))):
            kw = gen.args(c)

            clear = []  # are all the states the operator is applied to admissible beyond doubt?

            def f(y):
                z = np.array(y, float)
                log = eq == "burgers" and ("tecno" in c["flux"] or "diff" in c)
                clear.append(clearly_admissible(eq, z, g) and (
                    not log or (z.min() > 1e-9 and z.max() < 2 - 1e-9)))
                if not clear[-1]:
                    return y * np.nan
                q = env.call("rhs", {"u": np.array(y, dtype=float)}, mode="system", **kw)
                return (q["out"].reshape(u.shape) / q["h"][0]).astype(np.longdouble)
            q = env.call("rhs", {"u": v}, mode="system", **kw)
            w = sum(q["ws"][d] / q["h"][d] for d in range(c["nd"]))
            if w > 0 and np.isfinite(w):
                t = r["t0"][-1]
                dt = min(c["cfl"] / w, 1e3 - t if t < 1e3 else 1e3)
                x = np.array(ref.rk_step(c["integ"], f, v.astype(np.longdouble),
                                         np.longdouble(dt)), dtype=float)
                check(not all(clear) or not clearly_admissible(eq, x, g), lambda: "the run stopped (%s) although "
                      "the state after the step is admissible" % r.s("failure")[:80], "false stop")
    return "%s %s" % (eq, c["plant"] or "stopped")


def bad(eq, u):
    for k in range(u.shape[0]):
        i = np.argwhere(~np.isfinite(u[k]))
        if len(i):
            return "variable %d of cell %s is %s" % (k, i[0], u[k][tuple(i[0])])
    i = np.argwhere(u[0] <= 0)
    if len(i):
        return "density %s in cell %s" % (u[0][tuple(i[0])], i[0])
    return "negative pressure"


def cli(env, c):
    kw = dict(contrast=c["contrast"]) if "contrast" in c else {}
    eq = c["eq"]
    p = conf.prim_data(c, **kw)
    u = gen.cons(eq, p, c.get("gamma"))
    q = env.call("rhs", {"u": u}, mode="system", **gen.args(c))
    w = sum(q["ws"][d] / q["h"][d] for d in range(c["nd"]))
    if not (w > 0 and np.isfinite(w)):
        return None
    d = env.dir()
    try:
        conf.write(d, c, p, end=min(c["cfl"], 0.9) / w * c["steps"],
                   writer=dict(type="netcdf", basename="o", numberOfSaves=c["saves"],
                               writeInitialTimestep=int(c["init"])))
        a = ["alsvinncli/alsvinncli"] + (["--multi-x", 2] if c["np"] == 2 else []) + ["config.xml"]
        rc, out = env.run(a, cwd=d, np_=c["np"], timeout=40)
        if rc == "timeout":
            # steps may become tiny; but all processes have to stop together
            if c["np"] == 2 and env.run([a[0], "config.xml"], cwd=d, timeout=10)[0] == 1:
                check(False, "two processes do not end although one stops with an error", "hang")
            return None
        files = conf.numbered(d, "o")
        for k, f in sorted(files.items()):
            try:
                v, _ = conf.read_nc(f)
                s = np.array([v[x] for x in conf.NAMES[eq]])
            except Exception:
                check(rc != 0, "output %d is unreadable" % k, "file")
                continue
            if rc != 0 and np.all(s == 0):
                continue  # interrupted while writing
            check(admissible(eq, s, c.get("gamma")), lambda: "output %d contains an inadmissible "
                  "state: %s" % (k, bad(eq, s)), "silent")
        want = c["saves"] + int(c["init"])
        check(rc != 0 or len(files) == want, lambda: "status 0 with %d of %d outputs: %s" %
              (len(files), want, out[-300:]), "status")
        check(rc == 0 or "error" in out.lower(), lambda: "status %s without a message: %s" %
              (rc, out[-300:]), "message")
        return "stopped np%d" % c["np"] if rc != 0 else None
    finally:
        env.drop(d)


SUBS = [Sub("run", cases(), run_, 2), Sub("cli", cases(True), cli, 1, batch=12)]
