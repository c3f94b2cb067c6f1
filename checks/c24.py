from vh.fw import *
from vh import gen, ref, conf, ens
import json, re, select, subprocess
from vh import server as srv_

ID = "C24"
TARGETS = ["alsh", "alshuq", "alsvinncli", "alsuqcli"]
WORKERS = 6
RULE = ("A case is a program on the Python interface: run() with settings, run() over a base configuration file "
        "(of a simulation or an ensemble) with a random subset of settings replaced, or an Alsvinn object with "
        "a sequence of setters, followed by getters. The expected arrays come from a run of the effective "
        "configuration, written by the check itself and run through the library: get_data has to return every "
        "variable of every snapshot (and sample, and statistic) in order, get_time their times, "
        "get_line_segment the midpoints; snapshots, variables and statistics that do not exist and invalid "
        "settings have to raise. Non-trivial: the data is not constant and at least one setting is not the "
        "default.")


KEY = (0, "python")


class Driver:
    def __init__(self, env):
        e = srv_.base_env(1)
        e["PYTHONPATH"] = os.path.join(env.build, "python")
        e["MPLCONFIGDIR"] = e["TMPDIR"] = env.tmp
        e["OMPI_MCA_rmaps_base_oversubscribe"] = "1"
        e["OMPI_MCA_hwloc_base_binding_policy"] = "none"
        self.p = subprocess.Popen(["/usr/bin/python3.12", os.path.join(os.path.dirname(conf.__file__), "pydrv.py")],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  env=e, cwd=env.tmp, start_new_session=True)
        srv_.started(self.p.pid)

    def ask(self, d, prog):
        self.p.stdin.write((json.dumps(dict(dir=d, prog=prog)) + "\n").encode())
        self.p.stdin.flush()
        if not select.select([self.p.stdout], [], [], 120)[0]:
            self.stop()
            raise Died("no answer from the Python interface")
        line = self.p.stdout.readline()
        if not line:
            raise Died("the Python interface ended: %s" % self.p.wait())
        return json.loads(line)

    def stop(self):
        try:
            os.killpg(self.p.pid, 9)
        except OSError:
            pass
        self.p.wait()


def ask(env, d, prog):
    s = env.servers.get(KEY)
    if s is None or s.p.poll() is not None:
        env.servers.pop(KEY, None)
        s = Driver(env)
        env.servers[KEY] = s
    return s.ask(d, prog)


def script(c):
    """Smooth data that depends on the position and the parameters A and V."""
    k = c["k"]
    lines = ["_s = 0.5 + 0.2*sin(%d*x + %d*y + %d*z + %r)" % tuple(k)]
    if "A" in c["par"]:
        lines.append("_s = _s * (A if not hasattr(A, '__len__') else A[0])")
    if "V" in c["par"]:
        lines.append("_s = _s + 0.1*sum([V[q]*cos((q+1)*x) for q in range(len(V))])/len(V)"
                     if isinstance(c["par"]["V"], list) and len(c["par"]["V"]) > 1 else "_s = _s + 0.1*V*cos(x)")
    for n in conf.PRIM[c["eq"]]:
        lines.append(n + " = " + ("1.0 + _s" if n in ("rho", "p") else "0.3 + _s - 0.5*%d" % (n[-1] in "yz")
                                  if n != "u" else "0.05 + 0.8*_s"))
    return "\n".join(lines) + "\n"


PAR = [1.0, 0.5, 0.25]


@st.composite
def schemes(draw, nd=None, eqs=None):
    c = draw(gen.scheme(eqs=eqs, dims=nd or draw(st.sampled_from([[1], [1], [2], [3]]))))
    grid(draw, c)
    c["bc"] = draw(st.sampled_from(["periodic", "neumann"]))
    c["cfl"] = draw(st.sampled_from([0.4, 0.25, "auto"]))
    c["k"] = [draw(st.integers(0, 3)) for _ in range(3)] + [draw(st.sampled_from([0.0, 1.0]))]
    c["par"] = {}
    if draw(st.booleans()):
        c["par"]["A"] = draw(st.sampled_from(PAR))
    if draw(st.booleans()):
        c["par"]["V"] = draw(st.lists(st.sampled_from(PAR), min_size=2, max_size=4))
    c["T"] = draw(st.sampled_from([0.01, 0.03, 0.1]))
    c["saves"] = draw(st.integers(1, 3))
    c["init"] = draw(st.booleans())
    return c


def grid(draw, c):
    nd = c["nd"]
    ng = gen.min_cells(c)
    c["n"] = [draw(st.integers(max(ng, 3), {1: 14, 2: 8, 3: 6}[nd])) if d < nd else 1 for d in range(3)]
    c["box"] = dict(lo=[draw(st.sampled_from([0.0, -1.0, 0.5])) if d < nd else 0.0 for d in range(3)], hi=[0.0] * 3)
    for d in range(nd):
        c["box"]["hi"][d] = c["box"]["lo"][d] + draw(st.sampled_from([1.0, 2.0, 3.5]))


def effective(env, c):
    """Snapshots (times, states) of the configuration, or None if the run is refused."""
    d = env.dir()
    try:
        conf.write(d, c, end=c["T"], params=c["par"] or None, script=script(c), writer=dict(
            type="netcdf", basename=os.path.join(d, "w"), numberOfSaves=c["saves"],
            writeInitialTimestep=int(c["init"])))
        try:
            r = env.call("setup", file=os.path.join(d, "config.xml"), all=1, maxsteps=3000)
        except Refused:
            return None
    finally:
        env.drop(d)
    t = r["times"]
    u = r["all"].reshape([len(t), gen.nvars(c["eq"])] + c["n"][::-1])
    out = []
    for k in range(0 if c["init"] else 1, c["saves"] + 1):
        when = k * c["T"] / c["saves"]
        out.append((when, ens.at(t, u, when, c["T"])))
    return out


def squeeze(a):
    """The layout of get_data: [x], [y,x] or [z,y,x]."""
    return a[0] if a.shape[0] == 1 and a.shape[1] > 1 else a[0, 0] if a.shape[0] == 1 and a.shape[1] == 1 and \
        a.shape[2] > 1 else a


def same(ans, want, what):
    check("ok" in ans, lambda: "%s: %s" % (what, ans.get("err")), "raised")
    v = ans["ok"]
    check(isinstance(v, dict), lambda: "%s: %r" % (what, v), "shape")
    got = np.array(v["data"]).reshape(v["shape"])
    check(got.shape == want.shape, lambda: "%s: shape %s instead of %s" % (what, got.shape, want.shape), "shape")
    bad = ~(np.abs(got - want) <= 1e-10 * (1 + np.abs(want).max()))
    check(not bad.any(), lambda: "%s: %r instead of %r at %s" % (what, got[bad][0], want[bad][0],
                                                                   list(np.argwhere(bad)[0])), "data")


def keywords(c):
    kw = dict(equation=c["eq"], flux=c["flux"], reconstruction=c["recon"], integrator=c["integ"],
              boundary=c["bc"], cfl=c["cfl"], T=c["T"], lower_corner=c["box"]["lo"], upper_corner=c["box"]["hi"],
              dimension=c["n"], number_of_saves=c["saves"], write_initial_timestep=c["init"], platform="cpu",
              initial_data_script=script(c), initial_parameters={k: v for k, v in c["par"].items()})
    if "gamma" in c:
        kw["equation_parameters"] = dict(gamma=c["gamma"])
    if "diff" in c:
        kw["diffusion_operator"], kw["diffusion_reconstruction"] = c["diff"], c["diffrecon"]
    return kw


def getters(c, snaps, order, extra=True):
    """Steps and the checks of their answers."""
    steps, tests = [], []
    names = conf.NAMES[c["eq"]]
    for j, (k, v) in enumerate(order):
        k, v = k % (len(snaps) + 1), v % (len(names) + 1)
        if k == len(snaps):
            steps.append(dict(do="get_data", a=[names[v % len(names)], k]))
            tests.append(lambda r, k=k: check("err" in r, lambda: "snapshot %d of %d: %r" % (k, len(snaps), r), "exists"))
            steps.append(dict(do="get_time", a=[k]))
            tests.append(lambda r, k=k: check("err" in r, lambda: "time of snapshot %d of %d: %r" % (k, len(snaps), r), "exists"))
        elif v == len(names):
            steps.append(dict(do="get_data", a=["nothing", k]))
            tests.append(lambda r: check("err" in r, lambda: "unknown variable: %r" % r, "exists"))
            steps.append(dict(do="get_time", a=[k]))
            tests.append(lambda r, k=k: check("ok" in r and abs(r["ok"] - snaps[k][0]) <= 1e-9 * c["T"], lambda:
                         "time of snapshot %d: %r instead of %r" % (k, r, snaps[k][0]), "time"))
        else:
            steps.append(dict(do="get_data", a=[names[v], k]))
            tests.append(lambda r, k=k, v=v: same(r, squeeze(snaps[k][1][v]), "%s of snapshot %d" % (names[v], k)))
    if extra:
        n, b = c["n"][0], c["box"]
        h = (b["hi"][0] - b["lo"][0]) / n
        steps.append(dict(do="get_line_segment"))
        tests.append(lambda r: same(r, b["lo"][0] + h * (np.arange(n) + 0.5), "line segment"))
        steps.append(dict(do="get_dimension"))
        tests.append(lambda r: check(r.get("ok") == c["nd"], lambda: "dimension %r" % r, "dimension"))
    return steps, tests


def finish(env, d, prog, tests, first, expect):
    """first: index of the step that runs; expect: whether it has to succeed."""
    ans = ask(env, d, prog)
    for k in range(first):
        check("ok" in ans[k], lambda: "%s: %s" % (prog[k]["do"], ans[k]["err"]), "raised")
    if not expect:
        check("err" in ans[first], lambda: "an invalid configuration ran: %s" % prog[:first + 1], "accepted")
        return
    check("ok" in ans[first], lambda: "a valid configuration was refused: %s" % ans[first]["err"][-700:], "raised")
    for r, t in zip(ans[first + 1:], tests):
        t(r)


ORDER = st.lists(st.tuples(st.integers(0, 3), st.integers(0, 5)), min_size=2, max_size=8)


@st.composite
def runs(draw):
    c = draw(schemes())
    c["order"] = draw(ORDER)
    c["multi"] = draw(st.sampled_from([1, 1, 1, 2]))
    if c["multi"] == 2:
        c["n"][0] *= 2
    c["name"] = draw(st.sampled_from([None, "exp1", "other_name"]))
    if "A" in c["par"]:
        c["how"] = draw(st.sampled_from(["scalar", "list"]))
    return c


def ev_run(env, c):
    snaps = effective(env, c)
    if snaps is None:
        return None
    kw = keywords(c)
    if c["name"]:
        kw["name"] = c["name"]
    if "A" in c["par"] and c["how"] == "list":
        kw["initial_parameters"]["A"] = [c["par"]["A"]]
    if c["multi"] > 1:
        kw["multix"] = c["multi"]
    steps, tests = getters(c, snaps, c["order"])
    d = env.dir()
    try:
        finish(env, d, [dict(do="run", kw=kw)] + steps, tests, 0, True)
    finally:
        env.drop(d)
    return "run %dd %s" % (c["nd"], c["eq"])


CHANGES = ["T", "flux", "recon", "cfl", "integ", "bc", "n", "lo", "hi", "saves", "par", "script", "gamma", "name",
           "diff", "diffrecon"]


@st.composite
def bases(draw):
    c = draw(schemes())
    c["order"] = draw(ORDER)
    c["text"] = draw(st.sampled_from(["", "comment", "space"]))
    c["change"] = sorted(draw(st.lists(st.sampled_from(CHANGES), max_size=5, unique=True)))
    o = draw(schemes(nd=[c["nd"]], eqs=[c["eq"]]))
    c["other"] = o
    c["via"] = draw(st.sampled_from(["run", "object"]))
    c["flux2"] = draw(st.sampled_from(ref.fluxes(c["eq"])))
    c["recon2"] = draw(st.sampled_from([r for r in gen.RECON if c["eq"].startswith("euler") or r != "wenof2"]))
    c["diffs"] = [draw(st.sampled_from(["tecnoroe", "tecnorusanov", "none"])),
                  draw(st.sampled_from(["none", "eno2", "eno3"]))]
    return c


def changed(c):
    """Effective case, keywords of run(), setter steps."""
    e = {k: (dict(v) if isinstance(v, dict) else list(v) if isinstance(v, list) else v) for k, v in c.items()
         if k not in ("other", "change")}
    o, kw, sets = c["other"], {}, []
    for x in c["change"]:
        if x == "T":
            e["T"] = kw["T"] = o["T"]
            sets.append(["set_fvm_value", "endTime", o["T"]])
        elif x == "flux":
            e["flux"] = kw["flux"] = c["flux2"]
            sets.append(["set_fvm_value", "flux", c["flux2"]])
        elif x == "recon":
            e["recon"] = kw["reconstruction"] = c["recon2"]
            sets.append(["set_fvm_value", "reconstruction", c["recon2"]])
        elif x == "cfl":
            e["cfl"] = kw["cfl"] = o["cfl"]
            sets.append(["set_fvm_value", "cfl", o["cfl"]])
        elif x == "integ":
            e["integ"] = kw["integrator"] = o["integ"]
            sets.append(["set_fvm_value", "integrator", o["integ"]])
        elif x == "bc":
            e["bc"] = kw["boundary"] = o["bc"]
            sets.append(["set_fvm_value", "boundary", o["bc"]])
        elif x == "n":
            e["n"] = kw["dimension"] = o["n"]
            sets.append(["set_dimension", o["n"]])
        elif x in ("lo", "hi"):
            e["box"] = dict(e["box"])
            e["box"][x] = o["box"][x]
            kw["lower_corner" if x == "lo" else "upper_corner"] = o["box"][x]
            sets.append(["set_lower_corner" if x == "lo" else "set_upper_corner", o["box"][x]])
        elif x == "saves":
            e["saves"], e["init"] = o["saves"], o["init"]
            kw["number_of_saves"], kw["write_initial_timestep"] = o["saves"], o["init"]
            sets.append(["set_fvm_writer", "netcdf", "again", o["saves"], o["init"]])
        elif x == "par" and "script" not in c["change"]:
            e["par"] = {k: (o["par"].get(k, v) if not isinstance(v, list) else [q / 2 for q in v])
                        for k, v in c["par"].items()}
            if e["par"]:
                kw["initial_parameters"] = e["par"]
                sets.append(["set_initial_data", "init.py", {k: v if isinstance(v, list) else [v] for k, v in e["par"].items()}])
        elif x == "script" and c["via"] == "run":
            e["k"], e["par"] = o["k"], o["par"]
            kw["initial_data_script"] = script(e)
            kw["initial_parameters"] = e["par"]
        elif x == "gamma" and "gamma" in c:
            e["gamma"] = 1.3
            kw["equation_parameters"] = dict(gamma=1.3)
            sets.append(["set_equation_parameters", dict(gamma=1.3)])
        elif x == "name":
            kw["name"] = "renamed"
            sets.append(["set_fvm_value", "name", "renamed"])
        elif x == "diff" and c["eq"] in gen.DIFF:
            e["diff"] = kw["diffusion_operator"] = c["diffs"][0]
            if "diffrecon" in c["change"] or c["via"] == "object":
                e["diffrecon"] = kw["diffusion_reconstruction"] = c["diffs"][1]
            elif "diffrecon" not in e:
                e["diffrecon"] = "none"
            sets.append(["set_diffusion", e["diff"], e["diffrecon"]])
        elif x == "diffrecon" and c["via"] == "run" and "diff" not in c["change"] and "diff" in c:
            e["diffrecon"] = kw["diffusion_reconstruction"] = c["diffs"][1]
    return e, kw, sets


def ev_base(env, c):
    e, kw, sets = changed(c)
    if any(e["box"]["hi"][d] <= e["box"]["lo"][d] for d in range(e["nd"])):
        expect, snaps = False, []
    else:
        if e.get("diff") == "none":
            del e["diff"]
        try:
            snaps = effective(env, e)
        except AssertionError:
            snaps = None
        expect = snaps is not None
        snaps = snaps or []
    base, d = env.dir(), env.dir()
    try:
        conf.write(base, c, end=c["T"], params=c["par"] or None, script=script(c), writer=dict(
            type="netcdf", basename=os.path.join(d, "w"), numberOfSaves=c["saves"],
            writeInitialTimestep=int(c["init"])))
        x = os.path.join(base, "config.xml")
        text = open(x).read()
        if c["text"] == "comment":
            text = text.replace("<endTime>", "<!-- the final time -->\n<endTime>").replace(
                "<lowerCorner>", "<!-- of the grid --><lowerCorner>")
        if c["text"] == "space":
            text = text.replace("><", ">\n   <")
            text = re.sub(r"(<(lowerCorner|dimension)>)([^<]*)", lambda m: m.group(1) + "  " +
                          m.group(3).replace(" ", "   ") + "\n ", text)
        open(x, "w").write(text)
        if c["via"] == "run":
            prog = [dict(do="run", kw=dict(kw, base_xml=x))]
        else:
            prog = [dict(do="new", kw=dict(xml_file=x))]
            for s in sets:
                prog.append(dict(do=s[0], a=s[1:]))
            prog.append(dict(do="call_run"))
        steps, tests = getters(e, snaps, c["order"]) if expect else ([], [])
        finish(env, d, prog + steps, tests, len(prog) - 1, expect)
    finally:
        env.drop(base)
        env.drop(d)
    return "%s %s" % (c["via"], "+".join(c["change"]) or "as is") if expect else "invalid"


@st.composite
def uqs(draw):
    c = draw(ens.ensembles(stats=["meanvar", "onepointmoment"], samples=st.integers(1, 4)))
    for s in c["stats"]:
        s["numberOfSaves"] = max(1, s["numberOfSaves"])
    # one meanvar, moments of different orders
    seen, keep = set(), []
    for s in c["stats"]:
        k = (s["name"], s.get("p"))
        if k not in seen:
            seen.add(k)
            keep.append(s)
    c["stats"] = keep
    c["saves"] = max(1, c["saves"])
    c["change"] = sorted(draw(st.lists(st.sampled_from(["samples", "start", "statistics", "generator", "saves"]),
                                       max_size=3, unique=True)))
    c["samples2"], c["start2"] = draw(st.integers(1, 4)), draw(st.integers(0, 6))
    c["multi"] = draw(st.sampled_from([1, 1, 2]))
    c["order"] = draw(st.lists(st.tuples(st.integers(0, 5), st.integers(0, 5), st.integers(0, 6)), min_size=3,
                               max_size=10))
    return c


def ev_uq(env, c):
    try:
        end = ens.end_time(env, c)
    except Refused:
        return None
    if end is None:
        return None
    e = dict(c)
    kw = dict(uq=True)
    if "samples" in c["change"]:
        e["samples"] = kw["samples"] = c["samples2"]
    if "start" in c["change"]:
        e["start"] = kw["sampleStart"] = c["start2"]
    if "generator" in c["change"]:
        kw["generator"] = "stlmersenne"
    ns = 1
    init = True
    if "saves" in c["change"]:
        e["saves"] = ns = kw["number_of_saves"] = 2
        kw["write_initial_timestep"] = True
    if "statistics" in c["change"]:
        kw["statistics"] = ["meanvar"]
        e["stats"] = [dict(name="meanvar", numberOfSaves=ns, writeInitialTimestep=1)]
    multi = c["multi"] if e["samples"] % c["multi"] == 0 else 1
    if multi > 1:
        kw["multiSample"] = multi
    try:
        runs = [ens.single(env, e, end, k) for k in ens.sample_range(e)]
    except Refused:
        return None
    base, d = env.dir(), env.dir()
    try:
        ens.write(env, c, end, base)
        kw["base_xml"] = os.path.join(base, "config.xml")
        steps, tests = [], []
        names = conf.NAMES[c["eq"]]
        for a, b, k in c["order"]:
            v = names[b % len(names)]
            i = b % len(names)
            if a < 3 and e["stats"]:
                s = e["stats"][a % len(e["stats"])]
                want = ens.expected(e, s, end, runs)
                n = sorted(want)[k % len(want)]
                k = b % (len(want[n]) + 1)
                steps.append(dict(do="get_data", a=[v, k], kw=dict(statistics=n)))
                if k == len(want[n]):
                    tests.append(lambda r, n=n, k=k: check("err" in r, lambda: "%s %d: %r" % (n, k, r), "exists"))
                else:
                    w = want[n][k][1][i]
                    tests.append(lambda r, w=w, n=n, k=k: same(r, squeeze(w), "%s %d" % (n, k)))
            else:
                j = a % (e["saves"] + 1)
                s = k % (len(runs) + 1)
                sid = ens.sample_range(e)[0] + s
                steps.append(dict(do="get_data", a=[v, j], kw=dict(sample=sid)))
                if s == len(runs):
                    tests.append(lambda r, sid=sid: check("err" in r, lambda: "sample %d: %r" % (sid, r), "exists"))
                else:
                    t, u = runs[s]
                    w = ens.at(t, u, j * end / e["saves"], end)[i]
                    tests.append(lambda r, w=w, sid=sid, j=j: same(r, squeeze(w), "sample %d snapshot %d" % (sid, j)))
        finish(env, d, [dict(do="run", kw=kw)] + steps, tests, 0, True)
    finally:
        env.drop(base)
        env.drop(d)
    return "uq " + "+".join(c["change"])


BAD = dict(flux="upwnd", equation="euler7", reconstruction="weno9", integrator="rk9", boundary="open",
           dimension=[0, 1, 1], T="soon", cfl=-0.5, diffusion_operator="some", upper_corner=[-9.0, 0.0, 0.0],
           platform="tpu", initial_data_script="rho = (\n", number_of_saves="many", base_xml="/nonexistent.xml")


@st.composite
def bads(draw):
    c = draw(schemes(nd=[1]))
    c["bad"] = draw(st.sampled_from(sorted(BAD)))
    return c


def ev_bad(env, c):
    kw = dict(keywords(c))
    kw[c["bad"]] = BAD[c["bad"]]
    d = env.dir()
    try:
        finish(env, d, [dict(do="run", kw=kw)], [], 0, False)
    finally:
        env.drop(d)
    return "bad " + c["bad"]


SUBS = [Sub("run", runs(), ev_run, 2, batch=10), Sub("base", bases(), ev_base, 3, batch=10),
        Sub("uq", uqs(), ev_uq, 2, batch=10), Sub("bad", bads(), ev_bad, 0.5, batch=10)]
