from vh.fw import *
from vh import gen, ref, conf, ens
import datetime, glob, xml.etree.ElementTree as ET

ID = "C29"
TARGETS = ["alsh", "alshuq", "alsvinncli", "alsuqcli"]
RULE = ("A case is a run of alsvinncli (one or more processes, with or without division of the domain) or alsuqcli "
        "on a generated configuration whose texts (configuration, initial data, values loaded from files) carry "
        "generated comments and peculiarities, lie in generated places and may be overwritten while the run is "
        "going on. Everything the run writes (report in JSON and XML, attributes of every NetCDF file) is decoded "
        "and compared with what was run: the exact texts that were used, the configuration, the command, the "
        "place, the time, processes, threads and the number of steps, counted by an independent run of the same "
        "settings. A failing run must not leave a report. Non-trivial: at least one output file besides the "
        "report and at least two loaded texts.")

CHARS = ["# ", "x", " ", "\t", "\"", "'", "\\", "<", ">", "&", "&amp;", "%s", "%", "\\n", "{", "}", "$HOME", "caf\u00e9",
         "\u2202u/\u2202t", "\U0001F30A", "/", ".", "_dash_", "_DOT_", "]]>", "--", ";", "=", "u = 3", "\u00a0"]
DIRS = ["", "a", "run_1", "x-y", "v1.2", "deep/er", "a.b/c-d.e"]
PLACES = ["rel", "dot", "abs", "below", "above"]


@st.composite
def comment(draw, xml):
    t = "".join(draw(st.lists(st.sampled_from(CHARS), max_size=12)))
    if xml:
        t = t.replace("--", "- ").rstrip("-")
    return t


@st.composite
def small(draw):
    c = draw(gen.scheme(dims=draw(st.sampled_from([[1], [1], [2]]))))
    g = gen.min_cells(c)
    c["bc"] = draw(st.sampled_from(["periodic", "neumann"]))
    c["box"] = draw(gen.box(c["nd"]))
    c["f"] = draw(gen.field(kinds=["sine", "step", "rand"]))
    c["f"]["a"] = min(c["f"]["a"], 0.5)
    if c["eq"].startswith("euler"):
        c["mach"] = draw(st.sampled_from([0.3, 1.0]))
    gen.untie(c)
    c["cfl"] = draw(st.sampled_from([0.45, 0.2]))
    c["len"] = draw(st.sampled_from([0.4, 1.7, 3.3, 6.2]))
    c["np"] = draw(st.sampled_from([1, 1, 1, 1, 2, 4]))
    lay = [c["np"], 1, 1]
    if c["nd"] == 2 and c["np"] > 1:
        lay = draw(st.sampled_from([[c["np"], 1, 1], [1, c["np"], 1]] + ([[2, 2, 1]] if c["np"] == 4 else [])))
    c["lay"] = lay
    c["n"] = [draw(st.integers(max(g, 2), max(g, 2) + 3)) * lay[d] if d < c["nd"] else 1 for d in range(3)]
    return c


@st.composite
def runs(draw):
    c = draw(small())
    c["name"] = draw(st.sampled_from(["run", "a_b", "shock-1", "v0.1", "X", "two words"]))
    c["config"] = draw(st.sampled_from(["config.xml", "my.run.xml", "in-put", "c_1.xml"]))
    c["py"] = draw(st.sampled_from(["init.py", "i.v2.py", "sub/init.py", "../init.py", "no_suffix"]))
    c["dir"] = draw(st.sampled_from(DIRS))
    c["place"] = draw(st.sampled_from(PLACES))
    c["cx"] = draw(comment(True))
    c["cp"] = [draw(comment(False)) for _ in range(draw(st.integers(0, 3)))]
    c["eol"] = draw(st.sampled_from(["\n", "\n", "\r\n"]))
    c["tail"] = draw(st.sampled_from(["", "\n", "\n\n\n", "  \n\t\n", "# end"]))
    c["load"] = draw(st.lists(st.sampled_from(["cfl", "flux", "endTime", "equation", "boundary", "reconstruction"]),
                              max_size=3, unique=True))
    c["every"] = draw(st.booleans())
    c["saves"] = draw(st.integers(1, 3))
    c["init"] = draw(st.booleans())
    c["fun"] = draw(st.booleans())
    c["params"] = draw(st.sampled_from([None, None, {"alpha": 0.5}, {"k_1": [1.0, 2.5e-7]}]))
    c["threads"] = draw(st.sampled_from([1, 1, 2, 3]))
    c["auto"] = draw(st.booleans())
    c["rewrite"] = draw(st.sampled_from([None, None, None, "config", "py", "load"])) if c["np"] == 1 else None
    c["break"] = draw(st.integers(0, 11)) == 0
    return c


def decode(key):
    return os.path.normpath(key.replace("_dash_", "/").replace("_DOT_", "."))


def encode(path):
    return path.replace("/", "_dash_").replace(".", "_DOT_")


def leaves(e, path=""):
    """(path, text) of every leaf of the configuration, in order."""
    out = []
    for k in e:
        p = path + "." + k.tag
        if len(k):
            out += leaves(k, p)
        else:
            out.append((p[1:], k.text or ""))
    return out


def flat(t, path=""):
    if isinstance(t, dict):
        out = {}
        for k, v in t.items():
            out.update(flat(v, path + "." + k))
        return out
    return {path[1:]: t}


def of_xml(e):
    return {k.tag: of_xml(k) for k in e} if len(e) else (e.text or "")


def texts_of(tree):
    return {decode(k): v for k, v in tree.items()}


def same_texts(got, texts, where):
    got = {os.path.realpath(k): v for k, v in got.items()}
    want = {os.path.realpath(k): v for k, v in texts.items()}
    check(set(got) == set(want), lambda: "%s: texts %s recorded instead of %s" % (
        where, sorted(got), sorted(want)), "which texts")
    for k in want:
        check(got[k] == want[k], lambda: "%s: the recorded text of %s is %r instead of %r" % (
            where, os.path.basename(k), cut(got[k], want[k]), cut(want[k], got[k])), "text")


def cut(a, b):
    k = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return a[max(0, k - 10):k + 30]


def attributes(path):
    import netCDF4
    ds = netCDF4.Dataset(path)
    try:
        return {k: ds.getncattr(k) for k in ds.ncattrs()}
    finally:
        ds.close()


def facts(tree, c, cwd, before, after, where, threads):
    check(int(tree["mpiProcesses"]) == c["np"], lambda: "%s: %s processes instead of %d" % (
        where, tree["mpiProcesses"], c["np"]), "processes")
    check(int(tree["ompThreads"]) == threads, lambda: "%s: %s threads instead of %d" % (
        where, tree["ompThreads"], threads), "threads")
    check(os.path.realpath(tree["currentWorkingDirectory"]) == os.path.realpath(cwd), lambda: "%s: run in %s instead "
          "of %s" % (where, tree["currentWorkingDirectory"], cwd), "place")
    check(tree["mpiEnabled"] == "true" and tree["ompEnabled"] == "true" and tree["floatingPointType"] == "double" and
          float(tree["floatingPointEpsilon"]) < 3e-16, lambda: "%s: wrong kind of build" % where, "build")
    t = stamp(tree["generatedAt"])
    check(before <= t <= after, lambda: "%s: generated at %s, the run lasted from %s to %s" % (
        where, t, before, after), "time")


def stamp(s):
    return datetime.datetime.strptime(s, "%Y%m%dT%H%M%S")


def now(up=0):
    return datetime.datetime.now().replace(microsecond=0) + datetime.timedelta(seconds=up)


def configuration(attr, prefix, doc, where):
    """Every leaf whose place in the configuration is unique is an attribute with its text."""
    ls = leaves(doc)
    seen = {}
    for k, v in ls:
        seen.setdefault(k, []).append(v)
    got = {k[len(prefix) + 1:]: v for k, v in attr.items() if k.startswith(prefix + ".")}
    check(set(got) == set(seen), lambda: "%s: the configuration recorded under %s lacks %s and has %s too many" % (
        where, prefix, sorted(set(seen) - set(got)), sorted(set(got) - set(seen))), "configuration")
    for k, v in seen.items():
        if len(v) == 1:
            check(got[k] == v[0], lambda: "%s: %s.%s is %r instead of %r" % (where, prefix, k, got[k], v[0]),
                  "configuration")
        else:
            check(got[k] in v, lambda: "%s: %s.%s is %r, none of %r" % (where, prefix, k, got[k], v),
                  "configuration")


def report(cwd, exe, name, c, texts, command, steps, before, after, threads):
    base = os.path.join(cwd, "%s_%s_report" % (exe, name))
    check(os.path.exists(base + ".json") and os.path.exists(base + ".xml"), "no report is left", "report")
    other = [p for p in glob.glob(os.path.join(cwd, "*_report.*")) if not p.startswith(glob.escape(base)) and
             not p.startswith(base)]
    check(not other, lambda: "further reports %s" % other, "report")
    with open(base + ".json", encoding="utf-8", newline="") as f:
        tree = json.load(f)["report"]
    for kind in ("json", "xml"):
        where = "report." + kind
        if kind == "xml":
            if " " in "".join(texts):
                continue
            x = of_xml(ET.parse(base + ".xml").getroot())
            # only the parser of XML changes carriage returns and some white space
            same_texts({k: v.replace("\r\n", "\n").strip() for k, v in texts_of(x["loadedTextFiles"]).items()},
                       {k: v.replace("\r\n", "\n").strip() for k, v in texts.items()}, where)
            tree = x
        else:
            same_texts(texts_of(tree["loadedTextFiles"]), texts, where)
        facts(tree, c, cwd, before, after, where, threads)
        check(tree["executable"] == exe and tree["name"] == name, lambda: "%s: %r, %r instead of %r, %r" % (
            where, tree["executable"], tree["name"], exe, name), "name")
        check(tree["command"].split() == command, lambda: "%s: command %r instead of %r" % (
            where, tree["command"], " ".join(command)), "command")
        check(int(tree["timesteps"]) == steps, lambda: "%s: %s steps instead of %d" % (
            where, tree["timesteps"], steps), "steps")
        check(before <= stamp(tree["endTime"]) <= after, lambda: "%s: ended at %s, the run lasted from %s to %s" % (
            where, tree["endTime"], before, after), "time")
        check(0 <= float(tree["wallTime"]) <= 1000 * (after - before).total_seconds() + 1000, lambda: "%s: wall "
              "time %s ms of a run of %s" % (where, tree["wallTime"], after - before), "duration")


def ev_run(env, c):
    c = dict(c)
    if c["auto"]:
        c["cfl"] = 0.9 if c["recon"] == "none" else 0.475
        c["integ"] = "forwardeuler" if c["recon"] == "none" else "rungekutta2"
    arr = conf.prim_data(c)
    u = gen.cons(c["eq"], arr, c.get("gamma", 1.4))
    r = env.call("rhs", {"u": u}, mode="system", **gen.args(c))
    w = sum(r["ws"][d] / r["h"][d] for d in range(c["nd"]))
    if not 1e-12 < w < 1e12:
        return None
    end = float(c["len"] * c["cfl"] / w)
    top = env.dir()
    try:
        home = os.path.join(top, "w", c["dir"])
        os.makedirs(os.path.join(home, "sub"))
        cwd = {"below": os.path.join(home, "sub"), "above": top}.get(c["place"], home)
        path = os.path.join(home, c["config"])
        given = {"abs": path, "dot": "./" + c["config"]}.get(c["place"], os.path.relpath(path, cwd))
        texts = {}
        data = os.path.join(top, "data.npy")
        script = conf.script(c, arr, data).splitlines()
        if c["break"]:
            script.append("raise ValueError('stop')")
        for k, t in enumerate(c["cp"]):
            script.insert((7 * k + 3) % (len(script) + 1) if not script[0].startswith("if") else 0, "#" + t)
        wr = dict(type="netcdf", basename=os.path.join(top, "o"))
        if not c["every"]:
            wr.update(numberOfSaves=c["saves"], writeInitialTimestep=int(c["init"]))
        funs = [dict(name="moment", degree=1, numberOfSaves=c["saves"], writer=dict(
            type="netcdf", basename=os.path.join(top, "f")))] if c["fun"] else None
        cc = dict(c)
        if c["auto"]:
            cc["cfl"] = cc["integ"] = "auto"
        items = conf.fvm_items(cc, end=end, writer=wr, name=c["name"], pyname=c["py"], params=c["params"],
                               functionals=funs)
        loaded = {}
        for q, (k, v) in enumerate(items):
            if k in c["load"]:
                items[q] = (k, "load:value.%s" % k)
                loaded[os.path.join(home, "value." + k)] = v
        text = "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<config>\n<!--%s-->" % c["cx"].replace("\u00a0", " ")
        text += conf.tag("fvm", "".join(conf.tag(k, v) for k, v in items)) + "</config>" + (
            c["tail"] if "#" not in c["tail"] else "")
        text = text.replace("\n", c["eol"])
        py = os.path.normpath(os.path.join(home, c["py"]))
        if c["rewrite"]:
            victim = {"config": path, "py": py, "load": (sorted(loaded) or [path])[0]}[c["rewrite"]]
            script.append("with open(%r, 'w') as _f: _f.write('overwritten')" % victim)
        script = c["eol"].join(script) + c["eol"] + c["tail"]
        # the same run elsewhere, counted by the harness
        count = os.path.join(top, "count", "sub")
        os.makedirs(os.path.join(top, "count", "sub", "sub"))
        ctext = text.replace(os.path.join(top, "o"), os.path.join(top, "p")).replace(
            os.path.join(top, "f<"), os.path.join(top, "g<"))
        texts = {path: text, py: script}
        texts.update(loaded)
        for p, t in list(texts.items()) + [(os.path.join(count, "config.xml"), ctext), (os.path.normpath(
                os.path.join(count, c["py"])), script)] + [(os.path.join(count, os.path.basename(p)), t)
                                                          for p, t in loaded.items()]:
            with open(p, "w", encoding="utf-8", newline="") as f:
                f.write(t)
        steps = None
        try:
            keep = {p: open(p, encoding="utf-8", newline="").read() for p in texts}
            r = env.call("setup", file=os.path.join(count, "config.xml"), all=1, maxsteps=400)
            steps = len(r["times"]) - 1
            if r.kv.get("failure") or steps >= 400:
                return None
        except Refused as e:
            why = str(e)
            if not c["break"] and not any(q in str(e) for q in ("NaN", "onstraint", "inf", "Wave speed")):
                raise
        for p, t in keep.items():
            with open(p, "w", encoding="utf-8", newline="") as f:
                f.write(t)
        if c["rewrite"]:
            texts = keep
        args = [given]
        if c["np"] > 1:
            args = ["--multi-" + "xyz"[d] + o for d in range(3) for o in [" %d" % c["lay"][d]]]
            args = " ".join(args).split() + [given]
        before = now()
        rc, o = env.run(["alsvinncli/alsvinncli"] + args, cwd=cwd, np_=c["np"], timeout=60,
                        env=dict(OMP_NUM_THREADS=str(c["threads"])))
        after = now(1)
        if steps is None:
            check(rc != 0, lambda: "the program succeeds where the library fails: " + why, "status")
            left = glob.glob(os.path.join(cwd, "*_report.*"))
            check(not left, lambda: "a failed run leaves %s" % left, "failed")
            return "failed" if c["break"] else None
        check(rc == 0, lambda: "status %s: %s" % (rc, o[:600]), "refused")
        command = [os.path.join(env.build, "alsvinncli/alsvinncli")] + args
        report(cwd, "alsvinncli", c["name"], c, texts, command, steps, before, after, c["threads"])
        doc = ET.fromstring(text)
        for e in doc.iter():
            if (e.text or "").startswith("load:"):
                e.text = loaded[os.path.join(home, e.text[5:])]
        files = sorted(glob.glob(os.path.join(glob.escape(top), "[of]_*.nc")))
        check(bool(files) or not c["every"], "no output", "output")
        n = len([p for p in files if os.path.basename(p).startswith("o_")])
        if c["every"]:
            check(n == steps + 1, lambda: "%d outputs of a run of %d steps" % (n, steps), "output")
        for p in files:
            where = os.path.basename(p)
            a = attributes(p)
            t = {k[len("alsvinn_report."):]: v for k, v in a.items() if k.startswith("alsvinn_report.")}
            facts(t, c, cwd, before, after, where, c["threads"])
            q = "loadedTextFiles."
            same_texts({decode(k[len(q):]): v for k, v in t.items() if k.startswith(q)}, texts, where)
            if where.startswith("o_"):
                configuration(a, "fvm_configuration", doc, where)
        if not files:
            return None
        return "%s%s%s%s" % (c["place"], " %d processes" % c["np"] if c["np"] > 1 else "",
                             " rewritten" if c["rewrite"] else "", " loaded" if loaded else "")
    finally:
        env.drop(top)


@st.composite
def ensemble(draw):
    lay = draw(st.sampled_from([[1, 1, 1, 1], [1, 1, 1, 1], [2, 1, 1, 1], [2, 2, 1, 1], [1, 2, 1, 1], [4, 1, 1, 1]]))
    k = lay[0]
    c = draw(ens.ensembles(p=tuple(lay[1:]), stats=["meanvar", "onepointmoment"],
                           samples=st.integers(1, max(1, 4 // k)).map(lambda x: x * k)))
    c["layout"] = lay
    c["np"] = int(np.prod(lay))
    c["threads"] = draw(st.sampled_from([1, 2]))
    return c


def ev_ensemble(env, c):
    end = ens.end_time(env, c)
    if end is None:
        return None
    d = ens.write(env, c, end)
    try:
        texts = {}
        for p in ("config.xml", "init.py"):
            with open(os.path.join(d, p), encoding="utf-8", newline="") as f:
                texts[os.path.join(d, p)] = f.read()
        try:
            steps = sum(len(ens.single(env, c, end, k)[0]) - 1 for k in ens.sample_range(c))
        except Refused as e:
            if any(q in str(e) for q in ("NaN", "onstraint", "inf", "Wave speed")):
                return None
            raise
        ms, px, py, pz = c["layout"]
        args = ["config.xml"]
        if c["np"] > 1:
            args = ["--multi-sample", str(ms), "--multi-x", str(px), "--multi-y", str(py), "--multi-z", str(pz),
                    "config.xml"]
        before = now()
        rc, o = env.run(["alsuqcli/alsuqcli"] + args, cwd=d, np_=c["np"], timeout=60,
                        env=dict(OMP_NUM_THREADS=str(c["threads"])))
        after = now(1)
        check(rc == 0, lambda: "status %s on %s: %s" % (rc, c["layout"], o[:600]), "refused")
        command = [os.path.join(env.build, "alsuqcli/alsuqcli")] + args
        report(d, "alsuqcli", "run", c, texts, command, steps, before, after, c["threads"])
        doc = ET.fromstring(texts[os.path.join(d, "config.xml")])
        files = sorted(glob.glob(os.path.join(glob.escape(d), "*.nc")))
        n = 0
        for p in files:
            where = os.path.basename(p)
            a = attributes(p)
            t = {k[len("alsvinn_report."):]: v for k, v in a.items() if k.startswith("alsvinn_report.")}
            facts(t, c, d, before, after, where, c["threads"])
            q = "loadedTextFiles."
            same_texts({decode(k[len(q):]): v for k, v in t.items() if k.startswith(q)}, texts, where)
            if where.startswith("s"):
                configuration(a, "uqAttributes", doc, where)
                n += 1
        check(n > 0, "no statistics are written", "output")
        return "%s" % (c["layout"],)
    finally:
        env.drop(d)


SUBS = [Sub("run", runs(), ev_run, 3, batch=20), Sub("ensemble", ensemble(), ev_ensemble, 1, batch=10)]
TIME = dict(quick=70, thorough=400)
