from vh.fw import *
from vh import gen, ref, conf, ens

ID = "C21"
TARGETS = ["alsh", "alshuq", "vhplug", "alsuqcli"]
RULE = ("generator: a case is a list of random parameters (names, lengths, distributions, intervals), a number "
        "of samples and a sequence of requests (parameter, sample) in any order, with repetitions, to one or "
        "several generators of one configuration; every answer has to be the component of the standard 64-bit "
        "Mersenne stream (consumed sample by sample, within a sample by the order of the names, an "
        "independent implementation) mapped into the interval, or the midpoint of the cell of the sample. "
        "seen: an ensemble whose initial data script writes down what it is given: every sample of the range "
        "has to see exactly its own parameters under their names, fixed parameters unchanged, also for "
        "several ensembles in one process and divided over 2 processes. stream: long streams stay inside "
        "the interval, have no repetition and are equidistributed. Non-trivial: at least two samples and two "
        "numbers per sample, or an order that goes back.")


@st.composite
def requests(draw):
    ps = draw(ens.parameters(most=4))
    n = draw(st.integers(1, 40))
    far = draw(st.sampled_from([10, 10, 100, 2000]))
    q = draw(st.lists(st.tuples(st.sampled_from([p["name"] for p in ps]), st.integers(0, far)),
                      min_size=1, max_size=25))
    order = draw(st.sampled_from(["any", "any", "up", "down"]))
    if order == "up":
        q.sort(key=lambda x: x[1])
    if order == "down":
        q.sort(key=lambda x: -x[1])
    # parameters need not be listed in the order of their names
    return dict(params=ps, samples=n, q=[list(x) for x in q],
                start=draw(st.sampled_from([None, 0, 3])),
                generator=draw(st.sampled_from(["auto", "stlmersenne"])))


def config(env, c):
    d = env.dir()
    u = dict(samples=c["samples"], parameters=c["params"], stats=[], generator=c["generator"])
    if c.get("start") is not None:
        u["sampleStart"] = c["start"]
    text = "<config>\n<fvm><name>x</name></fvm>" + conf.uq_xml(u) + "</config>\n"
    with open(os.path.join(d, "config.xml"), "w") as f:
        f.write(text)
    return d


def ev_gen(env, c):
    d = config(env, c)
    try:
        r = env.uq("samples", file=os.path.join(d, "config.xml"),
                   ask=";".join("%s,%d" % tuple(q) for q in c["q"]))
    finally:
        env.drop(d)
    names = sorted(p["name"] for p in c["params"])
    check(r.s("names").split(",") == names, lambda: "parameters %s" % r.s("names"), "names")
    check(int(r.s("samples")) == c["samples"] and int(r.s("start")) == (c["start"] or 0),
          lambda: "range of samples: %s from %s" % (r.s("samples"), r.s("start")), "range")
    k = 0
    for (n, s), m in zip(c["q"], r["lengths"].astype(int)):
        want = np.array(ens.values(c["params"], n, s, c["samples"]))
        got = r["values"][k:k + m]
        k += m
        check(m == len(want), lambda: "%s has %d components instead of %d" % (n, m, len(want)), "length")
        check(np.all(np.abs(got - want) <= 1e-14 * (1 + np.abs(want))), lambda: "%s in sample %d: %s "
              "instead of %s" % (n, s, list(got), list(want)), "value")
    back = any(a[1] > b[1] for a, b in zip(c["q"], c["q"][1:]))
    return "back" if back else "forward" if len(c["q"]) > 1 else None


@st.composite
def seens(draw, np_=1):
    c = dict(eq="burgers", nd=1, flux="godunov", recon="none", integ="forwardeuler", n=[4, 1, 1],
             box=dict(lo=[0.0, 0.0, 0.0], hi=[1.0, 0.0, 0.0]), bc="periodic", cfl=0.5)
    c["params"] = draw(ens.parameters(most=4))
    c["samples"] = draw(st.integers(1, 8)) * np_
    c["start"] = draw(st.sampled_from([None, 0, 1, 3, 17, 100]))
    c["fixed"] = draw(st.lists(st.sampled_from(["alpha", "X", "Z", "m0"]), max_size=3, unique=True))
    c["generator"] = "auto"
    c["runs"] = draw(st.integers(1, 2))
    c["cli"] = draw(st.integers(0, 9)) == 0
    return c


def ev_seen(env, c, np_=1):
    rnd = {p["name"]: p for p in c["params"]}
    fixed = {n: (0.5 + k if k % 2 else [0.25, -1.5, float(k)]) for k, n in enumerate(c["fixed"])
             if n not in rnd}
    for rep in range(c["runs"]):
        d = env.dir()
        try:
            # the script is evaluated once per cell; the first cell writes the values down
            lines = ["if i == 0:", "    _o = []"]
            for n in sorted(rnd) + sorted(fixed):
                lines.append("    _o.append(%r + ' ' + ' '.join(repr(float(_q)) for _q in (%s if hasattr(%s, "
                             "'__len__') else [%s])))" % (n, n, n, n))
            lines += ["    with open(%r + str(getpid_()) + '.txt', 'a') as _f:" % os.path.join(d, "seen."),
                      "        _f.write('; '.join(_o) + chr(10))", "u = 0.5"]
            script = "from os import getpid as getpid_\n" + "\n".join(lines) + "\n"
            u = dict(samples=c["samples"], parameters=c["params"], stats=[dict(
                name="meanvar", numberOfSaves=1, writer=dict(type="netcdf", basename=os.path.join(d, "s")))])
            if c["start"] is not None:
                u["sampleStart"] = c["start"]
            conf.write(d, c, end=0.01, uq=u, params=fixed or None, script=script)
            if np_ > 1:
                r = env.srv(np_, exe="alshuq").call("uqrun", file=os.path.join(d, "config.xml"), ms=np_)
                for q in range(np_):
                    check(r.s("status.%d" % q) == "ok", lambda: "process %d: %s" % (q, r.kv.get(
                        "what.%d" % q)), "refused")
            elif c["cli"]:
                rc, o = env.run(["alsuqcli/alsuqcli", "config.xml"], cwd=d)
                check(rc == 0, lambda: "status %s: %s" % (rc, o[-400:]), "refused")
            else:
                env.uq("uqrun", file=os.path.join(d, "config.xml"))
            want = []
            for k in range(c["start"] or 0, (c["start"] or 0) + c["samples"]):
                w = {n: ens.values(c["params"], n, k, c["samples"]) for n in rnd}
                w.update({n: (v if isinstance(v, list) else [v]) for n, v in fixed.items()})
                want.append(w)
            got = []
            for p in conf.glob.glob(os.path.join(d, "seen.*.txt")):
                mine = []
                for l in open(p):
                    g = {}
                    for part in l.strip().split("; "):
                        x = part.split(" ")
                        g[x[0]] = [float(y) for y in x[1:]]
                    mine.append(g)
                if np_ > 1:
                    check(len(mine) == c["samples"] // np_, lambda: "a process ran %d of %d samples" % (
                        len(mine), c["samples"]), "share")
                got += mine
            check(len(got) == len(want), lambda: "%d samples ran instead of %d" % (len(got), len(want)),
                  "count")

            def same(a, b):
                return sorted(a) == sorted(b) and all(len(a[n]) == len(b[n]) and np.all(np.abs(
                    np.array(a[n]) - b[n]) <= 1e-14 * (1 + np.abs(b[n]))) for n in a)
            if np_ == 1:
                for k, (g, w) in enumerate(zip(got, want)):
                    check(same(g, w), lambda: "sample %d saw %s instead of %s" % (
                        (c["start"] or 0) + k, g, w), "seen")
            else:
                left = list(want)
                for g in got:
                    m = [k for k, w in enumerate(left) if same(g, w)]
                    check(m, lambda: "a sample saw %s, which belongs to no (other) sample" % g, "seen")
                    left.pop(m[0])
        finally:
            env.drop(d)
    return "%d parameters" % len(rnd) if c["samples"] > 1 else None


@st.composite
def streams(draw):
    ps = draw(ens.parameters(most=4, mids=False))
    return dict(params=ps, samples=draw(st.integers(1, 50)), start=None, generator="auto",
                first=draw(st.sampled_from([0, 0, 7, 1000, 100000])), many=draw(st.sampled_from([300, 1000])))


def ev_stream(env, c):
    d = config(env, c)
    try:
        q = ["%s,%d" % (p["name"], k) for k in range(c["first"], c["first"] + c["many"])
             for p in sorted(c["params"], key=lambda p: p["name"])]
        r = env.uq("samples", file=os.path.join(d, "config.xml"), ask=";".join(q))
    finally:
        env.drop(d)
    D = sum(p["length"] for p in c["params"])
    x = r["values"].reshape(c["many"], D)
    k = 0
    seen = []
    for p in sorted(c["params"], key=lambda p: p["name"]):
        lo, hi = ens.bounds(p)
        for j in range(p["length"]):
            u = (x[:, k] - lo) / (hi - lo)
            k += 1
            check(u.min() >= 0 and u.max() < 1 + 1e-12, lambda: "%s leaves its interval: %r..%r" % (
                p["name"], u.min(), u.max()), "interval")
            s = np.sort(u)
            n = len(s)
            ks = max(np.max(np.arange(1, n + 1) / n - s), np.max(s - np.arange(n) / n))
            check(ks < 2.6 / np.sqrt(n), lambda: "component %d of %s is not uniform: distance %.3g" % (
                j, p["name"], ks), "uniform")
            seen.append(u)
    u = np.concatenate(seen)
    check(len(np.unique(u.round(13))) > len(u) - 3, "numbers repeat", "repeat")
    if D > 1:
        cc = np.corrcoef(np.array(seen))
        np.fill_diagonal(cc, 0)
        check(np.abs(cc).max() < 6 / np.sqrt(c["many"]), lambda: "components are correlated: %.3g" %
              np.abs(cc).max(), "correlated")
    return "stream"


@st.composite
def bads(draw):
    c = draw(requests())
    c["bad"] = draw(st.sampled_from(["type", "normal", "generator", "missing"]))
    return c


def ev_bad(env, c):
    """Parameters that cannot be provided are refused."""
    c = dict(c, params=[dict(p) for p in c["params"]])
    if c["bad"] in ("type", "normal"):
        c["params"][-1]["type"] = "normal" if c["bad"] == "normal" else "unifrom"
    if c["bad"] == "generator":
        c["generator"] = "mersenne"
    if c["bad"] == "missing":
        c["q"] = [["nobody", 0]]
    d = config(env, c)
    try:
        env.uq("samples", file=os.path.join(d, "config.xml"),
               ask=";".join("%s,%d" % tuple(q) for q in c["q"]))
    except Refused:
        return "bad " + c["bad"]
    finally:
        env.drop(d)
    check(False, "accepted: %s" % c["bad"], "accepted")


@st.composite
def plugins(draw):
    c = draw(requests())
    c["params"] = c["params"][:2]
    for k, name in enumerate(draw(st.lists(st.sampled_from(["plug", "Q", "m0"]), min_size=1, max_size=2, unique=True))):
        p = dict(name=name, length=draw(st.sampled_from([1, 1, 2, 5])), type="dll", library="@",
                 generator_function="vh_dist_generate")
        if draw(st.integers(0, 3)):
            p["make_parameters_function"] = "vh_make_parameters"
            p["set_parameter_function"] = "vh_set_parameter"
            p["delete_parameters_function"] = "vh_delete_parameters"
            p["out"] = "@%d" % k
            p["scale"] = draw(st.sampled_from(["1", "0.5", "-3", "2.5e-3"]))
            if draw(st.booleans()):
                p["extra"] = draw(st.sampled_from(["a b", "x", "1e300", "_", "17"]))
        else:
            p["make_parameters_function"] = draw(st.sampled_from(["none", "NONE", "None"]))
        none = draw(st.integers(0, 3)) == 0
        p["create_function"] = "none" if none else "vh_dist_create"
        if not none:
            p["delete_function"] = draw(st.sampled_from(["vh_dist_delete"] * 3 + ["none"]))
        c["params"].append(p)
    c["params"] = draw(st.permutations(c["params"]))
    names = [p["name"] for p in c["params"]]
    c["q"] = [[draw(st.sampled_from(names)), k] for _, k in c["q"]]
    return c


def ev_plugin(env, c):
    """Samples provided by a shared library, alone and next to the others."""
    out = env.dir()
    try:
        c = dict(c, params=[dict(p) for p in c["params"]])
        for p in c["params"]:
            if p["type"] == "dll":
                p["library"] = os.path.join(env.build, "libvhplug.so")
                if "out" in p:
                    p["out"] = os.path.join(out, p["out"][1:])
        r = ev_gen(env, c)
        for p in c["params"]:
            if p["type"] != "dll" or "out" not in p:
                continue
            path = p["out"] + ".0"
            made = p["create_function"] != "none"
            lines = open(path).read().splitlines() if os.path.exists(path) else []
            got = [l for l in lines if not l.startswith("param ")]
            want = ["create %d %d" % (c["samples"], p["length"])] if made else []
            if made and p["delete_function"] != "none":
                want.append("delete")
            want.append("delete_parameters")
            check(got == want, lambda: "the calls were %s instead of %s" % (got, want), "calls")
            if made:
                ps = dict(l.split(" ", 2)[1:] for l in lines if l.startswith("param "))
                wp = {k: str(v) for k, v in p.items()}
                wp.update(mpi_node="0", mpi_size="1")
                for k, v in wp.items():
                    check(ps.get(k) == v, lambda: "parameter %s arrives as %r instead of %r" % (
                        k, ps.get(k), v), "parameter")
        return "plugin"
    finally:
        env.drop(out)


SUBS = [Sub("generator", requests(), ev_gen, 2), Sub("seen", seens(), ev_seen, 2, batch=60),
        Sub("seen2", seens(2), lambda e, c: ev_seen(e, c, 2), 1, batch=40),
        Sub("plugin", plugins(), ev_plugin, 1, batch=40), Sub("stream", streams(), ev_stream, 1, batch=20), Sub("bad", bads(), ev_bad, 0.5)]
