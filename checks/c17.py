from vh.fw import *
from vh import gen, ref, conf
import random

ID = "C17"
TARGETS = ["alsh", "alsvinncli"]
RULE = ("A case is a full configuration (domain, grid, equation, parameters, flux, reconstruction, CFL number, "
        "integrator, boundary, end time, diffusion, output schedule) with some settings left to their automatic "
        "choice, written in a random order, with extra white space, other letter case (flux), other number "
        "formats or values loaded from files. The run has to be bit for bit the run of the same settings given "
        "directly to the library. In the other half one setting is replaced by an unknown, incompatible, "
        "impossible or missing one; the run has to end with an error (the program: with a non-zero status) and "
        "without output. Non-trivial: at least two steps (honoured), respectively the changed setting is "
        "reported (refused).")


@st.composite
def base(draw, steps=True):
    c = draw(gen.scheme())
    nd = c["nd"]
    g = gen.min_cells(c)
    c["n"] = draw(gen.shape(nd, lo=max(g, 2), hi={1: 16, 2: 8, 3: 5}[nd]))
    c["bc"] = draw(st.sampled_from(["periodic", "neumann"]))
    c["box"] = draw(gen.box(nd))
    c["f"] = draw(gen.field(kinds=["sine", "step", "rand", "spike", "palette"]))
    c["f"]["a"] = min(c["f"]["a"], 0.5)
    if c["eq"].startswith("euler"):
        c["mach"] = draw(st.sampled_from([0.3, 1.0]))
    c["cfl"] = draw(st.sampled_from([0.45, 0.2, 0.3]))
    c["len"] = draw(st.sampled_from([1.5, 3.5, 5.0]))
    return c


@st.composite
def styles(draw):
    return dict(order=draw(st.integers(0, 9999)), ws=draw(st.integers(0, 3)), case=draw(st.integers(0, 2)),
                num=draw(st.integers(0, 3)), load=draw(st.sampled_from([None, None, None, "cfl", "flux",
                                                                        "endTime", "equation"])),
                sep=draw(st.sampled_from([" ", "\t"])), inner=draw(st.booleans()))


@st.composite
def good(draw):
    c = draw(base())
    c["autocfl"] = draw(st.integers(0, 2)) == 0
    c["autoint"] = draw(st.integers(0, 2)) == 0
    c["nogamma"] = draw(st.integers(0, 3)) == 0
    c["nodiff"] = draw(st.booleans())
    c["saves"] = draw(st.sampled_from([None, 1, 2, 3]))
    c["init"] = draw(st.booleans())
    c["mpi"] = draw(st.booleans())
    c["style"] = draw(styles())
    return c


def number(x, k):
    x = float(x)
    return [repr(x), "%.17e" % x, "%.20g" % x if x < 1e15 else repr(x), "+" + repr(x) if x >= 0 else repr(x)][k]


def text(c, d, s, items):
    """The configuration text in a certain style; items as from conf.fvm_items."""
    rng = random.Random(s["order"])
    items = list(items)
    rng.shuffle(items)
    pad = ["", " ", "\n   ", "\t"][s["ws"]]
    out = "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<!-- generated -->\n<config>\n<fvm>\n"
    for k, v in items:
        plain = "<" not in v
        if plain and k in ("cfl", "endTime"):
            if v != "auto":
                v = number(float(v), s["num"])
        if plain and k == "flux":
            v = [v, v.upper(), v.capitalize()][s["case"]]
        if plain and k in ("reconstruction", "name", "endTime"):
            v = pad + v + pad
        if k == "grid":
            v = v.replace(" ", s["sep"])
            parts = [p for p in v.split("\n") if p]
            if s["inner"]:
                rng.shuffle(parts)
            v = "\n".join(parts)
        if k == "diffusion":
            parts = [p for p in v.split("\n") if p]
            if s["inner"]:
                rng.shuffle(parts)
            v = "\n".join(p.replace(">", ">" + pad, 1) for p in parts)
        if plain and s["load"] == k:
            with open(os.path.join(d, "value_" + k), "w") as f:
                f.write(v)
            v = "load:value_" + k
        out += "%s<%s>%s</%s>%s" % (pad, k, v, k, "\n" if s["ws"] else "")
        if rng.random() < 0.1:
            out += "<!-- %s -->" % k
    return out + "</fvm>\n</config>\n"


def prepared(env, c):
    arr = conf.prim_data(c)
    u = gen.cons(c["eq"], arr, c.get("gamma", 1.4))
    r = env.call("rhs", {"u": u}, mode="system", **gen.args(c))
    w = sum(r["ws"][d] / r["h"][d] for d in range(c["nd"]))
    if not 1e-12 < w < 1e12:
        return None
    return arr, u, w


def ev_good(env, c):
    c = dict(c)
    if c["nogamma"]:
        c.pop("gamma", None)
    if c["autocfl"]:
        c["cfl"] = 0.9 if c["recon"] == "none" else 0.475
    if c["autoint"]:
        c["integ"] = "forwardeuler" if c["recon"] == "none" else "rungekutta2"
    p = prepared(env, c)
    if p is None:
        return None
    arr, u, w = p
    end = float(c["len"] * c["cfl"] / w)
    d = env.dir()
    wr = None
    if c["saves"]:
        wr = dict(type="netcdf", basename=os.path.join(d, "o"), numberOfSaves=c["saves"],
                  writeInitialTimestep=int(c["init"]))
    cc = dict(c)
    if c["autocfl"]:
        cc["cfl"] = "auto"
    if c["autoint"]:
        cc["integ"] = "auto"
    if "diff" not in c and not c["nodiff"]:
        cc["diff"], cc["diffrecon"] = "none", "none"
    np.save(os.path.join(d, "data.npy"), arr)
    with open(os.path.join(d, "init.py"), "w") as f:
        f.write(conf.script(c, arr, os.path.join(d, "data.npy")))
    path = os.path.join(d, "config.xml")
    with open(path, "w") as f:
        f.write(text(c, d, c["style"], conf.fvm_items(cc, end=end, writer=wr, name="the name")))
    try:
        try:
            r = env.call("setup", file=path, mpi=int(c["mpi"]), all=1, maxsteps=200)
            failed = None
        except Refused as e:
            if any(q in str(e) for q in ("NaN", "constraint", "Constraint", "inf", "Wave speed")):
                failed = str(e)
            else:
                raise
        direct = "raw"
        if c["saves"]:
            direct += ";fixed,%s,%s,%d" % ((end / c["saves"]).hex(), end.hex(), int(c["init"]))
        h = dict(gen.args(c, end=end, writers=direct, maxsteps=200))
        first = u if failed else r["first"]
        s = env.call("sim", {"u": first}, **h)
        if failed or s.kv.get("failure"):
            check(bool(failed) == bool(s.kv.get("failure")), lambda: "the configured run %s, the direct run %s" % (
                "fails: " + failed if failed else "ends", s.kv.get("failure", "ends")), "failure")
            return None
        check(r.kv["name"] == "the name", lambda: "name %r" % r.kv["name"], "name")
        check(r.kv["equation"] == c["eq"] and r.kv["platform"] == "cpu", lambda: "equation %s on %s" % (
            r.kv["equation"], r.kv["platform"]), "name")
        check(float.fromhex(r.kv["end"]) == end if "x" in r.kv["end"] else float(r.kv["end"]) == end,
              lambda: "end time %s instead of %r" % (r.kv["end"], end), "end")
        check(list(r["dims"].astype(int)) == c["n"], lambda: "grid of %s instead of %s cells" % (
            r["dims"], c["n"]), "grid")
        for k in range(c["nd"]):
            x = (c["box"]["hi"][k] - c["box"]["lo"][k]) / c["n"][k]
            check(abs(r["h"][k] - x) <= 1e-12 * abs(x), lambda: "cell length %r instead of %r" % (
                r["h"][k], x), "grid")
        f = r["first"].reshape(u.shape)
        check(bool(np.all(np.abs(f - u) <= 1e-11 * (1 + np.abs(u)))), "starts from other data", "data")
        same(r["times"], s["t0"], "times")
        same(r["all"], s["s0"], "states")
    finally:
        env.drop(d)
    if len(r["times"]) < 3:
        return None
    return "honoured %s %dD%s" % (c["eq"], c["nd"], " automatic" if c["autocfl"] or c["autoint"] else "")


def same(a, b, what):
    b = b.ravel()
    check(a.shape == b.shape, lambda: "%s: %d instead of %d values" % (what, a.size, b.size), "run")
    ok = (np.abs(a - b) <= 1e-12 * (1 + np.abs(b)))
    check(bool(np.all(ok)), lambda: "%s differ from the direct run by %r" % (what, np.abs(a - b).max()), "run")


# ---------------------------------------------------------------- refused
NAMES_OF = dict(platform=["cpu", "cuda"], boundary=["periodic", "neumann"],
                equation=gen.EQS, reconstruction=list(gen.RECON), integrator=gen.INTEG + ["auto"],
                flux=sorted({f for e in gen.EQS for f in ref.fluxes(e)}),
                diffusion=["none", "tecnoroe", "tecnorusanov"],
                diffrecon=["none", "eno2", "eno3", "eno4"])
REQUIRED = ["name", "platform", "grid", "boundary", "flux", "endTime", "equation", "reconstruction", "cfl",
            "integrator", "initialData", "grid/lowerCorner", "grid/upperCorner", "grid/dimension",
            "initialData/python", "writer/type", "writer/basename", "diffusion/name",
            "diffusion/reconstruction"]


@st.composite
def word(draw, valid):
    k = draw(st.integers(0, 4))
    w = draw(st.sampled_from(valid))
    if k == 0:
        r = draw(st.text("abcdefghijklmnopqrstuvwxyz0123456789_-", min_size=1, max_size=10))
    elif k == 1:
        r = w + draw(st.sampled_from("0123456789xs_"))
    elif k == 2:
        r = w[:-1]
    elif k == 3:
        i = draw(st.integers(0, len(w) - 1))
        r = w[:i] + draw(st.sampled_from("abcxyz019")) + w[i + 1:]
    else:
        r = draw(st.sampled_from(["", "euler", "default", "weno5", "eno5", "hllc", "rungekutta5", "lax", "dirichlet",
                                  "vanleer", "gpu", "maxwell", "superbee"]))
    return r if r.strip().lower() not in valid else r + "qq"


@st.composite
def bad(draw):
    c = draw(base())
    nd = c["nd"]
    k = draw(st.sampled_from(["word", "word", "word", "pair", "missing", "missing", "number", "vector", "extra",
                              "broken", "script", "impossible"]))
    m = dict(kind=k)
    if k == "word":
        m["what"] = draw(st.sampled_from(["platform", "boundary", "flux", "equation", "reconstruction",
                                          "integrator", "diffusion", "diffrecon", "writer", "functional"]))
        m["value"] = draw(word(NAMES_OF.get(m["what"], ["hdf5", "netcdf", "python", "dll", "moment", "bv",
                                                        "identity", "legendre"])))
        if m["what"] in ("diffusion", "diffrecon"):
            if c["eq"] not in gen.DIFF:
                c = dict(c, eq="burgers", flux="rusanov", recon="none")
                c.pop("gamma", None)
                c.pop("mach", None)
            c["diff"], c["diffrecon"] = "tecnoroe", "none"
    elif k == "pair":
        q = draw(st.sampled_from(["flux", "recon", "diff"]))
        m["what"] = q
        if q == "flux":
            other = [f for f in NAMES_OF["flux"] if f not in ref.fluxes(c["eq"])]
            m["value"] = draw(st.sampled_from(other))
        elif q == "recon":
            eq = draw(st.sampled_from(gen.ref.SCALAR))
            c = dict(c, eq=eq, nd=nd, flux="central")
            for z in ("gamma", "mach", "diff", "diffrecon"):
                c.pop(z, None)
            m["value"] = "wenof2"
        else:
            eq = draw(st.sampled_from(["buckleyleverett", "cubic", "linear"]))
            c = dict(c, eq=eq, flux="central", recon="none")
            for z in ("gamma", "mach"):
                c.pop(z, None)
            c["diff"], c["diffrecon"] = draw(st.sampled_from(["tecnoroe", "tecnorusanov"])), "none"
    elif k == "missing":
        m["what"] = draw(st.sampled_from(REQUIRED + (["equationParameters/gamma"] if "gamma" in c else [])))
        if m["what"].startswith("diffusion") and "diff" not in c:
            c["diff"], c["diffrecon"] = "none", "none"
    elif k == "number":
        m["what"] = draw(st.sampled_from(["endTime", "cfl", "numberOfSaves"] + (["gamma"] if "gamma" in c
                                                                                 else [])))
        m["value"] = draw(st.sampled_from(["fast", "1.0x", "0,5", "one", "1e", "--1", "0.5 0.5", "x0.5"]))
        if m["what"] == "numberOfSaves":
            m["value"] = draw(st.sampled_from(["three", "x", "2 2"]))
    elif k == "vector":
        m["what"] = draw(st.sampled_from(["lowerCorner", "upperCorner", "dimension"]))
        m["how"] = draw(st.sampled_from(["short", "one", "long", "word"]))
        if m["what"] == "dimension":
            m["how"] = draw(st.sampled_from(["short", "one", "long", "word", "real"]))
    elif k == "extra":
        m["value"] = draw(word(["name", "platform", "boundary", "flux", "endtime", "equation", "writer", "grid",
                                "reconstruction", "cfl", "integrator", "initialdata", "diffusion",
                                "functionals", "equationparameters"]).filter(
                                    lambda w: w and w[0].isalpha() and w.replace("_", "a").isalnum()))
    elif k == "broken":
        m["what"] = draw(st.sampled_from(["unclosed", "empty", "root", "nofvm", "nofile", "cut"]))
        m["at"] = draw(st.floats(0.05, 0.9))
    elif k == "script":
        m["what"] = draw(st.sampled_from(["nofile", "syntax", "raises", "text", "noglobal"]))
    else:
        m["what"] = draw(st.sampled_from(["cfl", "cells", "corners"]))
        m["value"] = draw(st.sampled_from([0, -1, -3]))
        m["d"] = draw(st.integers(0, nd - 1))
    return dict(c=c, m=m, mpi=draw(st.booleans()), fun=draw(st.booleans()), style=draw(styles()))


def broken_config(env, q):
    """Writes the changed configuration; returns (path, directory)."""
    c, m = dict(q["c"]), q["m"]
    d = env.dir()
    arr = conf.prim_data(c)
    np.save(os.path.join(d, "data.npy"), arr)
    script = conf.script(c, arr, os.path.join(d, "data.npy"))
    funs = []
    if q["fun"] or m.get("what") == "functional":
        funs = [dict(name="moment", numberOfSaves=1, degree=1,
                     writer=dict(type="netcdf", basename=os.path.join(d, "f")))]
    wr = dict(type="netcdf", basename=os.path.join(d, "o"), numberOfSaves=2, writeInitialTimestep=1)
    k = m["kind"]
    key = dict(boundary="bc", flux="flux", equation="eq", reconstruction="recon", integrator="integ",
               diffusion="diff", diffrecon="diffrecon", recon="recon")
    end = 0.01
    if k in ("word", "pair") and "value" in m:
        if m["what"] == "writer":
            wr["type"] = m["value"]
        elif m["what"] == "functional":
            funs[0]["name"] = m["value"]
        elif m["what"] != "platform":
            c[key[m["what"]]] = m["value"]
    s = q["style"]
    plainitems = conf.fvm_items(dict(q["c"]), end=end, writer=wr, functionals=funs)
    items = plainitems
    if k in ("word", "pair") and "value" in m:
        cc = dict(q["c"])
        if m["what"] in key:
            cc[key[m["what"]]] = m["value"]
        items = conf.fvm_items(cc, end=end, writer=wr, functionals=funs)
        if m["what"] == "platform":
            items = [(a, m["value"] if a == "platform" else b) for a, b in items]
    if k == "missing":
        w = m["what"].split("/")
        if len(w) == 1:
            items = [(a, b) for a, b in items if a != w[0]]
        else:
            import re
            items = [(a, re.sub("<%s>.*?</%s>\n" % (w[1], w[1]), "", b, flags=re.S) if a == w[0] else b)
                     for a, b in items]
    if k == "number":
        out = []
        for a, b in items:
            if a == m["what"]:
                b = m["value"]
            elif m["what"] == "gamma" and a == "equationParameters":
                b = conf.tag("gamma", m["value"])
            elif m["what"] == "numberOfSaves" and a == "writer":
                b = b.replace("<numberOfSaves>2<", "<numberOfSaves>%s<" % m["value"])
            out.append((a, b))
        items = out
        s = dict(s, num=0, load=None)
    n, b = list(q["c"]["n"]), q["c"]["box"]
    lo, hi = list(b["lo"]), list(b["hi"])
    if k == "impossible":
        if m["what"] == "cfl":
            items = [(a, str(m["value"]) if a == "cfl" else v) for a, v in items]
            s = dict(s, num=0)
        elif m["what"] == "cells":
            n[m["d"]] = m["value"]
        elif m["what"] == "corners":
            if m["value"]:
                lo[m["d"]], hi[m["d"]] = hi[m["d"]], lo[m["d"]]
            else:
                hi[m["d"]] = lo[m["d"]]
        else:
            items = [(a, v.replace("<numberOfSaves>2<", "<numberOfSaves>%d<" % m["value"])) for a, v in items]
    if k in ("vector", "impossible"):
        v = dict(lowerCorner=[repr(x) for x in lo], upperCorner=[repr(x) for x in hi],
                 dimension=[str(x) for x in n])
        if k == "vector":
            x = v[m["what"]]
            v[m["what"]] = dict(short=x[:2], one=x[:1], long=x + ["1"], word=x[:2] + ["a"],
                                real=["4.5"] + x[1:])[m["how"]]
        items = [(a, "".join(conf.tag(z, " ".join(y)) for z, y in v.items()) if a == "grid" else w)
                 for a, w in items]
    if k == "extra":
        items.append((m["value"], "1"))
    if k == "script":
        if m["what"] == "syntax":
            script += "this is not python\n"
        elif m["what"] == "raises":
            script += "raise ValueError('no')\n"
        elif m["what"] == "text":
            script += "%s = 'abc'\n" % conf.PRIM[c["eq"]][0]
        elif m["what"] == "noglobal":
            script = "# init_global\n" + "x = 1\n"
    path = os.path.join(d, "config.xml")
    if k == "number":
        t = text_raw(c, d, s, items)
    else:
        t = text(c, d, s, items)
    if k == "broken":
        w = m["what"]
        if w == "unclosed":
            t = t.replace("</equation>", "")
        elif w == "empty":
            t = ""
        elif w == "root":
            t = t.replace("config>", "configuration>")
        elif w == "nofvm":
            t = t.replace("fvm>", "fvn>")
        elif w == "cut":
            t = t[:int(len(t) * m["at"])]
    if not (k == "broken" and m["what"] == "nofile"):
        with open(path, "w") as f:
            f.write(t)
    if not (k == "script" and m["what"] == "nofile"):
        with open(os.path.join(d, "init.py"), "w") as f:
            f.write(script)
    return path, d


def text_raw(c, d, s, items):
    out = "<config><fvm>\n"
    items = list(items)
    random.Random(s["order"]).shuffle(items)
    for k, v in items:
        out += "<%s>%s</%s>\n" % (k, v, k)
    return out + "</fvm></config>\n"


def outputs(d):
    return [os.path.basename(p) for p in conf.glob.glob(os.path.join(d, "*.nc"))]


def describe(m):
    return " ".join(str(m[k]) for k in ("kind", "what", "how", "value") if k in m)


def ev_bad(env, q):
    path, d = broken_config(env, q)
    m = q["m"]
    try:
        try:
            env.call("setup", file=path, mpi=int(q["mpi"]), maxsteps=50)
            refused = False
        except Refused:
            refused = True
        check(refused, lambda: "a configuration with a wrong setting (%s) is run" % describe(m), m["kind"])
        check(not outputs(d), lambda: "a refused configuration (%s) leaves %s" % (describe(m), outputs(d)),
              "output")
    finally:
        env.drop(d)
    return "refused %s %s" % (m["kind"], m.get("what", ""))


def ev_cli(env, q):
    path, d = broken_config(env, q)
    m = q["m"]
    try:
        rc, o = env.run(["alsvinncli/alsvinncli", "config.xml"], cwd=d, timeout=30)
        check(rc != "timeout", lambda: "a configuration with a wrong setting (%s) runs on and on" % describe(m),
              m["kind"])
        check(rc != 0, lambda: "the program ends with status 0 on a wrong setting (%s)" % describe(m), m["kind"])
        check(rc not in (-11, 139, -7, 135), lambda: "the program crashes (%s) on a wrong setting (%s)" % (
            rc, describe(m)), "crash")
        check(not outputs(d), lambda: "a refused configuration (%s) leaves %s" % (describe(m), outputs(d)),
              "output")
    finally:
        env.drop(d)
    return "program %s %s" % (m["kind"], m.get("what", ""))


SUBS = [
    Sub("honoured", good(), ev_good, 4),
    Sub("refused", bad(), ev_bad, 3),
    Sub("program", bad(), ev_cli, 1, batch=20),
]
