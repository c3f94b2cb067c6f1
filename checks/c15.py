from vh.fw import *
from vh import gen, ref, conf
import math

ID = "C15"
TARGETS = ["alsh"]
RULE = ("A case is an equation, a grid and an initial data script drawn from a grammar (expressions of the "
        "position, cell indices, scalar and array parameters and the adiabatic constant, conditionals, loops, "
        "helper functions, comments, variables left out) or an init_global function that fills arrays. The "
        "state that a simulation starts from has to be the conserved state of the script's value in every "
        "midpoint, evaluated separately in Python; also for several scripts one after the other in one process "
        "and when the domain is divided over 2 or 4 processes. Parameters whose number of values differs from "
        "their length are refused. Non-trivial: the value depends on the position or on a parameter.")

AX = "xyz"


@st.composite
def num_(draw):
    return draw(st.sampled_from([0.5, 1.0, 2.0, 0.125, 3.0, 0.7, 1.25, 0.3]))


@st.composite
def expr(draw, c, depth=2):
    """A bounded positive or negative expression of moderate size (text)."""
    nd = c["nd"]
    leaf = ["num", "pos", "pos", "pos", "param"]
    if c["idx"]:
        leaf.append("idx")
    kinds = leaf if depth == 0 else leaf + ["add", "mul", "sin", "exp", "pow", "cond", "div", "sqrt", "arr"]
    k = draw(st.sampled_from(kinds))
    if k == "num":
        return repr(draw(num_()))
    if k == "pos":
        return AX[draw(st.integers(0, nd - 1))]
    if k == "idx":
        return "ijk"[draw(st.integers(0, nd - 1))]
    if k == "param":
        s = [p for p in c["params"] if not isinstance(c["params"][p], list)]
        if c.get("gamma") is not None:
            s.append("gamma")
        return draw(st.sampled_from(s)) if s else "1.5"
    if k == "arr":
        a = [p for p in c["params"] if isinstance(c["params"][p], list)]
        if not a:
            return "0.25"
        p = draw(st.sampled_from(a))
        n = len(c["params"][p])
        q = draw(st.integers(0, 2))
        if q == 0:
            return "%s[%d]" % (p, draw(st.integers(0, n - 1)))
        if q == 1:
            return "(sum([%s[q]*cos(q+%s) for q in range(len(%s))])/len(%s))" % (
                p, draw(expr(c, depth - 1)), p, p)
        return "%s[-1]" % p
    a = draw(expr(c, depth - 1))
    if k == "sin":
        return draw(st.sampled_from(["sin", "cos", "tanh", "arctan"])) + "(%s)" % a
    if k == "exp":
        return "exp(-(%s)**2)" % a
    if k == "pow":
        return "(%s)**2" % a
    if k == "sqrt":
        return "sqrt(1.0 + abs(%s))" % a
    b = draw(expr(c, depth - 1))
    if k == "add":
        return "(%s %s %s)" % (a, draw(st.sampled_from("+-")), b)
    if k == "mul":
        return "(%s * %s)" % (a, b)
    if k == "div":
        return "(%s / (1.5 + (%s)**2))" % (a, b)
    # thresholds between midpoints
    d = draw(st.integers(0, nd - 1))
    return "(%s if %s < %r else %s)" % (a, AX[d], threshold(draw, c, d), b)


def threshold(draw, c, d):
    n, b = c["n"], c["box"]
    return b["lo"][d] + (b["hi"][d] - b["lo"][d]) * draw(st.integers(0, n[d])) / n[d]


@st.composite
def cases(draw, np_=1):
    c = {}
    c["eq"] = draw(st.sampled_from(gen.EQS))
    nd = c["nd"] = draw(st.sampled_from(gen.eq_dims(c["eq"])))
    if np_ > 1:
        p = c["p"] = draw(st.sampled_from([q for q in ([[np_, 1, 1], [1, np_, 1], [1, 1, np_]] +
                                           ([[2, 2, 1], [2, 1, 2], [1, 2, 2]] if np_ == 4 else []))
                                           if (q[1] == 1 or nd > 1) and (q[2] == 1 or nd > 2)]))
        c["n"] = [(draw(st.integers(2 if nd > 1 else 3, {1: 8, 2: 4, 3: 3}[nd])) * p[d]) if d < nd else 1
                  for d in range(3)]
    else:
        c["n"] = draw(gen.shape(nd, lo=1 if nd == 1 else 2))
    c["box"] = draw(gen.box(nd))
    c["recon"] = draw(st.sampled_from(["none", "none", "eno2", "weno3", "mc"]))
    g = gen.RECON[c["recon"]]
    if any(c["n"][d] // (c["p"][d] if np_ > 1 else 1) < g for d in range(nd)):
        c["recon"] = "none"
    c["bc"] = draw(st.sampled_from(["periodic", "neumann"]))
    if c["eq"].startswith("euler"):
        c["gamma"] = draw(st.sampled_from([1.4, 1.2, 5 / 3.]))
    c["idx"] = draw(st.integers(0, 3)) == 0
    names = draw(st.lists(st.sampled_from(["a", "amp", "b1", "theta", "vals", "X0", "e", "tau", "mean"]), max_size=3, unique=True))
    c["params"] = {}
    for q in names:
        if draw(st.booleans()):
            c["params"][q] = draw(st.sampled_from([0.25, -1.5, 2.0, 1e-3, 0.1]))
        else:
            n = draw(st.integers(2, 6))
            c["params"][q] = [draw(st.sampled_from([0.5, -0.25, 1.0, 2.5, 0.1])) for _ in range(n)]
    c["style"] = draw(st.sampled_from(["point", "point", "point", "global"])) if np_ == 1 else \
        draw(st.sampled_from(["point", "point", "global"]))
    c["lines"], c["def"] = [], []
    variables = conf.PRIM[c["eq"]]
    pos = {"rho", "p"}

    def value(v):
        e = draw(expr(c, 2))
        return "1.5 + tanh(%s)" % e if v in pos else "2*tanh(%s)" % e
    if c["style"] == "global":
        c["idx"] = False
        for v in variables:
            c["lines"].append([v, value(v)])
        c["vec"] = draw(st.booleans())
        return c
    # statements: list of [kind, ...]
    L = c["lines"]
    left = None if c["eq"].startswith("euler") and draw(st.integers(0, 2)) else draw(
        st.sampled_from([v for v in variables if v not in pos] + [None]))
    if draw(st.integers(0, 3)) == 0:
        L.append(["# a comment"])
        L.append([""])
    tmp = False
    if draw(st.integers(0, 2)) == 0:
        L.append(["tmp = %s" % draw(expr(c, 1))])
        tmp = True
    if draw(st.integers(0, 3)) == 0:
        L.append(["def helper(s):", "    # local", "    return s*s + %s" % draw(expr(c, 0))])
        L.append(["tmp = helper(%s)" % draw(expr(c, 1))])
        tmp = True
    if draw(st.integers(0, 4)) == 0:
        L.append(["tmp2 = 0.0", "for q in range(%d):" % draw(st.integers(0, 4)),
                  "    tmp2 += %s/(1.0+q)" % draw(expr(c, 1))])
        tmp = "tmp2"
    for v in draw(st.permutations(variables)):
        if v == left:
            continue
        e = value(v)
        if tmp and draw(st.booleans()):
            e = e[:-1] + " + %s)" % ("tmp" if tmp is True else tmp)
        if draw(st.integers(0, 2)) == 0:
            d = draw(st.integers(0, nd - 1))
            L.append(["if %s %s %r:" % (AX[d], draw(st.sampled_from(["<", ">"])), threshold(draw, c, d)),
                      "    %s = %s" % (v, e), "else:", "    %s = %s" % (v, value(v))])
        else:
            L.append(["%s = %s" % (v, e)])
    return c


def script(c):
    v = conf.PRIM[c["eq"]]
    if c["style"] == "point":
        return "\n".join(s for block in c["lines"] for s in block) + "\n"
    body = ["def init_global(%s, nx, ny, nz, ax, ay, az, bx, by, bz):" % ", ".join(q + "_out" for q in v)]
    if c["vec"]:
        body += ["    for i in range(nx):", "        for j in range(ny):", "            for k in range(nz):",
                 "                x = ax + (i+0.5)*(bx-ax)/nx", "                y = ay + (j+0.5)*(by-ay)/ny",
                 "                z = az + (k+0.5)*(bz-az)/nz"]
        body += ["                %s_out[i,j,k] = %s" % (q, e) for q, e in c["lines"]]
    else:
        body += ["    for i in range(nx):", "        x = ax + (i+0.5)*(bx-ax)/nx"]
        body += ["        for j in range(ny):", "            y = ay + (j+0.5)*(by-ay)/ny"]
        body += ["            for k in range(nz):", "                z = az + (k+0.5)*(bz-az)/nz"]
        body += ["                %s_out[i][j][k] = %s" % (q, e) for q, e in c["lines"]]
    return "\n".join(body) + "\n"


def reference(c):
    """Primitive values [var,z,y,x] of the script."""
    v = conf.PRIM[c["eq"]]
    ns = {}
    exec("from math import *\nfrom numpy import *\n", ns)
    for q, x in c["params"].items():
        ns[q] = np.array(x) if isinstance(x, list) else x
    if c.get("gamma") is not None:
        ns["gamma"] = c["gamma"]
    n, b = c["n"], c["box"]
    if c["style"] == "point":
        src = "def f(x, y, z, i, j, k):\n" + "".join("    %s = 0.0\n" % q for q in v)
        src += "".join("    " + s + "\n" for block in c["lines"] for s in block)
    else:
        src = "def f(x, y, z, i, j, k):\n" + "".join("    %s = %s\n" % (q, e) for q, e in c["lines"])
    exec(src + "    return [%s]\n" % ", ".join(v), ns)
    h = [(b["hi"][d] - b["lo"][d]) / n[d] for d in range(3)]
    out = np.zeros([len(v)] + n[::-1])
    for k in range(n[2]):
        for j in range(n[1]):
            for i in range(n[0]):
                out[:, k, j, i] = ns["f"](*[b["lo"][d] + h[d] * q + 0.5 * h[d]
                                            for d, q in enumerate((i, j, k))], i, j, k)
    return out


def xml(env, c, **o):
    d = env.dir()
    cc = dict(c, flux="central" if not c["eq"].startswith("euler") else "hll", cfl=0.4, integ="auto")
    for q in ("lines", "def", "vec", "idx"):
        cc.pop(q, None)
    return conf.write(d, cc, None, script=script(c), params=o.pop("params", c["params"]), end=1.0, **o)


def expected(c):
    p = reference(c)
    return gen.cons(c["eq"], p, c.get("gamma", 1.4))


def compare(c, got, want, what):
    got = got.reshape(want.shape)
    s = 1e-9 * (1 + np.abs(want))
    ok = np.abs(got - want) <= s
    check(bool(np.all(ok)), lambda: "%s: the state starts from %r instead of %r in (variable, z, y, x) = %s"
          % (what, got[tuple(np.argwhere(~ok)[0])], want[tuple(np.argwhere(~ok)[0])], np.argwhere(~ok)[0]),
          "value")


def label(c, want, kind=None):
    if np.ptp(want.reshape(len(want), -1), axis=1).max() <= 1e-9:
        return None
    return kind or "%s %dD %s%s" % (c["eq"], c["nd"], c["style"], " parameters" if c["params"] else "")


def ev_one(env, c):
    want = expected(c)
    if not np.all(np.isfinite(want)):
        return None
    r = env.call("setup", file=xml(env, c), mpi=0, maxsteps=0, threads=1)
    check(list(r["dims"].astype(int)) == c["n"], lambda: "grid %s" % r["dims"], "grid")
    compare(c, r["first"], want, "script")
    return label(c, want)


@st.composite
def histories(draw):
    a = draw(cases())
    b = draw(cases())
    # the same names with other values and lengths
    for q in list(b["params"]):
        if q in a["params"] and not isinstance(a["params"][q], list) and not isinstance(b["params"][q], list):
            b["params"][q] = a["params"][q] + 0.5
    return dict(cs=[a, b], order=draw(st.lists(st.integers(0, 2), min_size=3, max_size=6)),
                extra=draw(st.sampled_from([0.5, -0.75, 2.0])))


def ev_history(env, c):
    a, b = c["cs"]
    third = dict(a, params={k: ([q + c["extra"] for q in v] + [1.0] if isinstance(v, list) else v + c["extra"])
                            for k, v in a["params"].items()})
    cs = [a, b, third]
    want = [expected(x) for x in cs]
    if not all(np.all(np.isfinite(w)) for w in want):
        return None
    for n, k in enumerate(c["order"]):
        r = env.call("setup", file=xml(env, cs[k]), mpi=0, maxsteps=0, threads=1)
        compare(cs[k], r["first"], want[k], "script %d as number %d in this process" % (k, n))
    return label(a, want[0], "history") if len(set(c["order"])) > 1 else None


def ev_mpi(np_):
    def f(env, c):
        want = expected(c)
        if not np.all(np.isfinite(want)):
            return None
        s = env.srv(np_)
        p = c["p"]
        r = s.call("setup", file=xml(env, c), px=p[0], py=p[1], pz=p[2], maxsteps=0)
        got = np.full(want.shape, np.nan)
        for q in range(np_):
            d = r["dims.%d" % q].astype(int)
            g = r["gpos.%d" % q].astype(int)
            got[:, g[2]:g[2] + d[2], g[1]:g[1] + d[1], g[0]:g[0] + d[0]] = \
                r["first.%d" % q].reshape([len(want)] + list(d[::-1]))
        compare(c, got, want, "%d processes as %s" % (np_, p))
        return label(c, want)
    return f


@st.composite
def wrong(draw):
    c = draw(cases())
    n = draw(st.integers(2, 8))
    m = draw(st.integers(2, 8))
    return dict(c=c, n=n, m=m)


def ev_wrong(env, c):
    """An array of length n with m values, or with one value that is repeated."""
    cc, n, m = c["c"], c["n"], c["m"]
    cc = dict(cc, params=dict(cc["params"], arr_=[0.5] * m), style="point",
              lines=cc["lines"] if cc["style"] == "point" else [["u = 0.5"]], eq=cc["eq"])
    if cc["eq"].startswith("euler"):
        cc["lines"] = [["rho = arr_[%d]" % (n - 1)], ["p = 1.0 + len(arr_)"]]
    else:
        cc["lines"] = [["u = arr_[%d] + len(arr_)" % (n - 1)]]
    f = xml(env, cc)
    text = open(f).read()
    text = text.replace("<name>arr_</name>\n<length>%d</length>" % m, "<name>arr_</name>\n<length>%d</length>" % n)
    one = text
    import re
    one = re.sub(r"(<name>arr_</name>\n<length>\d+</length>\n<values>)(<value>[^<]*</value>\n)+", r"\1\2", text)
    with open(f, "w") as g:
        g.write(text)
    try:
        env.call("setup", file=f, mpi=0, maxsteps=0, threads=1)
        refused = None
    except Refused as e:
        refused = str(e)
    if n == m:
        check(refused is None, lambda: "parameter of the right length is refused: %s" % refused, "refused")
    else:
        check(refused is not None, lambda: "parameter of length %d with %d values is accepted" % (n, m),
              "length")
        check("arr_" in refused, lambda: "the message does not name the parameter: " + refused, "message")
    d = env.dir()
    f2 = os.path.join(d, "config.xml")
    with open(f2, "w") as g:
        g.write(one)
    with open(os.path.join(d, "init.py"), "w") as g:
        g.write(script(cc))
    r = env.call("setup", file=f2, mpi=0, maxsteps=0, threads=1)
    cc = dict(cc, params=dict(cc["params"], arr_=[0.5] * n))
    compare(cc, r["first"], expected(cc), "one value repeated %d times" % n)
    return "length"


SUBS = [
    Sub("script", cases(), ev_one, 3),
    Sub("history", histories(), ev_history, 2),
    Sub("length", wrong(), ev_wrong, 1),
    Sub("mpi2", cases(np_=2), ev_mpi(2), 1),
    Sub("mpi4", cases(np_=4), ev_mpi(4), 1),
]
