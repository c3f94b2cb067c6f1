from vh.fw import *
from vh import gen, ref, conf, funref

ID = "C18"
TARGETS = ["alsh"]
RULE = ("direct: a case is a functional with parameters, an equation, a grid of 1 to 3 dimensions with "
        "any box and boundary types, one to three random states with weights and poisoned ghost cells; "
        "the accumulated output is compared with the defining sum of an independent model; combinations "
        "the functional cannot serve have to be refused. run: a configuration with several functionals "
        "and an output of the state at the same instants; every functional file has to hold the "
        "functional of the state file. Non-trivial: the reference value is not zero everywhere.")
FUN = ["identity", "moment", "bv", "legendre", "legendre_pointwise", "log_entropy",
       "structure_base", "structure_cube"]


@st.composite
def functional(draw, eq, nd, name=None, wide=False):
    name = name or draw(st.sampled_from([f for f in FUN if eq.startswith("euler") or
                                         f != "log_entropy"]))
    f = dict(name=name)
    if name == "moment":
        f["degree"] = draw(st.integers(0, 4))
    if name == "bv":
        f["degree"] = draw(st.integers(1, 3))
    if name.startswith("legendre"):
        f["minValue"] = draw(st.sampled_from([-1.0, 0.0, -2.5, 0.5]))
        f["maxValue"] = f["minValue"] + draw(st.sampled_from([1.0, 2.5, 6.0, 60.0, 60.0]))
        if wide:
            f["maxValue"] = f["minValue"] + 1e3
        for k in (["degree"] if name != "legendre" else ["degree_k", "degree_n", "degree_m"]):
            f[k] = draw(st.integers(0, 5))
        if draw(st.booleans()):
            f["variables"] = " ".join(draw(st.lists(st.sampled_from(conf.NAMES[eq]), min_size=1,
                                                    max_size=3, unique=True)))
            if draw(st.integers(0, 9)) == 0:
                f["variables"] += " " + draw(st.sampled_from(["nope", "p", "vx"]))
    if name == "log_entropy":
        f["gamma"] = draw(gen.GAMMA)
    if name.startswith("structure"):
        f["p"] = draw(st.sampled_from([1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 0.5, 1.5, 2.5]))
        f["numberOfH"] = draw(st.integers(1, 6))
        if name == "structure_base":
            f["direction"] = draw(st.integers(0, nd - 1))
    return f


@st.composite
def direct(draw):
    eq = draw(st.sampled_from(gen.EQS))
    nd = draw(st.sampled_from([1, 2, 2, 3]))
    c = dict(eq=eq, nd=nd, n=draw(gen.shape(nd, hi={1: 15, 2: 8, 3: 5}[nd])), box=draw(gen.box(nd)),
             ng=draw(st.integers(0, 3)), bc=draw(st.sampled_from(["periodic", "periodic", "neumann",
                                                                  "ppnnnn", "nnpppp", "nnnnpp"])),
             f=draw(gen.field()), w=draw(st.lists(st.sampled_from([1.0, 0.25, -2.0, 0.0, 1e-3]),
                                                  min_size=1, max_size=3)),
             start=draw(st.sampled_from([0.0, 0.0, 3.5])))
    if eq.startswith("euler"):
        c["gamma"] = draw(gen.GAMMA)
    c["fun"] = draw(functional(eq, nd))
    return c


def close(o, e, scale, what):
    o, e = np.asarray(o, float), np.asarray(e, float)
    check(o.shape == e.shape, lambda: "%s: shape %s instead of %s" % (what, o.shape, e.shape), "shape")
    ok = (np.abs(o - e) <= 1e-10 * np.maximum(scale, np.abs(e))) | (o == e)
    check(bool(np.all(ok)), lambda: "%s: %r instead of %r at %s" % (
        what, o[~ok][0], e[~ok][0], list(np.argwhere(~ok)[0])), "value")


def label(bc, nd):
    """The boundary type shared by the active sides, or mixed."""
    if bc in ("periodic", "neumann"):
        return bc
    s = set(bc[:2 * nd])
    return "mixed" if len(s) > 1 else "periodic" if s == {"p"} else "neumann"


def size_of(f, u):
    """Magnitude of the terms that are summed."""
    m = max(1.0, float(np.abs(u).max()))
    k = f["name"]
    if k == "moment":
        return m ** f["degree"]
    if k == "bv":
        return m ** f["degree"]
    if k.startswith("structure"):
        return m ** f["p"]
    if k.startswith("legendre"):
        d = f["degree"] if "degree" in f else f["degree_m"]
        return (1 + 3 * (m + 3) / (f["maxValue"] - f["minValue"])) ** d
    return m


def ev_direct(env, c):
    eq, n, f = c["eq"], c["n"], c["fun"]
    shp = tuple(n[::-1])
    us = []
    for k in range(len(c["w"])):
        fld = dict(c["f"], s=c["f"]["s"] + k)
        us.append(gen.data(dict(c, f=fld)))
    names = conf.NAMES[eq]
    kw = gen.grid_args(c)
    kw.update({"p_" + k: (repr(v) if isinstance(v, float) else v) for k, v in f.items()
               if k != "name"})
    if "gamma" in c:
        kw["gamma"] = c["gamma"]
    lo, hi = c["box"]["lo"], c["box"]["hi"]
    bc = label(c["bc"], c["nd"])
    exp = [funref.apply(f, u, names, n, lo, hi, bc) for u in us]
    try:
        r = env.call("functional", {"u": np.array(us), "w": c["w"]}, eq=eq, bc=c["bc"], ng=c["ng"],
                     name=f["name"], ghost=-77.5, start=c["start"], **kw)
    except Refused as e:
        check(any(e is None or isinstance(e, str) for e in exp), "refused although the functional is defined: %s" % e, "refused")
        return "refused %s" % f["name"]
    if any(isinstance(e, str) for e in exp):
        return None
    if any(e is None for e in exp):
        check(False, "accepted although the functional is not defined here", "accepted")
    if f["name"] == "structure_base" and bc != "periodic":
        return None  # the sum is only defined for periodic domains
    total = c["start"] + sum(w * e for w, e in zip(c["w"], exp))
    check("changed" not in r.kv, "the functional changed the state", "changed")
    size = r["size"].astype(int)
    check(list(size) == list(total.shape[:0:-1]), lambda: "size %s instead of %s" % (
        list(size), total.shape[:0:-1]), "size")
    sc = max(size_of(f, u) for u in us) * max(abs(w) for w in c["w"]) + abs(c["start"])
    if f["name"] == "log_entropy":
        # the pressure is a difference of larger numbers
        sc *= 1e3 * max(1, sum(np.abs(e).max() for e in exp))
    sc *= max(1.0, (np.prod(n) if f["name"] in ("bv",) else 1.0))
    if f["name"] == "structure_cube":
        sc *= (2 * f["numberOfH"] + 1) ** c["nd"]
    if f["name"] in ("legendre",):
        sc *= np.prod([hi[d] - lo[d] if n[d] > 1 or d == 0 else 1 for d in range(3)])
    close(r["out"].reshape(total.shape), total, sc, f["name"])
    return "%s %dd" % (f["name"], c["nd"]) if any(np.any(e != 0) for e in exp) else None


@st.composite
def runs(draw):
    c = draw(gen.scheme(dims=draw(st.sampled_from([[1], [2], [2], [3]]))))
    nd = c["nd"]
    ng = gen.min_cells(c)
    c["n"] = draw(gen.shape(nd, lo=max(ng, 2), hi={1: 14, 2: 7, 3: 5}[nd]))
    c["bc"] = draw(st.sampled_from(["periodic", "neumann"]))
    c["box"] = draw(gen.box(nd))
    c["f"] = draw(gen.field(kinds=["sine", "step", "rand"]))
    c["f"]["a"] = min(c["f"]["a"], 0.5)
    if c["eq"].startswith("euler"):
        c["mach"] = draw(st.sampled_from([0.3, 1.0]))
    c["cfl"] = draw(st.sampled_from([0.45, 0.2]))
    c["len"] = draw(st.sampled_from([0.3, 1.5, 3.0]))
    c["saves"] = draw(st.integers(1, 3))
    funs = []
    for _ in range(draw(st.integers(1, 3))):
        f = draw(functional(c["eq"], nd, wide=True))
        if f["name"] == "log_entropy":
            f["gamma"] = c["gamma"]
        if "variables" in f:
            f["variables"] = " ".join(v for v in f["variables"].split() if v in conf.NAMES[c["eq"]])
        if f["name"] == "structure_base" and c["bc"] != "periodic":
            continue
        if (f["name"] == "bv" and nd == 3) or (f["name"].startswith("legendre") and nd != 2):
            continue
        funs.append(f)
    c["funs"] = funs
    return c


def ev_run(env, c):
    if not c["funs"]:
        return None
    u = gen.data(c)
    r = env.call("rhs", {"u": u}, mode="system", **gen.args(c))
    w = sum(r["ws"][d] / r["h"][d] for d in range(c["nd"]))
    if not 1e-12 < w < 1e12:
        return None
    end = float(c["len"] * c["cfl"] / w)
    d = env.dir()
    try:
        fl = []
        for k, f in enumerate(c["funs"]):
            fl.append(dict(f, numberOfSaves=c["saves"],
                           writer=dict(type="netcdf", basename=os.path.join(d, "f%d" % k))))
        conf.write(d, c, conf.prim_data(c), end=end, functionals=fl,
                   writer=dict(type="netcdf", basename=os.path.join(d, "o"),
                               numberOfSaves=c["saves"], writeInitialTimestep=1))
        try:
            env.call("setup", file=d + "/config.xml", maxsteps=400)
        except Refused:
            # states that are not admissible: other properties; all functionals here are defined
            d2 = env.dir()
            conf.write(d2, c, conf.prim_data(c), end=end,
                       writer=dict(type="netcdf", basename=os.path.join(d2, "o"), numberOfSaves=1))
            try:
                env.call("setup", file=d2 + "/config.xml", maxsteps=400)
            except Refused:
                return None
            finally:
                env.drop(d2)
            check(False, "the run is refused only with the functionals", "refused")
        states = conf.numbered(d, "o")
        names = conf.NAMES[c["eq"]]
        got = 0
        for k, f in enumerate(c["funs"]):
            files = conf.numbered(d, "f%d" % k)
            check(sorted(files) == sorted(states), lambda: "%s: files %s instead of %s" % (
                f["name"], sorted(files), sorted(states)), "files")
            for i in states:
                s, at = conf.read_nc_zyx(states[i])
                g, ag = conf.read_nc_zyx(files[i])
                us = np.array([s[v] for v in names])
                e = funref.apply(f, us, names, c["n"], c["box"]["lo"], c["box"]["hi"], c["bc"])
                sc = size_of(f, us) * 1e3 * (1 + np.abs(e).max())
                if f["name"] == "structure_cube":
                    sc *= (2 * f["numberOfH"] + 1) ** c["nd"]
                if f["name"].startswith("legendre"):
                    sc *= 100
                close(np.array([g[v] for v in names]), e, min(sc, 1e8), "%s in file %d" % (
                    f["name"], i))
                got += bool(np.any(e != 0))
    finally:
        env.drop(d)
    return "%s" % c["funs"][0]["name"] if got else None


SUBS = [Sub("direct", direct(), ev_direct, 2), Sub("run", runs(), ev_run, 1, batch=25)]
TIME = dict(quick=35, thorough=400)
