"""Ensembles: generated configurations, the random parameters they should use and the statistics
they should write, from runs of the individual samples."""
import os
import numpy as np
from hypothesis import strategies as st
from . import gen, conf, funref, ref

M64 = (1 << 64) - 1


class MT64:
    """The standard 64-bit Mersenne twister with its default seed."""

    def __init__(self, seed=5489):
        mt = [seed]
        for i in range(1, 312):
            mt.append((6364136223846793005 * (mt[-1] ^ (mt[-1] >> 62)) + i) & M64)
        self.mt, self.i, self.out = mt, 312, []

    def draw(self):
        if self.i == 312:
            mt = self.mt
            for k in range(312):
                x = (mt[k] & 0xFFFFFFFF80000000) | (mt[(k + 1) % 312] & 0x7FFFFFFF)
                mt[k] = mt[(k + 156) % 312] ^ (x >> 1) ^ (0xB5026F5AA96619E9 if x & 1 else 0)
            self.i = 0
        y = self.mt[self.i]
        self.i += 1
        y ^= (y >> 29) & 0x5555555555555555
        y ^= (y << 17) & 0x71D67FFFEDA60000
        y ^= (y << 37) & 0xFFF7EEE000000000
        return (y ^ (y >> 43)) & M64

    def uniform(self, k):
        while len(self.out) <= k:
            self.out.append(min(float(self.draw()) / 2.0 ** 64, np.nextafter(1.0, 0.0)))
        return self.out[k]


STREAM = MT64()


def bounds(p):
    k = ("a", "b") if p["type"] == "uniform1d" else ("lower", "upper")
    return p.get(k[0], 0.0), p.get(k[1], 1.0)


def values(params, name, sample, n):
    """Components of a random parameter in a sample of a configuration with n samples."""
    total = sum(p["length"] for p in params)
    off = 0
    for p in sorted(params, key=lambda p: p["name"]):
        if p["name"] == name:
            if p["type"] == "dll":
                f = float(p.get("scale", 1)) if p["make_parameters_function"].lower() != "none" else 1.0
                return [f * (sample * 16.0 + k + n / 1024.0 + p["length"] / 65536.0)
                        for k in range(p["length"])]
            lo, hi = bounds(p)
            if p["type"] == "uniform1d":
                return [lo + (hi - lo) / n * (sample + 0.5)]
            return [STREAM.uniform(sample * total + off + k) * (hi - lo) + lo
                    for k in range(p["length"])]
        off += p["length"]
    raise KeyError(name)


@st.composite
def parameters(draw, most=3, mids=True):
    out = []
    for name in draw(st.lists(st.sampled_from(["X", "a", "b1", "theta", "Y0", "zeta"]), min_size=1,
                              max_size=most, unique=True)):
        p = dict(name=name, length=draw(st.sampled_from([1, 1, 1, 2, 3, 7])), type="uniform")
        if mids and draw(st.integers(0, 3)) == 0:
            p["type"], p["length"] = "uniform1d", 1
        if draw(st.integers(0, 2)):
            lo = draw(st.sampled_from([0.0, -1.0, -0.25, 2.0]))
            hi = lo + draw(st.sampled_from([1.0, 0.5, 3.0]))
            a, b = ("a", "b") if p["type"] == "uniform1d" else ("lower", "upper")
            p[a], p[b] = lo, hi
        out.append(p)
    return out


STATS = ["meanvar", "onepointmoment", "bv", "bv_direction", "structure_basic", "structure_cube",
         "structure_2pt", "functional", "functional_time_integrated"]


@st.composite
def stat(draw, c, names=None):
    nd = c["nd"]
    ok = [s for s in (names or STATS) if not (nd == 3 and s == "bv")]
    s = dict(name=draw(st.sampled_from(ok or ["meanvar"])))
    k = s["name"]
    if k in ("onepointmoment", "bv", "bv_direction"):
        s["p"] = draw(st.integers(1, 4))
    if k.startswith("structure"):
        if k != "structure_2pt":
            s["p"] = draw(st.sampled_from([1.0, 2.0, 3.0, 0.5, 1.5]))
        s["numberOfH"] = draw(st.integers(1, 5))
        d = st.integers(0, nd - 1)
        if k == "structure_basic":
            s["direction"] = draw(d)
        if k == "structure_2pt":
            s["direction1"], s["direction2"] = draw(d), draw(d)
    if k.startswith("functional"):
        fs = ["moment", "identity"] + (["bv"] if nd < 3 else []) + \
            (["log_entropy"] if c["eq"].startswith("euler") else []) + ["structure_cube"]
        f = draw(st.sampled_from(fs))
        s["functionalName"] = f
        if f in ("moment", "bv"):
            s["degree"] = draw(st.integers(1, 3))
        if f == "log_entropy":
            s["gamma"] = c["gamma"]
        if f == "structure_cube":
            s["p"] = 2.0
            s["numberOfH"] = draw(st.integers(1, 4))
    if k == "functional_time_integrated":
        s["at"] = draw(st.sampled_from([0.0, 0.3, 0.5, 0.75, 1.0]))
        s["rad"] = draw(st.sampled_from([0.1, 0.3, 0.6]))
    else:
        s["numberOfSaves"] = draw(st.sampled_from([1, 1, 2, 3, 7]))
        if draw(st.booleans()):
            s["writeInitialTimestep"] = draw(st.integers(0, 1))
    return s


@st.composite
def ensembles(draw, scheme=None, p=(1, 1, 1), stats=None, samples=None, mids=True):
    c = draw(gen.scheme(dims=draw(st.sampled_from([[1], [1], [2], [2], [3]])))) if scheme is None else scheme
    nd = c["nd"]
    ng = gen.min_cells(c)
    n = []
    for d in range(3):
        if d >= nd:
            n.append(1)
            continue
        lo = max(ng, 2)
        hi = max(lo, {1: 12, 2: 6, 3: 3}[nd] // p[d])
        n.append(draw(st.integers(lo, hi + 1)) * p[d])
    c["n"] = n
    c["box"] = draw(gen.box(nd))
    c["bc"] = draw(st.sampled_from(["periodic", "neumann"]))
    c["f"] = draw(gen.field(kinds=["sine", "step", "rand", "palette"]))
    if c["eq"].startswith("euler"):
        c["mach"] = draw(st.sampled_from([0.3, 1.0]))
        c["f"]["a"] = min(c["f"]["a"], 0.5)
    gen.untie(c)
    c["cfl"] = draw(st.sampled_from([0.45, 0.2]))
    c["len"] = draw(st.sampled_from([0.4, 1.7, 3.3]))
    c["samples"] = draw(samples or st.integers(1, 6))
    if draw(st.integers(0, 2)) == 0:
        c["start"] = draw(st.sampled_from([0, 1, 2, 5, 40]))
    c["params"] = draw(parameters(mids=mids))
    c["stats"] = draw(st.lists(stat(c, stats), min_size=1, max_size=4))
    c["saves"] = draw(st.sampled_from([0, 1, 2, 3]))
    c["fixed"] = draw(st.booleans())
    return c


def base_data(c):
    a = conf.prim_data(c)
    b = conf.prim_data(dict(c, f=dict(c["f"], s=c["f"]["s"] + 1)))
    return a, b


def blend(c):
    """Expression of the random parameters with values in [0, 1]."""
    terms, w, k = [], 0.0, 0
    for p in sorted(c["params"], key=lambda p: p["name"]):
        lo, hi = bounds(p)
        for i in range(p["length"]):
            k += 1
            v = p["name"] if p["length"] == 1 else "%s[%d]" % (p["name"], i)
            # midpoints beyond the interval (later first sample) come back into it
            terms.append("%d * abs(((%s - (%r)) / %r + 1) %% 2 - 1)" % (k, v, lo, hi - lo))
            w += k
    return "(%s) / %r%s" % (" + ".join(terms), w, " * fixed_part" if c["fixed"] else "")


def script(c, d):
    a, b = base_data(c)
    path = os.path.join(d, "data.npy")
    text = conf.script(c, np.array(a), path)
    nv = len(conf.PRIM[c["eq"]])
    lines = text.splitlines()[:-nv]
    np.save(path, np.array([a, b]))
    lines.append("_s = " + blend(c))
    for k, name in enumerate(conf.PRIM[c["eq"]]):
        lines.append("%s = float((1 - _s) * _g['_data'][0, %d, _c, _b, _a] + _s * _g['_data'][1, %d, _c, _b, _a])"
                     % (name, k, k))
    return "\n".join(lines) + "\n"


def end_time(env, c):
    """Final time such that a handful of steps are taken."""
    t = []
    for q in base_data(c):
        u = gen.cons(c["eq"], q, c.get("gamma", 1.4))
        r = env.call("rhs", {"u": u}, mode="system", **gen.args(c))
        w = sum(r["ws"][d] / r["h"][d] for d in range(c["nd"]))
        if 1e-9 < w < 1e9:
            t.append(c["len"] * c["cfl"] / w)
    return float(min(t)) if t else None


def stat_names(s):
    k = s["name"]
    f = "%f"
    return {"meanvar": ["mean", "variance"], "onepointmoment": ["m%s" % s.get("p")],
            "bv": ["bv_%s" % s.get("p")],
            "bv_direction": ["bv_%s_%s" % (x, s.get("p")) for x in "xyz"],
            "structure_basic": ["structure_basic_" + f % s.get("p", 0)],
            "structure_cube": ["structure_cube_" + f % s.get("p", 0)],
            "structure_2pt": ["structure_2pt"]}.get(k) or ["mean_" + s["functionalName"]]


def write(env, c, end, d=None):
    """Directory with the configuration of the ensemble."""
    d = d or env.dir()
    stats = []
    for k, s in enumerate(c["stats"]):
        x = {q: v for q, v in s.items() if q not in ("at", "rad")}
        if "at" in s:
            x["time"], x["timeRadius"] = conf.num(s["at"] * end), conf.num(s["rad"] * end)
        x["writer"] = dict(type="netcdf", basename=os.path.join(d, "s%d" % k))
        stats.append(x)
    u = dict(samples=c["samples"], parameters=c["params"], stats=stats)
    if "start" in c:
        u["sampleStart"] = c["start"]
    o = dict(end=end, uq=u, script=script(c, d))
    if c["fixed"]:
        o["params"] = dict(fixed_part=0.75)
    if c["saves"]:
        o["writer"] = dict(type="netcdf", basename=os.path.join(d, "o"), numberOfSaves=c["saves"],
                           writeInitialTimestep=1)
    conf.write(d, c, **o)
    return d


def sample_range(c):
    s = c.get("start", 0)
    return list(range(s, s + c["samples"]))


def single(env, c, end, k):
    """Times and states [time,var,z,y,x] of a sample run on its own."""
    d = env.dir()
    try:
        ps = {p["name"]: (values(c["params"], p["name"], k, c["samples"])) for p in c["params"]}
        ps = {q: (v[0] if len(v) == 1 else v) for q, v in ps.items()}
        if c["fixed"]:
            ps["fixed_part"] = 0.75
        funs = []
        for s in sorted(set(s["numberOfSaves"] for s in c["stats"] if "numberOfSaves" in s)):
            funs.append(dict(name="moment", degree=1, numberOfSaves=s, writer=dict(
                type="netcdf", basename=os.path.join(d, "f%d" % s))))
        o = dict(end=end, params=ps, functionals=funs, script=script(c, d))
        if c["saves"]:
            o["writer"] = dict(type="netcdf", basename=os.path.join(d, "o"),
                               numberOfSaves=c["saves"], writeInitialTimestep=1)
        conf.write(d, c, **o)
        r = env.call("setup", file=os.path.join(d, "config.xml"), all=1, maxsteps=2000)
        t = r["times"]
        return t, r["all"].reshape([len(t), gen.nvars(c["eq"])] + c["n"][::-1])
    finally:
        env.drop(d)


def at(t, u, when, end):
    k = int(np.argmax(t >= when - 1e-9 * end))
    assert abs(t[k] - when) <= 1e-9 * end, (t, when)
    return u[k]


def bv_dir(u, axis, p):
    """u [z,y,x]: differences along one axis."""
    return float(np.sum(np.abs(np.diff(u, axis=2 - axis)) ** p))


def two_point(u, d1, d2, nh, nd):
    out = np.zeros((1, nh, nh))
    for a in range(nh):
        for b in range(nh):
            o1, o2 = [0, 0, 0], [0, 0, 0]
            o1[d1], o2[d2] = a, b
            x = funref.shifted(u, o1, "neumann") - u
            y = funref.shifted(u, o2, "neumann") - u
            out[0, b, a] = np.mean(x * x * y)
    return out


def of_state(c, s, u):
    """{statistic name: summand of one state [var,z,y,x]}"""
    k, nd, nv = s["name"], c["nd"], u.shape[0]
    N = stat_names(s)
    one = lambda v: np.array(v, float).reshape(nv, 1, 1, 1)
    if k == "meanvar":
        return {"mean": u, "variance": u * u}
    if k == "onepointmoment":
        return {N[0]: u ** s["p"]}
    if k == "bv":
        return {N[0]: one([funref.bv(x, s["p"]) for x in u])}
    if k == "bv_direction":
        r = {}
        for ax in range(3):
            r[N[ax]] = one([bv_dir(x, ax, s["p"]) if ax < nd else 0.0 for x in u])
        return r
    if k == "structure_basic":
        off = [0, 0, 0]
        out = np.zeros((nv, 1, 1, s["numberOfH"]))
        for h in range(s["numberOfH"]):
            off[s["direction"]] = h
            for v in range(nv):
                out[v, 0, 0, h] = np.mean(np.abs(u[v] - funref.shifted(u[v], off, c["bc"])) ** s["p"])
        return {N[0]: out}
    if k == "structure_cube":
        return {N[0]: np.array([funref.structure_cube(x, s["p"], s["numberOfH"], c["bc"], nd)
                                for x in u]).reshape(nv, 1, 1, -1)}
    if k == "structure_2pt":
        return {N[0]: np.array([two_point(x, s["direction1"], s["direction2"], s["numberOfH"], nd)
                                for x in u])}
    f = dict(s, name=s["functionalName"])
    return {N[0]: funref.apply(f, u, conf.NAMES[c["eq"]], c["n"], c["box"]["lo"], c["box"]["hi"],
                               c["bc"])}


def expected(c, s, end, runs):
    """{statistic name: list of (time, values)} from the runs [(times, states)] of all samples."""
    out = {n: [] for n in stat_names(s)}
    if s["name"] == "functional_time_integrated":
        T, R = s["at"] * end, s["rad"] * end
        tot = None
        for t, u in runs:
            last = 0.0
            for k in range(len(t)):
                if abs(t[k] - T) <= R and t[k] > last:
                    (n, v), = of_state(c, s, u[k]).items()
                    tot = (0 if tot is None else tot) + (t[k] - last) * v
                last = t[k]
        if tot is None:
            (n, v), = of_state(c, s, runs[0][1][0]).items()
            tot = 0 * v
        out[n].append((T, tot / len(runs)))
        return out
    m = s["numberOfSaves"]
    for j in range(0 if s.get("writeInitialTimestep") else 1, m + 1):
        when = j * end / m
        acc = {}
        for t, u in runs:
            for n, v in of_state(c, s, at(t, u, when, end)).items():
                acc[n] = acc.get(n, 0) + v / len(runs)
        if s["name"] == "meanvar":
            acc["variance"] = acc["variance"] - acc["mean"] ** 2
        for n, v in acc.items():
            out[n].append((when, v))
    return out


def magnitude(c, s, end, runs):
    """Size of the terms in a statistic, for the tolerance."""
    m = max(1.0, max(float(np.abs(u).max()) for t, u in runs))
    k = s["name"]
    if k == "meanvar":
        return m * m
    p = float(s.get("p", s.get("degree", 1)))
    if k == "structure_2pt":
        p = 3.0
    q = (2 * m) ** p
    if "structure_cube" in (k, s.get("functionalName")):
        q *= (2 * s["numberOfH"] + 1) ** c["nd"]
    if "bv" in k or s.get("functionalName") == "bv":
        q *= np.prod(c["n"])
    if s.get("functionalName") == "log_entropy":
        q = 1e5 * max(1.0, max(float(np.abs(v).max()) for t, u in runs for v in of_state(
            c, s, u[-1]).values()))
    if k == "functional_time_integrated":
        q *= min(1.0, end)
    return q


def stat_files(d, k, s):
    """{statistic name: [(time, {variable: [z,y,x]})]}"""
    out = {}
    for n in stat_names(s):
        fs = conf.numbered(d, "s%d_%s" % (k, n))
        out[n] = []
        for i in sorted(fs):
            v, _ = conf.read_nc_zyx(fs[i])
            t = v.pop("time")
            out[n].append((float(np.ravel(t)[0]), v))
    return out
