from vh.fw import *
from vh import gen, ref, conf
import struct

ID = "C12"
TARGETS = ["alsh", "alsvinncli"]
RULE = ("A case is an equation, a grid shape (1D, 2D with unequal sides, 3D with unequal sides), a ghost "
        "layer width, arbitrary doubles (also denormal, huge, negative zero, NaN and infinity) for the "
        "cells, several snapshots with times and step counts, an output (netcdf, hdf5, script, shared "
        "library) and, where the output has a parallel form, a process grid. The files are read back "
        "with the netCDF and HDF5 libraries, the plug-ins record what they are handed; every value is "
        "compared bit for bit with the array handed in. A second part runs the command line program with "
        "an output of each kind next to the reference netcdf file. Non-trivial: at least two cells.")
TIME = dict(quick=40)

special = [0.0, -0.0, 1.0, -1.5, 5e-324, -2.2e-310, 1.7976931348623157e308, float("inf"),
           float("-inf"), float("nan"), 1 / 3, 1e-17, 123456789.123456789]


@st.composite
def values(draw):
    return dict(s=draw(st.integers(0, 10 ** 6)), special=draw(st.booleans()))


def array(c, nvars):
    n = c["n"]
    rng = np.random.default_rng(c["v"]["s"])
    a = rng.standard_normal((c["snaps"], nvars, n[2], n[1], n[0])) * 10.0 ** rng.integers(
        -8, 8, (c["snaps"], nvars, n[2], n[1], n[0]))
    if c["v"]["special"]:
        k = rng.random(a.shape) < 0.3
        a[k] = rng.choice(special, k.sum())
    return a


def shapes(draw, procs):
    nd = draw(st.sampled_from([1, 2, 2, 3, 3]))
    n = [draw(st.integers(1 if d == 0 else 2, 5)) for d in range(nd)] + [1] * (3 - nd)
    if nd == 2 and draw(st.integers(0, 4)) == 0:
        n[1] = 1
    p = [1, 1, 1]
    for d in range(nd):
        if procs and n[d] > 1:
            p[d] = draw(st.sampled_from([1, 1, 2, 3]))
    while p[0] * p[1] * p[2] > 4:
        p[max(range(3), key=lambda d: p[d])] -= 1
    if procs and p == [1, 1, 1] and draw(st.booleans()):
        p[0] = 2
    for d in range(3):
        n[d] *= p[d]
    return n, p


@st.composite
def cases(draw):
    c = dict(eq=draw(st.sampled_from(["burgers", "euler1", "euler2", "euler3", "cubic", "linear",
                                      "buckleyleverett"])))
    c["mpi"] = draw(st.sampled_from([0, 0, 1, 1]))
    c["type"] = draw(st.sampled_from(["netcdf", "netcdf", "hdf5", "python", "dll"]))
    if c["type"] == "hdf5":
        c["mpi"] = 0
    c["n"], c["p"] = shapes(draw, c["mpi"])
    c["ng"] = draw(st.integers(0, 3))
    c["snaps"] = draw(st.integers(1, 3))
    t = draw(st.lists(st.floats(0, 1e6, allow_nan=False), min_size=c["snaps"],
                      max_size=c["snaps"]))
    c["t"] = sorted(t)
    c["k"] = sorted(draw(st.lists(st.integers(0, 10 ** 6), min_size=c["snaps"],
                                  max_size=c["snaps"])))
    c["box"] = draw(gen.box(3 if c["n"][2] > 1 else 2 if c["n"][1] > 1 else 1))
    c["v"] = draw(values())
    if c["type"] in ("python", "dll"):
        c["pars"] = draw(st.dictionaries(st.sampled_from(["alpha", "beta", "gamma_1", "x"]),
                                         st.sampled_from(["1", "two words", "3.5e-2", "a/b", ""]),
                                         max_size=3))
    if c["type"] == "dll":
        c["nofun"] = draw(st.sampled_from([[], [], ["create"], ["new", "end"], ["host"], ["comm"],
                                           ["delete"]]))
    if c["type"] == "netcdf":
        c["attr"] = draw(st.sampled_from([None, "text of an attribute", "1"]))
    return c


PLUG = '''
import numpy as _np, pickle as _pickle
class Recorder:
    def __init__(self, parameters):
        self.p = dict((k, parameters[k]) for k in parameters.keys())
        self.log = []
    def write(self, data, grid, time, steps):
        self.log.append(("write", dict((k, _np.array(data[k], copy=True)) for k in data.keys()),
            dict((k, tuple(grid[k])) for k in grid.keys()), time, steps))
    def afterMPISync(self):
        self.log.append(("sync",))
    def finalize(self):
        self.log.append(("finalize",))
        import os as _os
        _r = int(_os.environ.get("OMPI_COMM_WORLD_RANK", "0"))
        with open(self.p["out"] + "." + str(_r), "wb") as f:
            _pickle.dump((self.p, self.log), f)
'''
DLL = dict(create="create_function", delete="delete_function", write="write_function",
           make_parameters="make_parameters_function",
           delete_parameters="delete_parameters_function", needs_data_on_host=
           "needs_data_on_host_function", set_parameter="set_parameter_function", set_mpi_comm=
           "set_mpi_comm_function", new_timestep="new_timestep_function", end_timestep=
           "end_timestep_function")
NOFUN = dict(create=["create", "set_mpi_comm", "new_timestep", "end_timestep", "delete"],
             new=["new_timestep"], end=["end_timestep"], host=["needs_data_on_host"],
             comm=["set_mpi_comm"], delete=["delete"])


def bits(a):
    return np.ascontiguousarray(a, dtype="<f8").view(np.uint64)


def same(a, b):
    """Bit for bit; any NaN stands for any NaN."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != np.float64:
        return False
    return bool(np.all((bits(a) == bits(b)).reshape(a.shape) | (np.isnan(a) & np.isnan(b))))


def zyx(a, names):
    return np.transpose(a, [names.index(x) for x in "zyx"])


def dll_params(build, out, nofun):
    p = {v: "vh_" + k for k, v in DLL.items()}
    for k in nofun:
        for f in NOFUN[k]:
            p[DLL[f]] = "NONE"
    p["library"] = os.path.join(build, "libvhplug.so")
    p["out"] = out
    return p


def block(n, p, r):
    """Slices (z, y, x) of the block of rank r."""
    q = [r % p[0], (r // p[0]) % p[1], r // (p[0] * p[1])]
    m = [n[d] // p[d] for d in range(3)]
    return tuple(slice(q[d] * m[d], (q[d] + 1) * m[d]) for d in (2, 1, 0)), q, m


def netcdf_file(path, want, names, n, t):
    import netCDF4
    ds = netCDF4.Dataset(path)
    try:
        ds.set_auto_mask(False)
        for k, name in enumerate(names):
            check(name in ds.variables, lambda: "variable %s is missing in %s" %
                  (name, os.path.basename(path)), "names")
            v = ds.variables[name]
            check(sorted(v.dimensions) == ["x", "y", "z"], lambda: "dimensions %s" %
                  (v.dimensions,), "dimensions")
            got = zyx(np.array(v[...]), list(v.dimensions))
            check(got.shape == tuple(n[::-1]), lambda: "shape %s (z, y, x) instead of %s" %
                  (got.shape, tuple(n[::-1])), "shape")
            check(same(got, want[k]), lambda: "values of %s differ in cell %s (z, y, x)" %
                  (name, np.argwhere((bits(got) != bits(want[k])).reshape(got.shape))[0]), "values")
        extra = set(ds.variables) - set(names) - {"time"}
        check(not extra, lambda: "unexpected variables %s" % extra, "names")
        if t is not None:
            check(same(np.ravel(ds.variables["time"][...]), np.array([t])), lambda: "time %r "
                  "instead of %r" % (ds.variables["time"][...], t), "time")
        return {k: ds.getncattr(k) for k in ds.ncattrs()}
    finally:
        ds.close()


def hdf5_file(path, want, names, n, box):
    import h5py
    with h5py.File(path, "r") as f:
        for k, name in enumerate(names):
            check(name in f, lambda: "dataset %s is missing" % name, "names")
            a = np.array(f[name])
            check(a.shape == tuple(n), lambda: "shape %s instead of %s" % (a.shape, n), "shape")
            got = a.ravel().reshape(n[::-1])  # first index fastest (compMinorF)
            check(same(got, want[k]), lambda: "values of %s differ" % name, "values")
        g = f["grid"].attrs
        check(g["vsIndexOrder"].decode() == "compMinorF", "index order", "grid")
        check(list(g["vsNumCells"]) == list(n), lambda: "vsNumCells %s" % list(g["vsNumCells"]),
              "grid")
        for key, side in (("vsLowerBounds", "lo"), ("vsUpperBounds", "hi")):
            check(np.array_equal(g[key], np.array(box[side], dtype=np.float32)), lambda:
                  "%s %s instead of %s" % (key, list(g[key]), box[side]), "grid")
        extra = set(f) - set(names) - {"grid"}
        check(not extra, lambda: "unexpected datasets %s" % extra, "names")


def near(a, b, h):
    return np.all(np.abs(np.array(a) - np.array(b)) <= 1e-12 * (1 + np.abs(b)) + 1e-12 * np.abs(h))


def block_box(c, n, p, q):
    nd = 3 if n[2] > 1 else 2 if n[1] > 1 else 1
    lo, hi = [], []
    for d in range(3):
        a, b = c["box"]["lo"][d], c["box"]["hi"][d]
        w = (b - a) / p[d]
        lo.append(a + q[d] * w)
        hi.append(a + (q[d] + 1) * w if d < nd else lo[-1])
    return lo, hi


def read_dll(path):
    calls = []
    for line in open(path):
        w = line.rstrip("\n").split(" ")
        calls.append(w)
    return calls


def check_dll(c, env, out, a, names, pars, ranks, times, steps, ng, nofun):
    n, p = c["n"], c["p"]
    gone = set(f for k in nofun for f in NOFUN[k])
    for r in range(ranks):
        sl, q, m = block(n, p, r)
        lo, hi = block_box(c, n, p, q)
        calls = read_dll(out + ".%d" % r)
        if "create" not in gone:
            check(calls[0] == ["create", "alsvinn"], lambda: "first call %s" % calls[0], "calls")
            got = {w[1]: " ".join(w[2:]) for w in calls if w[0] == "param"}
            for k, v in pars.items():
                check(got.get(k) == v, lambda: "parameter %s is %r instead of %r" %
                      (k, got.get(k), v), "parameters")
            if c["mpi"]:
                check(got.get("mpi_rank") == str(r) and got.get("mpi_size") == str(ranks), lambda:
                      "mpi_rank %r, mpi_size %r on process %d of %d" %
                      (got.get("mpi_rank"), got.get("mpi_size"), r, ranks), "parameters")
        calls = [w for w in calls if w[0] not in ("create", "param")]
        if "set_mpi_comm" not in gone:
            check(calls[0] == ["comm", str(r), str(ranks)] or not c["mpi"] and
                  calls[0] == ["comm", "0", "1"], lambda: "communicator %s" % calls[0], "calls")
        calls = [w for w in calls if w[0] != "comm"]
        tail = [["delete"]] * ("delete" not in gone) + [["delete_parameters"]]
        check(sorted(calls[len(calls) - len(tail):]) == tail, lambda: "the plug-in is not released: "
              "last calls %s" % [w[0] for w in calls[-3:]], "release")
        calls = calls[:len(calls) - len(tail)]
        for k in range(len(times)):
            part = []
            per = len(names) + 2 - ("new_timestep" in gone) - ("end_timestep" in gone)
            part, calls = calls[:per], calls[per:]
            stamp = lambda w: len(w) == 3 and float.fromhex(w[1]) == times[k] and int(w[2]) == steps[k]
            if "new_timestep" not in gone:
                check(part and part[0][0] == "new" and stamp(part[0]), lambda: "call %s at snapshot %d"
                      % (part[:1], k), "calls")
                part = part[1:]
            if "end_timestep" not in gone:
                check(part and part[-1][0] == "end" and stamp(part[-1]), lambda: "call %s at snapshot "
                      "%d" % (part[-1:], k), "calls")
                part = part[:-1]
            check([w[2] for w in part if w[0] == "write"] == names, lambda: "variables %s" %
                  [w[2:3] for w in part], "names")
            for v, w in enumerate(part):
                check(float.fromhex(w[1]) == times[k], "time of the snapshot", "time")
                g = [int(x) for x in w[3:9]]
                gg = [ng if d < (3 if n[2] > 1 else 2 if n[1] > 1 else 1) else 0 for d in range(3)]
                if ng is not None:
                    check(g == m + gg, lambda: "sizes and ghost cells %s instead of %s" % (g, m + gg),
                          "shape")
                x = np.array([float.fromhex(s) for s in w[16:]])
                tot = [g[d] + 2 * g[3 + d] for d in range(3)]
                x = x.reshape(tot[::-1])[tuple(slice(g[3 + d], tot[d] - g[3 + d]) for d in (2, 1, 0))]
                check(same(np.ascontiguousarray(x), np.ascontiguousarray(a[k][v][sl])), lambda:
                      "values of %s on process %d" % (names[v], r), "values")
                e = [float.fromhex(s) for s in w[9:15]]
                check(near(e[:3], lo, 1) and near(e[3:], hi, 1), lambda: "domain %s instead of %s %s"
                      % (e, lo, hi), "domain")
                check(w[15] == "-1", "gpu number on the cpu", "gpu")
        check(not calls, lambda: "further calls %s" % [w[:3] for w in calls[:3]], "calls")


def check_python(c, env, out, a, names, pars, ranks, times, steps):
    import pickle
    n, p = c["n"], c["p"]
    for r in range(ranks):
        sl, q, m = block(n, p, r)
        lo, hi = block_box(c, n, p, q)
        with open(out + ".%d" % r, "rb") as f:
            got, log = pickle.load(f)
        for k, v in pars.items():
            check(got.get(k) == v, lambda: "parameter %s is %r instead of %r" % (k, got.get(k), v),
                  "parameters")
        if c["mpi"]:
            check(got.get("mpi_rank") == str(r) and got.get("mpi_size") == str(ranks), lambda:
                  "mpi_rank %r, mpi_size %r" % (got.get("mpi_rank"), got.get("mpi_size")),
                  "parameters")
        check([x[0] for x in log] == ["write", "sync"] * len(times) + ["finalize"], lambda:
              "calls %s" % [x[0] for x in log], "calls")
        for k in range(len(times)):
            _, data, grid, t, s = log[2 * k]
            check(t == times[k] and s == steps[k], lambda: "time %r, steps %r instead of %r, %r" %
                  (t, s, times[k], steps[k]), "time")
            check(sorted(data) == sorted(names), lambda: "variables %s" % sorted(data), "names")
            for v, name in enumerate(names):
                x = np.asarray(data[name])
                check(same(x.ravel(), a[k][v][sl].ravel()), lambda: "values of %s" % name, "values")
            check(list(grid["local_size"]) == m and list(grid["global_size"]) == list(n) and
                  list(grid["global_position"]) == [q[d] * m[d] for d in range(3)], lambda:
                  "grid %s" % grid, "grid")
            check(near(grid["origin"], lo, 1) and near(grid["top"], hi, 1), lambda:
                  "domain %s" % grid, "domain")


def writers(env, c):
    names = conf.NAMES[c["eq"]]
    a = array(c, len(names))
    ranks = int(np.prod(c["p"])) if c["mpi"] else 1
    d = env.dir()
    try:
        base = os.path.join(d, "out")
        kw = dict(eq=c["eq"], nx=c["n"][0], ny=c["n"][1], nz=c["n"][2], ng=c["ng"], type=c["type"],
                  base=base, mpi=c["mpi"], px=c["p"][0], py=c["p"][1], pz=c["p"][2])
        for d_, ax in enumerate("xyz"):
            kw["l" + ax], kw["h" + ax] = c["box"]["lo"][d_], c["box"]["hi"][d_]
        pars = dict(c.get("pars", {}))
        if c["type"] == "python":
            pars.update(pythonCode=PLUG, pythonClass="Recorder", out=base)
        if c["type"] == "dll":
            pars.update(dll_params(env.build, base, c["nofun"]))
        if c.get("attr"):
            kw["attr"] = c["attr"]
        for k, v in pars.items():
            kw["p_" + k] = v
        r = env.srv(np_=ranks).call("write", {"u": a, "t": c["t"], "n": c["k"]}, **kw)
        check("changed" not in r.kv, "writing changes the state", "changed")
        if c["type"] in ("netcdf", "hdf5"):
            ext = ".nc" if c["type"] == "netcdf" else ".h5"
            files = conf.numbered(d, "out", ext)
            check(sorted(files) == list(range(c["snaps"])) and len(os.listdir(d)) == c["snaps"],
                  lambda: "files %s" % sorted(os.listdir(d)), "files")
            for k in range(c["snaps"]):
                if ext == ".nc":
                    at = netcdf_file(files[k], a[k], names, c["n"], c["t"][k])
                    if c.get("attr"):
                        check(at.get("extra.a") == c["attr"] and at.get("extra.b.c") == c["attr"],
                              lambda: "attributes %s" % {x: at.get(x) for x in ("extra.a",
                                                         "extra.b.c")}, "attributes")
                else:
                    hdf5_file(files[k], a[k], names, c["n"], c["box"])
        elif c["type"] == "dll":
            check_dll(c, env, base, a, names, pars, ranks, c["t"], c["k"], c["ng"], c["nofun"])
        else:
            check_python(c, env, base, a, names, pars, ranks, c["t"], c["k"])
        return "%s np%d" % (c["type"], ranks) if a[0, 0].size > 1 else None
    finally:
        env.drop(d)


@st.composite
def groups(draw):
    c = dict(eq=draw(st.sampled_from(["burgers", "euler1", "euler3"])))
    c["n"], c["p"] = shapes(draw, 1)
    c["groups"] = draw(st.integers(1, 3))
    c["snaps"] = draw(st.integers(1, 2))
    c["v"] = draw(values())
    c["order"] = draw(st.permutations(range(c["groups"])))
    return c


def grouped(env, c):
    """One file per snapshot shared by the outputs of several samples, added one after another."""
    names = conf.NAMES[c["eq"]]
    d = env.dir()
    ranks = int(np.prod(c["p"]))
    try:
        arrays = {}
        for k, g in enumerate(c["order"]):
            a = array(dict(c, v=dict(c["v"], s=c["v"]["s"] + g)), len(names))
            arrays[g] = a
            env.srv(np_=ranks).call("write", {"u": a, "t": np.arange(c["snaps"]) * 0.5, "n":
                                    np.arange(c["snaps"])}, eq=c["eq"], nx=c["n"][0], ny=c["n"][1],
                                    nz=c["n"][2], ng=1, type="groups", mpi=1, px=c["p"][0],
                                    py=c["p"][1], pz=c["p"][2], base=os.path.join(d, "o"),
                                    groups="sample_%d" % g, group=0, new=int(k == 0))
        import netCDF4
        for k in range(c["snaps"]):
            ds = netCDF4.Dataset(os.path.join(d, "o_%d.nc" % k))
            try:
                ds.set_auto_mask(False)
                for g, a in arrays.items():
                    for v, name in enumerate(names):
                        x = ds.variables["sample_%d_%s" % (g, name)]
                        check(same(zyx(np.array(x[...]), list(x.dimensions)), a[k, v]), lambda:
                              "group %d variable %s" % (g, name), "values")
            finally:
                ds.close()
        return "np%d groups %d" % (ranks, c["groups"])
    finally:
        env.drop(d)


@st.composite
def clis(draw):
    c = draw(gen.scheme(eqs=["burgers", "euler1", "euler2", "euler3"], diff=False,
                        recons=["none", "weno2"], fluxes=["rusanov", "hll"], dims=[1, 2, 3]))
    c["bc"] = draw(st.sampled_from(["periodic", "neumann"]))
    c["type"] = draw(st.sampled_from(["python", "dll"]))
    lo = max(gen.min_cells(c), 2)
    c["n"] = draw(gen.shape(c["nd"], lo=lo, hi={1: 16, 2: 7, 3: 5}[c["nd"]]))
    c["p"] = [1, 1, 1]
    d = draw(st.sampled_from(list(range(c["nd"])) + [None]))
    if d is not None:
        c["n"][d] += c["n"][d] % 2
        if c["n"][d] // 2 >= max(lo, 2):
            c["p"][d] = 2
    c["mpi"] = 1
    c["box"] = draw(gen.box(c["nd"]))
    c["f"] = draw(gen.field(kinds=["sine", "step", "rand"]))
    if c["eq"].startswith("euler"):
        c["mach"] = 0.5
    c["cfl"] = draw(st.sampled_from([0.45, 0.3]))
    c["saves"] = draw(st.integers(1, 3))
    c["init"] = draw(st.sampled_from([0, 1]))
    return c


def cli(env, c):
    """The same run written by the file output and by a plug-in."""
    p = conf.prim_data(c)
    u = gen.cons(c["eq"], p, c.get("gamma"))
    r = env.call("rhs", {"u": u}, mode="system", **gen.args(c))
    w = sum(r["ws"][d] / r["h"][d] for d in range(c["nd"]))
    if not 1e-9 < w < 1e9:
        return None
    end = float(2.7 * c["cfl"] / w)
    names = conf.NAMES[c["eq"]]
    ranks = int(np.prod(c["p"]))
    got = {}
    dirs = []
    try:
        for kind in ("netcdf", c["type"]):
            d = env.dir()
            dirs.append(d)
            w = dict(type=kind, basename="o", numberOfSaves=c["saves"], writeInitialTimestep=c["init"])
            pars = {}
            if kind == "dll":
                pars = dll_params(env.build, os.path.join(d, "rec"), [])
            elif kind == "python":
                with open(os.path.join(d, "plug.py"), "w") as f:
                    f.write(PLUG)
                pars = dict(pythonCode="load:plug.py", pythonClass="Recorder",
                            out=os.path.join(d, "rec"))
            w.update(pars)
            conf.write(d, c, p, end=end, writer=w)
            a = ["alsvinncli/alsvinncli"]
            for k, ax in enumerate("xyz"):
                if c["p"][k] > 1:
                    a += ["--multi-" + ax, c["p"][k]]
            rc, log = env.run(a + ["config.xml"], cwd=d, np_=ranks, timeout=60)
            if rc == "timeout" or rc != 0 and "constraints" in log:
                return None
            check(rc == 0, lambda: "status %s: %s" % (rc, log[-400:]), "status")
        files = conf.numbered(dirs[0], "o")
        check(sorted(files) == list(range(c["saves"] + c["init"])), "files", "files")
        arr, times = [], []
        for k in sorted(files):
            v, _ = conf.read_nc_zyx(files[k])
            arr.append(np.stack([v[x] for x in names]))
            times.append(float(np.ravel(v["time"])[0]))
        out = os.path.join(dirs[1], "rec")
        if c["type"] == "dll":
            pars = {k: v for k, v in pars.items()}
            steps = [int(w[2]) for w in read_dll(out + ".0") if w[0] == "new"]
            check(len(steps) == len(times) and steps == sorted(steps), "snapshots", "calls")
            check_dll(c, env, out, arr, names, pars, ranks, times, steps, None, [])
        else:
            import pickle
            with open(out + ".0", "rb") as f:
                _, log = pickle.load(f)
            steps = [x[4] for x in log if x[0] == "write"]
            check(len(steps) == len(times) and steps == sorted(steps), "snapshots", "calls")
            pars.pop("pythonCode")
            check_python(c, env, out, arr, names, pars, ranks, times, steps)
        return "%s np%d" % (c["type"], ranks)
    finally:
        for d in dirs:
            env.drop(d)


SUBS = [Sub("writers", cases(), writers, 3, batch=40), Sub("groups", groups(), grouped, 0.7, batch=20),
        Sub("cli", clis(), cli, 1.5, batch=10)]
