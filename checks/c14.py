from vh.fw import *
from vh import gen, ref, conf

ID = "C14"
TARGETS = ["alsh", "alsvinncli"]
RULE = ("A case is a set of two or three simulations (scheme, grid, data, outputs) and a plan: repeats in the "
        "same process and in a fresh one, other numbers of threads, other simulations run before, stepping in "
        "pieces while the other simulations are stepped in between, additional outputs and looks at the state. "
        "All states and times of a simulation have to be bit for bit the same in all of them. Files of the "
        "command line program are compared in the same way. Non-trivial: at least three steps of data that is "
        "not constant, and something happens in between.")


@st.composite
def simu(draw, small=False):
    c = draw(gen.scheme(dims=draw(st.sampled_from([[1], [2], [3]]))))
    nd = c["nd"]
    ng = gen.min_cells(c)
    hi = {1: 24, 2: 9, 3: 6}[nd]
    c["n"] = draw(gen.shape(nd, lo=max(ng, 2), hi=hi))
    c["bc"] = draw(st.sampled_from(["periodic", "neumann"]))
    c["box"] = draw(gen.box(nd))
    c["f"] = draw(gen.field(kinds=["sine", "step", "rand", "spike", "palette"]))
    c["f"]["a"] = min(c["f"]["a"], 0.5)
    if c["eq"].startswith("euler"):
        c["mach"] = draw(st.sampled_from([0.3, 1.0]))
    c["cfl"] = draw(st.sampled_from([0.45, 0.2, 0.9]))
    c["len"] = draw(st.sampled_from([2.5, 5.5, 8.0]))
    c["fixed"] = draw(st.booleans())
    return c


def prepare_sim(env, c):
    u = gen.data(c)
    r = env.call("rhs", {"u": u}, mode="system", **gen.args(c))
    w = sum(r["ws"][d] / r["h"][d] for d in range(c["nd"]))
    if not 1e-12 < w < 1e12:
        return None
    end = float(c["len"] * c["cfl"] / w)
    wr = "raw"
    if c["fixed"]:
        wr += ";fixed,%s,%s,1" % ((end / 3).hex(), end.hex())
    return dict(u=u, kw=gen.args(c, end=end, writers=wr, maxsteps=60))


def same(a, b, what, keys=("t0", "s0", "n0")):
    for k in keys:
        check(a[k].shape == b[k].shape and np.array_equal(a[k], b[k], equal_nan=True), lambda: "%s: %s" % (
            what, ("times differ: %s %s" % (a[k], b[k])) if k == "t0" else
            "%s differs, largest difference %r" % (k, np.nanmax(np.abs(a[k] - b[k]))
                                                   if a[k].shape == b[k].shape else "shape")), "differs")
    check(a.kv.get("failure") == b.kv.get("failure") or "id" in what, what + ": one of the runs fails",
          "differs")


@st.composite
def cases(draw):
    k = draw(st.integers(2, 3))
    return dict(sims=[draw(simu()) for _ in range(k)],
                plan=draw(st.lists(st.tuples(st.integers(0, k - 1), st.integers(1, 3),
                                             st.sampled_from([1, 1, 2, 4]), st.integers(0, 2)),
                                   min_size=2, max_size=14)),
                threads=draw(st.sampled_from([1, 2, 3, 4])), memory=draw(st.sampled_from([0, 85])), fresh=draw(st.integers(0, 5)) == 0)


def ev(env, c):
    ps = [prepare_sim(env, s) for s in c["sims"]]
    if any(p is None for p in ps):
        return None
    base = [env.call("sim", {"u": p["u"]}, **p["kw"]) for p in ps]
    # again, after the others
    i = len(ps) - 1
    for k in range(len(ps)):
        same(base[k], env.call("sim", {"u": ps[k]["u"]}, **ps[k]["kw"]), "simulation %d run again" % k)
    t = env.call("sim", {"u": ps[0]["u"]}, threads=c["threads"], **ps[0]["kw"])
    same(base[0], t, "simulation 0 with %d threads" % c["threads"])
    # in a process whose memory holds something else where nothing has been stored
    r = env.srv(1, MALLOC_PERTURB_=str(c["memory"])).call("sim", {"u": ps[i]["u"]}, **ps[i]["kw"])
    same(base[i], r, "simulation %d with other contents of fresh memory" % i)
    if c["fresh"]:
        s = srv.Server(env.build, 1, 2, "alsh", 60, cwd=env.tmp)
        try:
            same(base[i], s.call("sim", {"u": ps[i]["u"]}, **ps[i]["kw"]),
                 "simulation %d in a process of its own" % i)
        finally:
            s.stop()
    # in pieces, side by side, with extra outputs
    env.call("sim_free")
    for k, p in enumerate(ps):
        kw = dict(p["kw"])
        kw["writers"] += ";raw"
        env.call("sim_new", {"u": p["u"]}, id=k, **kw)
    done = [0] * len(ps)
    looked = 0
    for k, n, th, look in c["plan"]:
        most = 60 - done[k]
        r = env.call("sim_step", id=k, n=min(n, most), threads=th)
        done[k] += r.i("steps")
        if look == 1:
            env.call("sim_report", id=(k + 1) % len(ps))
            looked += 1
    for k in reversed(range(len(ps))):
        env.call("sim_step", id=k, n=60 - done[k])
    for k in range(len(ps)):
        r = env.call("sim_report", id=k)
        same(base[k], r, "simulation %d (id) in pieces" % k)
        if c["sims"][k]["fixed"]:
            same(base[k], r, "simulation %d (id) in pieces, scheduled output" % k, ("t1", "s1", "n1"))
        same(base[k], r, "simulation %d (id) in pieces" % k)
    env.call("sim_free")
    ok = sum(len(b["t0"]) > 3 and np.ptp(gen.data(s)) > 0 for b, s in zip(base, c["sims"]))
    return "%d sims" % len(ps) if ok >= 1 else None


@st.composite
def clis(draw):
    c = draw(simu())
    c["threads"] = draw(st.sampled_from([2, 4, 7]))
    c["other"] = draw(simu())
    return c


def files(d, base):
    return {k: conf.read_nc(p)[0] for k, p in conf.numbered(d, base).items()}


def equal(a, b, what):
    check(sorted(a) == sorted(b), lambda: "%s: files %s and %s" % (what, sorted(a), sorted(b)), "files")
    for k in a:
        for v in a[k]:
            check(np.array_equal(a[k][v], b[k][v], equal_nan=True),
                  lambda: "%s: %s differs in file %d" % (what, v, k), "differs")


def ev_cli(env, c):
    def setup(c, base):
        p = prepare_sim(env, c)
        if p is None:
            return None
        d = env.dir()
        conf.write(d, c, conf.prim_data(c), end=float(p["kw"]["end"]), params={"q": [1.0, 2.0], "s": c["cfl"]},
                   writer=dict(type="netcdf", basename=base, numberOfSaves=2, writeInitialTimestep=1))
        return d
    ds = []
    try:
        d = setup(c, "o")
        if d is None:
            return None
        ds.append(d)
        rc, o = env.run(["alsvinncli/alsvinncli", "config.xml"], cwd=d)
        if rc != 0:
            return None
        a = files(d, "o")
        for p in conf.numbered(d, "o").values():
            os.remove(p)
        rc, o = env.run(["alsvinncli/alsvinncli", "config.xml"], cwd=d,
                        env=dict(OMP_NUM_THREADS=str(c["threads"])))
        check(rc == 0, lambda: "a second run fails: %s" % o[-300:], "refused")
        equal(a, files(d, "o"), "second run, %d threads" % c["threads"])
        # in a process that has run other configurations
        e = setup(c["other"], "o")
        if e is not None:
            ds.append(e)
            try:
                env.call("setup", file=e + "/config.xml", maxsteps=60, capture=0)
            except Refused:
                pass
        f = setup(c, os.path.join(env.tmp, "again"))
        ds.append(f)
        env.call("setup", file=f + "/config.xml", capture=0)
        try:
            equal(a, files(env.tmp, "again"), "in a process that ran other configurations")
        finally:
            for p in conf.numbered(env.tmp, "again").values():
                os.remove(p)
    finally:
        for d in ds:
            env.drop(d)
    return "cli" if len(a) > 1 else None


SUBS = [Sub("histories", cases(), ev, 3), Sub("cli", clis(), ev_cli, 1, batch=8)]
for _s in SUBS:
    _s.flaky_is_violation = True  # a difference between two runs is the violation itself
TIME = dict(quick=45, thorough=500)
