from vh.fw import *
from vh import gen, ref, conf

ID = "C13"
TARGETS = ["alsh", "alsvinncli"]
WORKERS = 4
TIME = dict(quick=60)
RULE = ("A case is a scheme, a grid, a boundary type, data, an output schedule, functionals and a division "
        "px x py x pz of the domain (2, 3, 4 and, in the thorough tier, 6 and 8 processes). The same "
        "configuration file is run by one process and by px*py*pz processes (through the library in "
        "long-lived process groups, and through the command line program): the states at all times, the "
        "times, the number of steps and the files of the state and of pointwise functionals have to agree; "
        "functionals with one value hold the value of each block. Divisions that do not fit are refused by "
        "every process. Non-trivial: at least two blocks, two steps and data that is not constant.")


def factors(n, nd):
    out = []
    for a in range(1, n + 1):
        for b in range(1, n + 1):
            if n % (a * b) == 0:
                c = n // (a * b)
                if (b == 1 or nd > 1) and (c == 1 or nd > 2):
                    out.append([a, b, c])
    return out


@st.composite
def cases(draw, np_, cli=False):
    c = draw(gen.scheme(dims=draw(st.sampled_from([[1], [2], [2], [3]]))))
    nd = c["nd"]
    c["p"] = draw(st.sampled_from(factors(np_, nd)))
    ng = gen.min_cells(c)
    c["bc"] = draw(st.sampled_from(["periodic", "neumann"]))
    n = []
    for d in range(3):
        if d >= nd:
            n.append(1)
            continue
        lo = max(ng, 2)
        hi = max(lo, {1: 12, 2: 6, 3: 3}[nd] // (c["p"][d] if nd > 1 else 1))
        n.append(draw(st.integers(lo, hi + 1)) * c["p"][d])
    c["n"] = n
    c["box"] = draw(gen.box(nd))
    c["f"] = draw(gen.field(kinds=["sine", "step", "rand", "spike", "palette"]))
    if c["eq"].startswith("euler"):
        c["mach"] = draw(st.sampled_from([0.3, 1.0]))
        c["f"]["a"] = min(c["f"]["a"], 0.5)
    gen.untie(c)
    c["cfl"] = draw(st.sampled_from([0.45, 0.2]))
    c["len"] = draw(st.sampled_from([0.3, 2.3, 5.6]))
    c["saves"] = draw(st.integers(1, 3))
    c["init"] = draw(st.booleans())
    c["funs"] = draw(st.lists(st.sampled_from(["moment", "bv", "identity", "log_entropy"]),
                              max_size=2, unique=True))
    return c


def end_time(env, c, u):
    r = env.call("rhs", {"u": u}, mode="system", **gen.args(c))
    w = sum(r["ws"][d] / r["h"][d] for d in range(c["nd"]))
    return float(c["len"] * c["cfl"] / w) if 1e-12 < w < 1e12 else None


def functionals(c, d):
    out = []
    for f in c["funs"]:
        if f == "log_entropy" and c["eq"] != "euler%d" % c["nd"]:
            continue
        if f == "bv" and c["nd"] == 3:
            continue
        x = dict(name=f, numberOfSaves=c["saves"])
        if f in ("moment", "bv"):
            x["degree"] = 2 if f == "moment" else 1
        if f == "log_entropy":
            x["gamma"] = c.get("gamma", 1.4)
        x["writer"] = dict(type="netcdf", basename=os.path.join(d, "f_" + f))
        out.append(x)
    return out


def setup_dir(env, c, arr, end, funs=True, base="o"):
    d = env.dir()
    conf.write(d, c, arr, end=end, functionals=functionals(c, d) if funs else [],
               writer=dict(type="netcdf", basename=os.path.join(d, base), numberOfSaves=c["saves"],
                           writeInitialTimestep=int(c["init"])))
    return d


def bv(u, h):
    """u: [y,x] or [x]: sum of the lengths of the difference vectors."""
    if u.shape[0] == 1:
        return np.abs(np.diff(u[0])).sum()
    a = u[1:, 1:] - u[1:, :-1]
    b = u[1:, 1:] - u[:-1, 1:]
    return np.sqrt(a * a + b * b).sum()


def close(a, b, what):
    check(a.shape == b.shape, lambda: "%s: shape %s instead of %s" % (what, a.shape, b.shape), "shape")
    s = 1e-9 * (1 + np.abs(b).max() if b.size else 1)
    ok = np.abs(a - b) <= s
    check(bool(np.all(ok)), lambda: "%s: differs from the run on one process by %.3g, first at %s" % (
        what, np.abs(a - b).max(), np.argwhere(~ok)[0]), "differs")


def compare_files(c, d1, d2):
    names = [os.path.basename(p) for p in conf.glob.glob(os.path.join(d1, "*.nc"))]
    other = [os.path.basename(p) for p in conf.glob.glob(os.path.join(d2, "*.nc"))]
    check(sorted(names) == sorted(other), lambda: "files %s instead of %s" % (sorted(other),
          sorted(names)), "files")
    p = c["p"]
    for f in names:
        a, _ = conf.read_nc_zyx(os.path.join(d1, f))
        b, _ = conf.read_nc_zyx(os.path.join(d2, f))
        if f.startswith("f_bv"):
            continue
        check(set(a) == set(b), lambda: "%s: variables %s instead of %s" % (f, set(b), set(a)), "files")
        if f.startswith("f_log"):  # an integral: the blocks add up
            check(b["E"].shape == tuple(p[::-1]), lambda: "%s: shape %s instead of one value per block" %
                  (f, b["E"].shape), "block")
            close(np.array([b["E"].sum()]), a["E"].ravel(), "sum of the blocks in %s" % f)
            continue
        for k in a:
            close(b[k], a[k], "%s of %s" % (k, f))
    # one value per block
    for i, q in conf.numbered(d2, "f_bv").items():
        if i > 0 and c["init"]:
            state = conf.numbered(d1, "o").get(i)
        elif i > 0:
            state = conf.numbered(d1, "o").get(i - 1)
        else:
            state = conf.numbered(d1, "o").get(0) if c["init"] else None
        if state is None:
            continue
        u, _ = conf.read_nc_zyx(state)
        b, _ = conf.read_nc_zyx(q)
        m = [c["n"][k] // p[k] for k in range(3)]
        for name in conf.NAMES[c["eq"]]:
            check(b[name].shape == tuple(p[::-1]), lambda: "variation: shape %s instead of one value "
                  "per block %s" % (b[name].shape, p[::-1]), "block")
            for y in range(p[1]):
                for x in range(p[0]):
                    w = bv(u[name][0, y * m[1]:(y + 1) * m[1], x * m[0]:(x + 1) * m[0]], None)
                    g = b[name][0, y, x]
                    check(abs(g - w) <= 1e-9 * (1 + abs(w)), lambda: "variation of block %s: %r instead "
                          "of %r" % ((x, y), g, w), "block")


def run(env, c, np_):
    arr = conf.prim_data(c)
    u = gen.data(c)
    end = end_time(env, c, u)
    if end is None:
        return None
    d1, d2 = setup_dir(env, c, arr, end), setup_dir(env, c, arr, end)
    try:
        try:
            a = env.call("setup", file=d1 + "/config.xml", all=1, maxsteps=400)
        except Refused:
            return None  # states that are not admissible and the like: other properties
        p = c["p"]
        r = env.srv(np_, timeout=40).call("setup", file=d2 + "/config.xml", px=p[0], py=p[1], pz=p[2],
                                          all=1, maxsteps=400)
        nv = gen.nvars(c["eq"])
        n = c["n"]
        k = len(a["times"])
        want = a["all"].reshape([k, nv] + n[::-1])
        for q in range(np_):
            check(r.s("status.%d" % q) == "ok", lambda: "process %d of a run that succeeds on one "
                  "process: %s" % (q, r.kv.get("what.%d" % q)), "refused")
        seen = np.zeros(n[::-1], dtype=int)
        for q in range(np_):
            t = r["times.%d" % q]
            check(len(t) == k, lambda: "process %d: %d steps instead of %d" % (q, len(t), k), "steps")
            check(np.all(np.abs(t - a["times"]) <= 1e-10 * end), lambda: "process %d: times differ: %s "
                  "and %s" % (q, t, a["times"]), "times")
            pos, m = r["gpos.%d" % q].astype(int), r["dims.%d" % q].astype(int)
            sl = tuple(slice(pos[e], pos[e] + m[e]) for e in (2, 1, 0))
            seen[sl] += 1
            got = r["all.%d" % q].reshape([k, nv] + list(m[::-1]))
            for s in range(k):
                close(got[s], want[s][(slice(None),) + sl], "process %d, step %d" % (q, s))
        check(bool(np.all(seen == 1)), "the blocks do not cover the grid exactly once", "cover")
        compare_files(c, d1, d2)
    finally:
        env.drop(d1)
        env.drop(d2)
    return "%s %s p=%s" % (c["bc"], c["nd"], c["p"]) if k > 2 and np.ptp(u[0]) > 0 else None


def cli(env, c):
    arr = conf.prim_data(c)
    u = gen.data(c)
    end = end_time(env, c, u)
    if end is None:
        return None
    np_ = int(np.prod(c["p"]))
    d1, d2 = setup_dir(env, c, arr, end), setup_dir(env, c, arr, end)
    try:
        rc, o = env.run(["alsvinncli/alsvinncli", "config.xml"], cwd=d1)
        if rc != 0:
            return None
        opt = []
        for d, x in enumerate("xyz"):
            if c["p"][d] > 1:
                opt += ["-" + x] if c["short"] and c["p"][d] == np_ else ["--multi-" + x, c["p"][d]]
        rc, o = env.run(["alsvinncli/alsvinncli"] + opt + ["config.xml"], cwd=d2, np_=np_, timeout=60)
        check(rc == 0, lambda: "a run that succeeds on one process ends with status %s on %s: %s" % (
            rc, c["p"], o[-600:]), "refused")
        compare_files(c, d1, d2)
    finally:
        env.drop(d1)
        env.drop(d2)
    return "cli %s" % c["nd"]


@st.composite
def clis(draw):
    c = draw(cases(draw(st.sampled_from([2, 2, 3, 4])), True))
    c["short"] = draw(st.booleans())
    return c


@st.composite
def misfits(draw, np_):
    c = draw(cases(np_))
    c["funs"] = []
    c["wrong"] = draw(st.sampled_from(["rest", "thin", "count"]))
    k = draw(st.sampled_from([d for d in range(c["nd"]) if c["p"][d] > 1]))
    c["k"] = k
    if c["wrong"] == "rest":
        c["n"][k] += draw(st.integers(1, c["p"][k] - 1))
    elif c["wrong"] == "thin":
        c["n"][k] = c["p"][k] * draw(st.integers(1, max(1, gen.min_cells(c) - 1)))
    return c


def misfit(env, c, np_):
    """Refused by all processes, or (thin blocks) right."""
    arr = conf.prim_data(c)
    u = gen.data(c)
    p = list(c["p"])
    d1, d2 = None, None
    try:
        if c["wrong"] == "count":
            if np_ != 2:
                return None
            d1 = setup_dir(env, c, arr, 0.01)
            rc, o = env.run(["alsvinncli/alsvinncli", "--multi-x", 3, "config.xml"], cwd=d1, np_=2)
            check(rc not in (0, "timeout"), lambda: "three blocks on two processes: status %s" % rc,
                  "accepted")
            return "count"
        if c["wrong"] == "thin":
            try:
                end = end_time(env, c, u)
            except Refused:
                return None
            if end is None:
                return None
        else:
            end = 0.01
        d1, d2 = setup_dir(env, c, arr, end), setup_dir(env, c, arr, end)
        single = None
        if c["wrong"] == "thin":
            try:
                single = env.call("setup", file=d1 + "/config.xml", maxsteps=400)
            except Refused:
                return None
        r = env.srv(np_, timeout=40).call("setup", file=d2 + "/config.xml", px=p[0], py=p[1], pz=p[2],
                                          maxsteps=400)
        st_ = [r.s("status.%d" % q) for q in range(np_)]
        if c["wrong"] == "rest":
            check(st_ == ["err"] * np_, lambda: "%s cells over %s blocks: %s" % (c["n"], p, st_),
                  "accepted")
            return "rest"
        check(len(set(st_)) == 1, lambda: "thin blocks: processes disagree %s" % st_, "accepted")
        if st_[0] == "ok":
            compare_files(c, d1, d2)
            return "thin ok"
        return "thin refused"
    finally:
        for d in (d1, d2):
            if d:
                env.drop(d)


def make(np_, w, tier=None):
    return [Sub("blocks%d" % np_, cases(np_), lambda e, c: run(e, c, np_), w, tier, batch=80)]


SUBS = (make(2, 2) + make(4, 2) + make(3, 0.7) + make(6, 1, "thorough") + make(8, 1, "thorough") +
        [Sub("misfit", misfits(2), lambda e, c: misfit(e, c, 2), 0.5, batch=40),
         Sub("cli", clis(), cli, 1, batch=8)])
