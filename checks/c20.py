from vh.fw import *
from vh import gen, ref, conf, ens

ID = "C20"
TARGETS = ["alsh", "alshuq", "alsuqcli"]
WORKERS = 4
RULE = ("A case is an ensemble (as in C19) and a division of 2, 3 or 4 (thorough: 6, 8) processes over "
        "samples and space. The run on one process and the divided run have to leave the same statistics "
        "and sample files: all of them when only samples are divided, the cell-by-cell ones (mean, variance, "
        "moments, pointwise functionals) and sums of integrals when space is divided as well, where the other "
        "statistics hold the values of each block or are refused. balance: for random ranges of samples, every "
        "index is given to exactly one group of processes and to all of its members. misfit: divisions that "
        "do not fit are refused by all processes. Non-trivial: at least two groups of processes and samples "
        "that differ.")


def layouts(np_, nd):
    out = []
    for ms in range(1, np_ + 1):
        for px in range(1, np_ + 1):
            for py in range(1, np_ + 1):
                if np_ % (ms * px * py):
                    continue
                pz = np_ // (ms * px * py)
                if (py > 1 and nd < 2) or (pz > 1 and nd < 3):
                    continue
                out.append([ms, px, py, pz])
    return out


@st.composite
def cases(draw, np_):
    c = draw(gen.scheme(dims=draw(st.sampled_from([[1], [1], [2], [2], [3]]))))
    L = layouts(np_, c["nd"])
    lay = draw(st.sampled_from(L + [l for l in L if l[0] == np_] * 2 + [l for l in L if l[0] > 1]))
    c = draw(ens.ensembles(scheme=c, p=lay[1:], samples=st.integers(1, 4).map(lambda k: k * lay[0])))
    c["layout"] = lay
    return c


def variables(path):
    v, _ = conf.read_nc_zyx(path)
    return v


CELLWISE = ("mean", "variance", "m1", "m2", "m3", "m4", "mean_moment", "mean_identity")


def compare(c, d1, d2, mag):
    a = sorted(os.path.basename(p) for p in conf.glob.glob(os.path.join(d1, "*.nc")))
    b = sorted(os.path.basename(p) for p in conf.glob.glob(os.path.join(d2, "*.nc")))
    check(a == b, lambda: "files %s instead of %s" % (b, a), "files")
    p = c["layout"][1:]
    divided = p != [1, 1, 1]
    for f in a:
        x, y = variables(os.path.join(d1, f)), variables(os.path.join(d2, f))
        check(sorted(x) == sorted(y), lambda: "%s: variables %s instead of %s" % (f, sorted(y), sorted(x)),
              "files")
        stem = f.rsplit("_", 1)[0]
        k = int(stem[1:].split("_")[0]) if stem[0] == "s" else None
        name = stem.split("_", 1)[1] if k is not None else "o"
        s = c["stats"][k] if k is not None else None
        if s is not None and s["name"] == "functional_time_integrated":
            T, R, end = s["at"], s["rad"], 1.0
            if c["edge"](s):
                continue
        tol = 1e-9 * (mag[k] if k is not None else 1.0)
        for v in x:
            if v == "time":
                check(abs(float(x[v].ravel()[0]) - float(y[v].ravel()[0])) <= 1e-9 * (1 + abs(
                    float(x[v].ravel()[0]))), lambda: "%s: time %r instead of %r" % (f, y[v], x[v]), "time")
                continue
            if divided and name not in CELLWISE and name != "o":
                blocks = tuple(p[::-1])
                want = tuple(np.array(x[v].shape) * blocks)
                check(y[v].shape == want, lambda: "%s: shape %s instead of %s (values of each block)" % (
                    f, y[v].shape, want), "shape")
                check(bool(np.all(np.isfinite(y[v])) and np.all(np.abs(y[v]) < 9e36)),
                      lambda: "%s: some blocks were not written" % f, "block")
                if name == "mean_log_entropy":
                    check(np.all(np.abs(y[v].sum() - x[v].sum()) <= tol * 10), lambda: "%s: the blocks of %s "
                          "add up to %r instead of %r" % (f, v, y[v].sum(), x[v].sum()), "value")
                continue
            check(x[v].shape == y[v].shape, lambda: "%s: shape of %s %s instead of %s" % (
                f, v, y[v].shape, x[v].shape), "shape")
            t = tol if k is not None else 1e-9 * (1 + np.abs(x[v]).max())
            bad = ~(np.abs(x[v] - y[v]) <= t)
            check(not bad.any(), lambda: "%s of %s: %r instead of %r on one process, at %s" % (
                v, f, y[v][bad][0], x[v][bad][0], list(np.argwhere(bad)[0])), "differs")


def untouched(env, c, end):
    """Time integrals that see no step of any sample: what they would do is not asked."""
    out = []
    for s in c["stats"]:
        if s["name"] == "functional_time_integrated":
            T, R = s["at"] * end, s["rad"] * end
            if not any(abs(x - T) <= R * (1 + 1e-8) + 1e-8 * end for k in ens.sample_range(c)
                       for x in ens.single(env, c, end, k)[0] if x > 0):
                out.append(s)
    return out


def refused_by_design(c):
    """Statistics that need the neighbours along a divided direction."""
    p = c["layout"][1:]
    for s in c["stats"]:
        f = s["functionalName"] if s["name"].startswith("functional") else s["name"]
        if f == "structure_cube" and p != [1, 1, 1]:
            return True
        if f == "structure_basic" and p[s["direction"]] > 1:
            return True
        if f == "structure_2pt" and (p[s["direction1"]] > 1 or p[s["direction2"]] > 1):
            return True
    return False


def ev(env, c, np_):
    try:
        end = ens.end_time(env, c)
    except Refused:
        return None
    if end is None:
        return None
    d1, d2 = ens.write(env, c, end), ens.write(env, c, end)
    try:
        try:
            env.uq("uqrun", file=os.path.join(d1, "config.xml"))
        except Refused:
            return None
        runs = [ens.single(env, c, end, ens.sample_range(c)[0])]
        mag = [ens.magnitude(c, s, end, runs) for s in c["stats"]]
        t0 = runs[0][0]
        ms, px, py, pz = c["layout"]
        if any(refused_by_design(dict(c, stats=[s])) for s in untouched(env, c, end)):
            return None
        cc = dict(c, edge=lambda s: edge(env, c, s, end))
        if c.get("cli"):
            rc, o = env.run(["alsuqcli/alsuqcli", "--multi-sample", ms, "--multi-x", px, "--multi-y", py,
                             "--multi-z", pz, "config.xml"], cwd=d2, np_=np_, timeout=60)
            if refused_by_design(c):
                check(rc not in (0, "timeout"), lambda: "unsupported statistic: status %s" % rc, "accepted")
                return "cli refused"
            check(rc == 0, lambda: "status %s on %s: %s" % (rc, c["layout"], o[-500:]), "refused")
        else:
            r = env.srv(np_, exe="alshuq").call("uqrun", file=os.path.join(d2, "config.xml"), ms=ms, px=px,
                                                py=py, pz=pz)
            sts = [r.s("status.%d" % q) for q in range(np_)]
            if refused_by_design(c):
                check("ok" not in sts, lambda: "unsupported statistic: %s" % sts, "accepted")
                return "refused"
            for q in range(np_):
                check(sts[q] == "ok", lambda: "process %d of %s: %s" % (q, c["layout"], r.kv.get(
                    "what.%d" % q)), "refused")
        compare(cc, d1, d2, mag)
    finally:
        env.drop(d1)
        env.drop(d2)
    return "%s %s" % (c["layout"], " ".join(sorted(set(s["name"] for s in c["stats"]))))


def edge(env, c, s, end):
    """Whether a step of some sample ends at the very edge of the window."""
    T, R = s["at"] * end, s["rad"] * end
    for k in ens.sample_range(c):
        t, u = ens.single(env, c, end, k)
        if any(abs(abs(x - T) - R) < 1e-8 * end for x in t):
            return True
    return False


@st.composite
def clis(draw):
    c = draw(cases(draw(st.sampled_from([2, 4]))))
    c["cli"] = 1
    return c


def ev_cli(env, c):
    return ev(env, c, int(np.prod(c["layout"])))


@st.composite
def balances(draw, np_):
    lay = draw(st.sampled_from(layouts(np_, 3)))
    n = draw(st.integers(0, 12)) * lay[0]
    wrong = draw(st.sampled_from([None, None, None, "samples", "processes"]))
    if wrong == "samples":
        if lay[0] == 1:
            wrong = None
        else:
            n += draw(st.integers(1, lay[0] - 1))
    if wrong == "processes":
        k = draw(st.integers(0, 3))
        lay = list(lay)
        lay[k] += draw(st.sampled_from([1, 2]))
    return dict(layout=lay, samples=n, start=draw(st.sampled_from([0, 1, 7, 1000])), wrong=wrong)


def ev_balance(env, c, np_):
    ms, px, py, pz = c["layout"]
    r = env.srv(np_, exe="alshuq").call("balance", samples=c["samples"], start=c["start"], ms=ms, px=px, py=py, pz=pz)
    sts = [r.s("status.%d" % q) for q in range(np_)]
    if c["wrong"]:
        check(sts == ["err"] * np_, lambda: "%s processes, %s samples over %s: %s" % (
            np_, c["samples"], c["layout"], sts), "accepted")
        return "wrong " + c["wrong"]
    check(sts == ["ok"] * np_, lambda: "%s samples over %s: %s" % (c["samples"], c["layout"], sts), "refused")
    groups = {}
    sp = px * py * pz
    for q in range(np_):
        a, na, b, nb = r["ranks.%d" % q].astype(int)
        check(na == ms and nb == sp and 0 <= a < ms and 0 <= b < sp, lambda: "process %d: group %d of %d, member "
              "%d of %d" % (q, a, na, b, nb), "ranks")
        groups.setdefault(a, {})[b] = list(r["mine.%d" % q].astype(int))
    check(len(groups) == ms and all(len(g) == sp for g in groups.values()), lambda: "groups %s" % groups, "ranks")
    every = []
    for g in groups.values():
        m = list(g.values())
        check(all(x == m[0] for x in m), lambda: "members of a group have different samples %s" % m, "members")
        every += m[0]
    check(sorted(every) == list(range(c["start"], c["start"] + c["samples"])),
          lambda: "samples %s" % sorted(every), "once")
    return "balance" if c["samples"] > ms > 1 else None


@st.composite
def misfits(draw, np_):
    c = draw(cases(np_))
    c["wrong"] = draw(st.sampled_from(["samples", "processes"]))
    if c["wrong"] == "samples":
        c["layout"] = [np_, 1, 1, 1]
        c["samples"] = np_ * draw(st.integers(0, 3)) + draw(st.integers(1, np_ - 1))
    else:
        c["layout"] = draw(st.sampled_from([[np_ + 1, 1, 1, 1], [1, 1, 1, 1], [np_, 2, 1, 1], [1, np_ * 2, 1, 1]]))
        c["samples"] = c["layout"][0] * 2
    return c


def ev_misfit(env, c, np_):
    d = ens.write(env, c, 0.01)
    ms, px, py, pz = c["layout"]
    try:
        if c["wrong"] == "processes":
            rc, o = env.run(["alsuqcli/alsuqcli", "--multi-sample", ms, "--multi-x", px, "--multi-y", py,
                             "--multi-z", pz, "config.xml"], cwd=d, np_=np_, timeout=40)
            check(rc not in (0, "timeout"), lambda: "%s on %d processes: status %s" % (c["layout"], np_, rc),
                  "accepted")
        else:
            r = env.srv(np_, exe="alshuq").call("uqrun", file=os.path.join(d, "config.xml"), ms=ms)
            sts = [r.s("status.%d" % q) for q in range(np_)]
            check(sts == ["err"] * np_, lambda: "%d samples on %d processes: %s" % (c["samples"], np_, sts),
                  "accepted")
        check(not conf.glob.glob(os.path.join(d, "*.nc")), "files were written", "files")
    finally:
        env.drop(d)
    return "misfit " + c["wrong"]


def make(np_, w, tier=None):
    return [Sub("split%d" % np_, cases(np_), lambda e, c: ev(e, c, np_), w, tier, batch=40)]


SUBS = (make(2, 2) + make(4, 3) + make(3, 0.7) + make(6, 1, "thorough") + make(8, 1, "thorough") +
        [Sub("balance4", balances(4), lambda e, c: ev_balance(e, c, 4), 0.5),
         Sub("balance2", balances(2), lambda e, c: ev_balance(e, c, 2), 0.3),
         Sub("misfit2", misfits(2), lambda e, c: ev_misfit(e, c, 2), 0.3, batch=10),
         Sub("cli", clis(), ev_cli, 0.5, batch=8)])
