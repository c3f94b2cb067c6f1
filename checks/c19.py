from vh.fw import *
from vh import gen, ref, conf, ens

ID = "C19"
TARGETS = ["alsh", "alshuq", "alsuqcli"]
WORKERS = 6
RULE = ("A case is an ensemble: a scheme, a grid of 1 to 3 dimensions, random parameters (several names, "
        "lengths, intervals, distributions) that blend two states, a number of samples and a first sample, "
        "one to four statistics with parameters and output times or time windows, and an optional output of "
        "the samples. The parameters of each sample come from an independent model of the random stream, each "
        "sample is run on its own from a configuration with fixed parameters, and every statistics file has "
        "to hold the mean over the samples of the definition of the statistic (for the variance: mean square "
        "minus squared mean) at its time; per-sample outputs have to hold the states of the sample. "
        "Non-trivial: at least two samples with different states.")


def close(got, want, tol, what):
    check(got.shape == want.shape, lambda: "%s: shape %s instead of %s" % (what, got.shape, want.shape),
          "shape")
    bad = ~(np.abs(got - want) <= tol)
    check(not bad.any(), lambda: "%s: %r instead of %r at %s" % (
        what, got[bad][0], want[bad][0], list(np.argwhere(bad)[0])), "value")


def compare(c, d, end, runs):
    names = conf.NAMES[c["eq"]]
    for k, s in enumerate(c["stats"]):
        want = ens.expected(c, s, end, runs)
        got = ens.stat_files(d, k, s)
        tol = 1e-10 * ens.magnitude(c, s, end, runs)
        if s["name"] == "functional_time_integrated":
            # whether a step at the very edge of the window counts is decided by rounding
            T, R = s["at"] * end, s["rad"] * end
            if any(abs(abs(x - T) - R) < 1e-9 * end for t, u in runs for x in t):
                continue
        for n in want:
            check(len(got[n]) == len(want[n]), lambda: "%s: %d outputs instead of %d (at times %s)" % (
                n, len(got[n]), len(want[n]), [t for t, v in got[n]]), "count")
            for (t, v), (tw, w) in zip(got[n], want[n]):
                check(abs(t - tw) <= 1e-9 * end, lambda: "%s: time %r instead of %r" % (n, t, tw), "time")
                check(sorted(v) == sorted(names), lambda: "%s: variables %s" % (n, sorted(v)), "names")
                for i, x in enumerate(names):
                    close(v[x], w[i], tol, "%s of %s at time %s (statistic %d, %d samples)" % (
                        n, x, tw, k, len(runs)))


def per_sample(c, d, end, runs):
    if not c["saves"]:
        return
    fs = conf.numbered(d, "o")
    check(sorted(fs) == list(range(c["saves"] + 1)), lambda: "outputs %s of %d saves" % (
        sorted(fs), c["saves"]), "samples")
    names = conf.NAMES[c["eq"]]
    for j in fs:
        v, _ = conf.read_nc_zyx(fs[j])
        want = {"time"} | {"sample_%d_%s" % (k, x) for k in ens.sample_range(c) for x in names}
        check(set(v) == want, lambda: "output %d holds %s" % (j, sorted(v)), "samples")
        for k, (t, u) in zip(ens.sample_range(c), runs):
            w = ens.at(t, u, j * end / c["saves"], end)
            for i, x in enumerate(names):
                close(v["sample_%d_%s" % (k, x)], w[i], 1e-12 * (1 + np.abs(w).max()),
                      "output %d, sample %d, %s" % (j, k, x))


def ev(env, c):
    try:
        end = ens.end_time(env, c)
    except Refused:
        return None
    if end is None:
        return None
    try:
        runs = [ens.single(env, c, end, k) for k in ens.sample_range(c)]
    except Refused:
        return None  # states that are not admissible and the like
    d = ens.write(env, c, end)
    try:
        if c.get("cli"):
            rc, o = env.run(["alsuqcli/alsuqcli", "config.xml"], cwd=d)
            check(rc == 0, lambda: "status %s: %s" % (rc, o[-500:]), "refused")
        else:
            r = env.uq("uqrun", file=os.path.join(d, "config.xml"))
            n = sum(len(t) - 1 for t, u in runs)
            check(int(r.s("steps")) == n, lambda: "%s steps instead of %d" % (r.s("steps"), n), "steps")
        compare(c, d, end, runs)
        per_sample(c, d, end, runs)
    finally:
        env.drop(d)
    differ = len(runs) > 1 and any(u[-1].shape == runs[0][1][-1].shape and np.any(
        u[-1] != runs[0][1][-1]) for t, u in runs[1:])
    return " ".join(sorted(set(s["name"] for s in c["stats"]))) if differ else None


@st.composite
def cli(draw):
    c = draw(ens.ensembles())
    c["cli"] = 1
    return c


def one(name):
    return Sub(name, ens.ensembles(stats=[name]), ev, 0.5, batch=20)


SUBS = [Sub("mixed", ens.ensembles(), ev, 3, batch=40)] + [one(n) for n in ens.STATS] + [
    Sub("cli", cli(), ev, 0.5, batch=10)]
