"""Runs the checks: generated cases (Hypothesis), an oracle per case, shrinking, replay, evidence.

A check is a list of Sub(name, strategy, evaluate, weight).  A strategy yields JSON-able
cases; evaluate(env, case) raises Violation when the property fails on the case, returns a
true value (a label) when the case was non-trivial and a false one otherwise.
"""
import argparse, hashlib, json, multiprocessing as mp, os, random, shutil, subprocess, sys
import tempfile, time, traceback, queue

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import numpy as np
import hypothesis
from hypothesis import strategies as st, given, settings, Phase, HealthCheck
from . import server as srv
from .server import Died, Refused, HarnessError

ROOT = srv.ROOT
REPO = os.environ.get("VH_REPO", "/repo")
np.seterr(all="ignore")


class Violation(Exception):
    """key: names the kind of failure, to tell known findings from new ones."""

    def __init__(self, msg, key=None):
        Exception.__init__(self, msg)
        self.key = key


def check(cond, msg, key=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, key)


class Sub:
    def __init__(self, name, strategy, evaluate, weight=1.0, tier=None, batch=60, procs=None,
                 solo=False):
        self.name, self.strategy, self.evaluate = name, strategy, evaluate
        self.weight, self.tier, self.batch, self.solo = weight, tier, batch, solo


class Env:
    """What an evaluation may use: servers of the code under test and a scratch directory."""

    def __init__(self, build):
        self.build = build
        self.tmp = tempfile.mkdtemp(prefix="vh.", dir=os.environ.get("VH_SCRATCH", "/tmp"))
        self.servers = {}
        self.n = 0

    def srv(self, np_=1, threads=1, exe="alsh", timeout=60, build=None, **env):
        key = (np_, threads, exe, timeout, build, tuple(sorted(env.items())))
        if key not in self.servers:
            if np_ > 1:  # keep at most one parallel group around
                for k in [k for k in self.servers if k[0] > 1]:
                    self.servers.pop(k).stop()
            self.servers[key] = srv.Server(build or self.build, np_, threads, exe, timeout,
                                           cwd=self.tmp, env=env)
        return self.servers[key]

    def call(self, op, arrays=None, **kv):
        return self.srv().call(op, arrays, **kv)

    def uq(self, op, arrays=None, **kv):
        return self.srv(exe="alshuq").call(op, arrays, **kv)

    def dir(self):
        self.n += 1
        d = os.path.join(self.tmp, "d%d" % self.n)
        os.makedirs(d)
        return d

    def drop(self, d):
        assert d.startswith(self.tmp + "/")
        shutil.rmtree(d, ignore_errors=True)

    def run(self, argv, cwd=None, np_=1, timeout=60, env=None):
        """Runs a program of the build; returns (status, output). 'timeout' as status on expiry."""
        cmd = [os.path.join(self.build, argv[0]) if not argv[0].startswith("/") else argv[0]]
        cmd += [str(a) for a in argv[1:]]
        if np_ > 1:
            cmd = srv.MPIRUN + ["-np", str(np_)] + cmd
        e = srv.base_env(1)
        if np_ > 1:
            del e["MALLOC_PERTURB_"]
        e.update(env or {})
        p = subprocess.Popen(cmd, cwd=cwd or self.tmp, env=e, stdin=subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                             start_new_session=True)
        srv.started(p.pid)
        try:
            out, _ = p.communicate(timeout=timeout)
            return p.returncode, out.decode("utf8", "replace")
        except subprocess.TimeoutExpired:
            srv.kill_sessions({p.pid})
            p.communicate()
            return "timeout", ""

    def close(self):
        for s in self.servers.values():
            s.stop()
        self.servers = {}
        shutil.rmtree(self.tmp, ignore_errors=True)


def evaluate(sub, env, case):
    """True outcome of one case: (label or None, Violation or None)."""
    try:
        return sub.evaluate(env, case), None
    except Violation as v:
        return None, v
    except Died as d:
        return None, Violation("the process running the code ended: %s" % d, "died")
    except Refused as r:
        return None, Violation("a valid request was answered with an error: %s" % r, "refused")


def digest(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True).encode()).hexdigest()[:12]


class Known:
    def __init__(self, prop):
        self.entries = []
        p = os.path.join(ROOT, "known_findings.json")
        if os.path.exists(p):
            self.entries = [e for e in json.load(open(p))["findings"] if e["property"] == prop]

    def covers(self, sub, case, key):
        for e in self.entries:
            if e["sub"] == sub and e.get("key") == key and e.get("key") is not None:
                if all(case.get(k) in v if isinstance(v, list) else case.get(k) == v
                       for k, v in e.get("where", {}).items()):
                    return e
        return None


class Stop(Exception):
    pass


def search(sub, env, seed, n, end, known, report, shrink_s, tell):
    """One Hypothesis search of n cases. report: dict of counters. Returns failing (case, msg, key)."""
    best = {}
    t_fail = [None]
    stopped = []

    def body(case):
        now = time.time()
        if t_fail[0] is None and now > end:
            stopped.append(1)
            raise Stop
        if t_fail[0] is not None and now > t_fail[0] + shrink_s:
            if digest(case) != best["d"]:
                return
        label, v = evaluate(sub, env, case)
        report["n"] += 1
        if v is None:
            if label:
                d = digest(case)
                report["seen"].add(d)
                report["labels"][str(label)] = report["labels"].get(str(label), 0) + 1
                if len(report["samples"]) < 2:
                    report["samples"].append(case)
            return
        e = known.covers(sub.name, case, v.key)
        if e:
            report["known"][e["id"]] = report["known"].get(e["id"], 0) + 1
            return
        if t_fail[0] is None:
            t_fail[0] = time.time()
            tell((case, str(v), v.key))  # in case the search for a smaller one does not end in time
        best.update(case=case, d=digest(case), msg=str(v), key=v.key)
        raise v

    f = hypothesis.seed(seed)(settings(
        max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
        phases=[Phase.generate, Phase.shrink], print_blob=False,
        suppress_health_check=list(HealthCheck))(given(sub.strategy)(body)))
    try:
        f()
    except Stop:
        pass
    except HarnessError:
        raise
    except BaseException:
        if not best and not stopped:
            raise
    return (best["case"], best["msg"], best["key"]) if best else None


def worker(mod, idx, nworkers, build, seed, end, tier, q, shrink_s, only):
    env = Env(build)
    sys.stdout = sys.stderr = open(os.devnull, "w")
    try:
        subs = [s for s in mod.SUBS if (s.tier is None or s.tier == tier)
                and (only is None or s.name in only)]
        known = Known(mod.ID)
        reports = {s.name: dict(n=0, seen=set(), labels={}, samples=[], known={}, t=0.0)
                   for s in subs}
        used = {s.name: 0.0 for s in subs}
        rnd = 0
        # every worker starts at another sub so that all are reached early
        order = subs[idx % len(subs):] + subs[:idx % len(subs)]
        bad = set()
        while time.time() < end:
            s = min(order, key=lambda s: (used[s.name] / s.weight, order.index(s)))
            n = s.batch if rnd >= len(order) else max(5, s.batch // 4)
            sd = int(hashlib.sha1(("%d/%s/%d/%d" % (seed, s.name, idx, rnd)).encode())
                     .hexdigest()[:8], 16)
            rnd += 1
            t0 = time.time()
            res = search(s, env, sd, n, end, known, reports[s.name], shrink_s,
                         lambda v: q.put(("first", s.name) + v))
            dt = time.time() - t0
            used[s.name] += max(dt, 1e-3)
            reports[s.name]["t"] += dt
            if res:
                q.put(("violation", s.name) + res)
                break
        q.put(("report", {k: dict(v, seen=list(v["seen"])) for k, v in reports.items()}))
    except BaseException:
        q.put(("error", traceback.format_exc()))
    finally:
        env.close()


def do_build(targets, where, flags=None, extra_env=None):
    env = dict(os.environ)
    env["VH_TARGETS"] = " ".join(targets)
    if flags:
        env["VH_CXXFLAGS"] = flags
    env.update(extra_env or {})
    p = subprocess.run(["bash", os.path.join(ROOT, "harness/build.sh"), where], env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        sys.stdout.write(p.stdout.decode("utf8", "replace")[-4000:])
        print("ERROR: the code under test or the harness does not build")
        sys.exit(2)


def main(mod):
    t_start = time.time()
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--time", type=float, help="seconds of search")
    ap.add_argument("--workers", type=int)
    ap.add_argument("--sub", action="append")
    ap.add_argument("--no-build", action="store_true")
    ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    kind = getattr(mod, "BUILD", "rel")  # a build with other flags goes to a directory of its own
    build = os.environ.get("VH_BUILD" if kind == "rel" else "VH_BUILD_" + kind.upper(),
                           os.path.join(ROOT, "build", kind))
    if not a.no_build:
        do_build(mod.TARGETS, build, getattr(mod, "FLAGS", None))
    if a.build_only:
        return 0
    if hasattr(mod, "prepare"):
        mod.prepare(tier, a)
    t_build = time.time() - t_start
    subs = {s.name: s for s in mod.SUBS}
    if a.replay:
        rep = json.load(open(a.replay))
        env = Env(build)
        _, v = evaluate(subs[rep["sub"]], env, rep["case"])
        env.close()
        if v is None:
            print("the recorded case does not fail")
            return 0
        print("%s: %s" % (rep["sub"], v))
        print("VIOLATION property=%s replay=%s" % (mod.ID, a.replay))
        return 1
    budget = a.time or getattr(mod, "TIME", {}).get(tier) or (40 if tier == "quick" else 600)
    nw = a.workers or getattr(mod, "WORKERS", 8)
    end = time.time() + budget
    q = mp.Queue()
    ps = [mp.Process(target=worker, args=(mod, i, nw, build, a.seed, end, tier, q,
                                          getattr(mod, "SHRINK", 20), a.sub))
          for i in range(nw)]
    for p in ps:
        p.start()
    reports, violations, errors, left, early = [], [], [], nw, []
    hard = end + 200
    first = None
    while left and time.time() < hard:
        if first and time.time() > first + 12:
            break
        try:
            m = q.get(timeout=1)
        except queue.Empty:
            if not any(p.is_alive() for p in ps) and q.empty():
                break
            continue
        if m[0] == "report":
            reports.append(m[1])
            left -= 1
        elif m[0] == "first":
            early.append(m[1:])
            if hard > time.time() + 150:
                hard = time.time() + 150
        elif m[0] == "violation":
            violations.append(m[1:])
            first = first or time.time()
        else:
            errors.append(m[1])
            left -= 1
    for p in ps:
        if p.is_alive():
            p.terminate()
    for p in ps:
        p.join(5)
        if p.is_alive():
            p.kill()
    violations = violations or early
    # a violation counts when a fresh process reproduces it every time
    confirmed, env, t_conf = [], None, time.time()
    for name, case, msg, key in sorted(violations, key=lambda v: len(json.dumps(v[1])))[:4]:
        ok = True
        if confirmed and time.time() > t_conf + 30:
            break
        for k in range(3):
            env = Env(build)
            _, v = evaluate(subs[name], env, case)
            env.close()
            ok = ok and v is not None
        if not ok and getattr(subs[name], "flaky_is_violation", False):
            ok = True
        if ok:
            confirmed.append((name, case, msg, key))
    # known findings still present?
    for e in Known(mod.ID).entries:
        if "case" in e:
            env = Env(build)
            _, v = evaluate(subs[e["sub"]], env, e["case"])
            env.close()
            if v is not None:
                print("KNOWN-FINDING: property=%s %s" % (mod.ID, e["what"]))
    tot = dict(n=0, seen=set(), samples=[], per={})
    for r in reports:
        for k, v in r.items():
            per = tot["per"].setdefault(k, dict(evaluations=0, nontrivial=set(), labels={},
                                               seconds=0.0, known={}))
            per["evaluations"] += v["n"]
            per["nontrivial"] |= set(v["seen"])
            per["seconds"] += v["t"]
            for l, c in v["labels"].items():
                per["labels"][l] = per["labels"].get(l, 0) + c
            for l, c in v["known"].items():
                per["known"][l] = per["known"].get(l, 0) + c
            if len([s for s in tot["samples"] if s["sub"] == k]) < 2:
                tot["samples"] += [dict(sub=k, case=c) for c in v["samples"][:1]]
    nontriv = sum(len(p["nontrivial"]) for p in tot["per"].values())
    per = {k: dict(evaluations=p["evaluations"], distinct_nontrivial=len(p["nontrivial"]),
                   cpu_s=round(p["seconds"], 1), labels=dict(sorted(
                       p["labels"].items(), key=lambda x: -x[1])[:30]),
                   **({"known": p["known"]} if p["known"] else {}))
           for k, p in sorted(tot["per"].items())}
    ev = dict(property=mod.ID, tier=tier, seed=a.seed, level="exploration",
              coverage=dict(evaluations=sum(p["evaluations"] for p in per.values()),
                            distinct_nontrivial=nontriv, rule=mod.RULE,
                            samples=[trim(s) for s in tot["samples"]], per_check=per,
                            build_s=round(t_build, 1)),
              wall_s=round(time.time() - t_start, 1), violations=len(confirmed))
    if getattr(mod, "ASSUME", None):
        ev["assumptions"] = mod.ASSUME
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", mod.ID + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if confirmed:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        for name, case, msg, key in confirmed[:3]:
            path = os.path.join("replays", "%s-%s-%s.json" % (mod.ID, name, digest(case)))
            with open(os.path.join(ROOT, path), "w") as f:
                json.dump(dict(property=mod.ID, sub=name, case=case, message=msg, key=key), f,
                          indent=1)
            print("%s: %s" % (name, msg))
            print("VIOLATION property=%s replay=%s" % (mod.ID, path))
        return 1
    for name, case, msg, key in violations:
        print("not reproduced: %s %s %s" % (name, msg, json.dumps(case)))
    if errors:
        print(errors[0])
        print("ERROR: %d workers failed" % len(errors))
        return 2
    print("%s: %d cases, %d distinct non-trivial, build %.0f s, total %.0f s" % (
        mod.ID, ev["coverage"]["evaluations"], nontriv, t_build, time.time() - t_start))
    return 0


def trim(x, depth=0):
    if isinstance(x, list) and len(x) > 24:
        return x[:24] + ["... %d more" % (len(x) - 24)]
    if isinstance(x, list):
        return [trim(y) for y in x]
    if isinstance(x, dict):
        return {k: trim(v) for k, v in x.items()}
    return x


def run(mod):
    """Everything the check writes besides the build, evidence and replays lies in one directory."""
    top = tempfile.mkdtemp(prefix="vh.", dir=os.environ.get("VH_SCRATCH", "/tmp"))
    os.environ["VH_SCRATCH"] = top
    try:
        rc = main(mod)
    finally:
        srv.end_sessions(top)
        shutil.rmtree(top, ignore_errors=True)
    sys.exit(rc)
