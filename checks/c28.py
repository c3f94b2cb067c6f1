import glob
import importlib
import re
from vh.fw import *

ID = "C28"
TARGETS = ["alsh", "alshuq", "vhplug", "alsvinncli", "alsuqcli"]
BUILD = "asan"
FLAGS = ("-O1 -g1 -DNDEBUG -fsanitize=address,undefined -fno-sanitize=vptr -fno-sanitize-recover=all "
         "-D_GLIBCXX_ASSERTIONS -DVH_TRAP -fno-omit-frame-pointer")
RULE = ("The cases of the other checks (runs of every equation, scheme, grid, boundary, writer, functional, sampling "
        "and statistics, valid and invalid configurations, containers, decompositions over 1, 2 and 4 processes) are "
        "generated again and carried out by a build with the address and undefined-behaviour sanitizers and the "
        "bounds assertions of the standard library. Whatever the outcome of the request, no process may report an "
        "invalid memory access or undefined behaviour. Non-trivial: the case is non-trivial for the check it comes "
        "from and was carried out to the end.")
TIME = dict(quick=90, thorough=1200)
# subs that use only the servers (the programs themselves are the subject of the other checks)
FROM = dict(
    c01=["operator", "run"], c02=["operator", "run"], c03=["data", "pairs", "reconstructed"],
    c04=["axes", "extend", "mirror"], c05=["bounds"], c06=["run"], c07=["tableau"], c08=["steps"], c09=["ghosts", "run"],
    c10=["scheme"], c11=["schedule"], c12=["writers", "groups"], c13=["blocks2", "blocks4", "misfit"],
    c14=["histories"], c15=["script", "history", "length", "mpi2"], c16=["states", "grids"],
    c17=["honoured", "refused"], c18=["direct", "run"], c19=["mixed"], c20=["split2", "split4", "misfit2"],
    c21=["generator", "seen", "seen2", "plugin", "bad"], c22=["programs"], c23=["blocks2", "blocks4", "blocks6"],
    c25=["direct", "run", "run2"], c26=["conserve", "positive"], c27=["riemann"])
WEIGHT = dict(c12=2, c13=2, c15=1.5, c17=2, c18=2, c19=2, c20=2, c22=2, c25=1.5, c27=.3, c23=1.5, c10=1.5)


def reports(d):
    out = []
    for f in sorted(glob.glob(os.path.join(d, "san.*"))):
        with open(f, errors="replace") as h:
            t = h.read()
        os.remove(f)
        m = re.search(r"SUMMARY: [^\n]*|runtime error: [^\n]*|ERROR: [^\n]*", t)
        if m:
            fr = [re.sub(r"^.*? in ", "", l).strip() for l in t.split("\n") if re.match(r"\s*#\d+ .* in ", l)]
            own = [l for l in fr if "als" in l][:3]
            out.append(m.group(0).strip() + " | " + " < ".join(own))
    return out


def wrap(name, subs):
    by = {s.name: s for s in subs}

    def ev(env, case):
        opt = "detect_leaks=0:max_malloc_fill_size=1000000000:malloc_fill_byte=127:log_path=%s/san:alloc_dealloc_mismatch=0:abort_on_error=0:handle_sigill=1" % env.tmp
        if os.environ.get("ASAN_OPTIONS") != opt:
            os.environ["ASAN_OPTIONS"] = opt
            os.environ["UBSAN_OPTIONS"] = "print_stacktrace=1:log_path=%s/san" % env.tmp
        label = None
        try:
            label = by[case["sub"]].evaluate(env, case["case"])
        except (Violation, Refused, Died):
            pass  # what the answer is, is decided by the check the case comes from
        r = reports(env.tmp)
        check(not r, lambda: "%s %s: %s" % (name, case["sub"], "; ".join(sorted(set(r)))[:1500]), "memory")
        if label:
            return case["sub"]

    strat = st.one_of([s.strategy.map(lambda c, n=s.name: dict(sub=n, case=c)) for s in subs])
    return Sub(name, strat, ev, WEIGHT.get(name, 1), batch=16)


SUBS = []
for _m, _names in FROM.items():
    _s = [s for s in importlib.import_module(_m).SUBS if s.name in _names]
    assert len(_s) == len(_names), (_m, _names)
    SUBS.append(wrap(_m, _s))
