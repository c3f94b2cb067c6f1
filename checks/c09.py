from vh.fw import *
from vh import gen, ref

ID = "C09"
TARGETS = ["alsh"]
RULE = ("A case is a grid, a ghost-layer width, a number of variables, a boundary condition and "
        "data in all cells (ghost cells poisoned); after one application every cell including "
        "edges and corners is compared with the image the condition prescribes. Or a "
        "run of a few steps with any scheme, whose states (the initial one included) have to satisfy the same. "
        "Non-trivial: some ghost cell has to change, respectively the run changes the state.")


@st.composite
def cases(draw):
    nd = draw(st.integers(1, 3))
    ng = draw(st.integers(1, 6 if nd < 3 else 4))
    hi = {1: 20, 2: 10, 3: 7}[nd]
    return dict(nd=nd, ng=ng, n=draw(gen.shape(nd, lo=max(1, ng - draw(st.integers(0, 1))),
                                               hi=max(hi, ng))),
                type=draw(st.sampled_from(["periodic", "neumann"])),
                eq=draw(st.sampled_from(["burgers", "euler1", "euler2", "euler3"])),
                s=draw(st.integers(0, 10 ** 6)), again=draw(st.booleans()))


def ev(env, c):
    ng, nv = c["ng"], gen.nvars(c["eq"])
    act = ref.active(c["n"])
    shp = tuple(c["n"][d] + 2 * ng * act[d] for d in (2, 1, 0))
    rng = np.random.default_rng(c["s"])
    full = rng.uniform(-5, 5, (nv,) + shp)
    full[:] = np.where(np.ones_like(full, bool), full, 0)
    u = ref.crop(full, ng, act).copy()
    refuse = any(act[d] and c["n"][d] < ng for d in range(3))
    kw = dict(eq=c["eq"], nx=c["n"][0], ny=c["n"][1], nz=c["n"][2], ng=ng, type=c["type"])
    try:
        r = env.call("boundary", {"full": full}, **kw)
        if c["again"]:
            r = env.call("boundary", {"full": r["full"]}, **kw)
    except Refused:
        check(refuse, "a grid with enough cells was refused", "refused")
        return "refused"
    check(not refuse, "a grid with fewer cells than ghost cells was accepted", "accepted")
    out = r["full"].reshape(full.shape)
    check(np.array_equal(ref.crop(out, ng, act), u), "an interior cell changed", "interior")
    e = ref.pad(u, ng, c["type"])
    bad = np.argwhere(out != e)
    check(not len(bad), lambda: "cell %s (variable, z, y, x with ghost cells) holds %r instead of "
          "%r" % (list(bad[0]), out[tuple(bad[0])], e[tuple(bad[0])]), "ghost")
    return "%s %dd %d" % (c["type"], c["nd"], ng)


@st.composite
def runs(draw):
    c = draw(gen.scheme())
    c["bc"] = draw(st.sampled_from(["periodic", "neumann"]))
    c["n"] = draw(gen.shape(c["nd"], lo=max(gen.min_cells(c), 1), hi={1: 24, 2: 9, 3: 6}[c["nd"]]))
    c["box"] = draw(gen.box(c["nd"]))
    c["f"] = draw(gen.field())
    if c["eq"].startswith("euler"):
        c["f"]["a"] = min(c["f"]["a"], 0.5)
        c["mach"] = draw(st.sampled_from([0.3, 1.0]))
    c["cfl"] = draw(st.sampled_from([0.45, 0.2]))
    c["steps"] = draw(st.integers(1, 4))
    return c


def ev_run(env, c):
    """Every state of a run, the initial one included."""
    u = gen.data(c)
    r = env.call("sim", {"u": u}, end=1e9, maxsteps=c["steps"], writers="full", **gen.args(c))
    ng = gen.nghost(c["flux"], c["recon"], c.get("diff", "none"), c.get("diffrecon", "none"))
    act = ref.active(c["n"])
    nv = gen.nvars(c["eq"])
    shp = tuple(c["n"][d] + 2 * ng * act[d] for d in (2, 1, 0))
    if not len(r["t0"]):
        return None
    check(r["s0"].size == len(r["t0"]) * nv * int(np.prod(shp)), lambda: "%d values in %d states of %s cells" % (
        r["s0"].size, len(r["t0"]), shp), "shape")
    s = r["s0"].reshape((len(r["t0"]), nv) + shp)
    for k in range(len(s)):
        if not np.all(np.isfinite(s[k])):
            return None
        e = ref.pad(ref.crop(s[k], ng, act).copy(), ng, c["bc"])
        bad = np.argwhere(s[k] != e)
        check(not len(bad), lambda: "after %d steps cell %s (variable, z, y, x with ghost cells) holds %r instead "
              "of %r" % (k, list(bad[0]), s[k][tuple(bad[0])], e[tuple(bad[0])]), "run")
    return "run %s %dd %s" % (c["bc"], c["nd"], c["integ"]) if len(s) > 1 and np.any(s[-1] != s[0]) else None


SUBS = [Sub("ghosts", cases(), ev), Sub("run", runs(), ev_run)]
TIME = dict(quick=25, thorough=300)
