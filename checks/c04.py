from vh.fw import *
from vh import gen, ref

ID = "C04"
TARGETS = ["alsh"]
RULE = ("A case is a scheme, a grid, data, a step length and a symmetry: a cyclic shift, an "
        "exchange of axes (with the velocity components), a constant extension along a further "
        "axis, a mirror image (Burgers with u -> -u, Euler with the normal velocity reversed), the "
        "reflection u -> -u (cubic, linear) or u -> 1-u (Buckley-Leverett), or a change of the "
        "unit of length. The run of the transformed data is compared with the transformed run. "
        "Non-trivial: the data is moved by the transformation and the state changed.")
ASSUME = ["schemes with ENO reconstruction are given data without ties: equal differences leave "
          "the stencil to rounding or to the side taken on equality"]


@st.composite
def cases(draw, what):
    eqs = {"mirror": ["burgers", "euler1", "euler2", "euler3"],
           "flip": ["cubic", "linear", "buckleyleverett"],
           "axes": ["burgers", "buckleyleverett", "cubic", "linear", "euler2", "euler3"],
           "extend": ["burgers", "buckleyleverett", "cubic", "linear", "euler1", "euler2"],
           }.get(what)
    dims = {"axes": [2, 3], "extend": [1, 2]}.get(what, draw(st.sampled_from([[1], [2], [3]])))
    fl = None
    if what == "mirror":
        fl = ["hll", "hll3", "central", "rusanov", "godunov", "roe", "godunov4", "godunov6",
              "euler-tecno"]
    c = draw(gen.scheme(eqs=eqs, dims=dims))
    if what == "mirror" and c["eq"] == "burgers":
        # the logarithmic entropy is not symmetric
        if "tecno" in c["flux"]:
            c["flux"] = draw(st.sampled_from(["central", "rusanov", "godunov", "roe", "godunov4",
                                              "godunov6"]))
        c.pop("diff", None)
        c.pop("diffrecon", None)
    if what == "extend" and c["eq"].startswith("euler"):
        c.pop("diff", None)
        c.pop("diffrecon", None)
        if c["recon"] == "wenof2":
            c["recon"] = "weno2"
    if what == "flip" and c["flux"] == "godunov":
        # exact on [0,1] only
        c["recon"] = draw(st.sampled_from(["none", "mc", "mm"]))
        if c["eq"] == "buckleyleverett":
            c["integ"] = "forwardeuler"
    c["bc"] = "periodic" if what == "shift" else draw(st.sampled_from(["periodic", "neumann"]))
    lo = max(gen.min_cells(c), 3 if gen.has_eno(c) else 1)
    c["n"] = draw(gen.shape(c["nd"], lo=lo, hi={1: 24, 2: 8, 3: 5}[c["nd"]]))
    c["n"][0] = max(c["n"][0], 2 if c["nd"] > 1 else 1)
    c["box"] = draw(gen.box(c["nd"]))
    c["f"] = draw(gen.field(kinds=[k for k in gen.FIELD_KINDS if k not in ("const", "tiny")]))
    if c["f"]["a"] < 0.1:
        c["f"]["a"] = 0.5
    if c["eq"] == "burgers" and ("tecno" in c["flux"] or "diff" in c):
        c["rng"] = [0.4, 1.6]
    if c["eq"].startswith("euler"):
        c["mach"] = draw(st.sampled_from([0.3, 1.0]))
        c["f"]["a"] = min(c["f"]["a"], 0.5)
    if what == "mirror" and gen.has_eno(c):
        c["bc"] = "periodic"  # mirrored ghost cells make exact ties
    gen.untie(c)
    c["cfl"] = draw(st.sampled_from([0.3, 0.1]))
    c["steps"] = draw(st.integers(1, 3))
    c["by"] = [draw(st.integers(0, 30)) for _ in range(3)]
    c["perm"] = draw(st.permutations(range(c["nd"])))
    if what == "extend":
        c["m"] = [draw(st.integers(max(lo, 2), max(lo, 2) + 2)) for _ in range(2)]
        c["to"] = draw(st.integers(c["nd"] + 1, 3))
    if what == "scale":
        c["unit"] = draw(st.sampled_from([2.0, 0.125, 3.0, 1e3, 0.7, 1e-4]))
    return c


def go(env, c, u, dt):
    """-> times, states and whether it ended by itself; all steps of length dt."""
    kw = gen.args(c)
    kw["cfl"] = 0.9
    kw["writers"] = "raw;fixed,%s,1e300,1" % float(dt).hex()
    r = env.call("sim", {"u": u}, end=1e300, maxsteps=c["steps"], **kw)
    k = len(r["t0"])
    return r["t0"], r["s0"].reshape((k,) + u.shape), bool(r.s("failure"))


def pick_dt(env, cs):
    """A step length for which no run is limited by its CFL number."""
    dt = np.inf
    for c, u in cs:
        r = env.call("rhs", {"u": u}, mode="system", **gen.args(c))
        s = sum(r["ws"][d] / r["h"][d] for d in range(3) if c["n"][d] > 1 or d == 0)
        if not (s > 0 and np.isfinite(s)):
            return None
        dt = min(dt, c["cfl"] / s)
    return dt


def edges_clear(env, c, u, dt):
    """Are the reconstructed edge values of all stages of the step admissible?  ENO and WENO choose
    their stencils by the density alone and may leave the admissible states; minimum and maximum of
    NaN depend on the order of the arguments."""
    if not c["eq"].startswith("euler") or c["recon"] in ("none", "mc", "mm"):
        return True
    n = int(c["eq"][5])
    ok = []

    def f(y):
        with np.errstate(all="ignore"):
            ng = ref.RECON_GHOSTS[c["recon"]]
            e = ref.pad(np.asarray(y), ng, c["bc"])
            for d in range(c["nd"]):
                if d and c["n"][d] == 1:
                    continue
                for x in ref.reconstruct(c["recon"], e, d, c["eq"], c["gamma"]):
                    x = ref.crop(x, ng - 1, ref.active(c["n"]))  # one ghost cell has its stencil
                    rho, v, p = ref.prim(x, n, c["gamma"])
                    ok.append(bool(np.all(rho > 1e-6) and np.all(p > 1e-6)))
        if not all(ok):
            return y * np.nan
        q = env.call("rhs", {"u": np.array(y, dtype=float)}, mode="system", **gen.args(c))
        return (q["out"].reshape(u.shape) / q["h"][0]).astype(np.longdouble)

    ref.rk_step(c["integ"], f, u.astype(np.longdouble), np.longdouble(dt))
    return all(ok)


def compare(env, c, u, c2, u2, back, what):
    dt = pick_dt(env, [(c, u), (c2, u2)])
    if dt is None:
        return None
    t1, s1, f1 = go(env, c, u, dt)
    t2, s2, f2 = go(env, c2, u2, dt)
    k = min(len(t1), len(t2))
    if k < 2:
        return None
    # steps shortened further by the CFL condition may differ between the two
    same = np.abs(t1[:k] - t2[:k]) <= 1e-9 * dt
    k = int(np.argmin(same)) if not same.all() else k
    moved = False
    for i in range(1, k):
        if not np.all(np.isfinite(s1[i])) or np.max(np.abs(s1[i])) > 3 * np.max(np.abs(u)):
            break  # unstable: rounding is amplified
        if c["eq"] == "buckleyleverett" and c["flux"] == "godunov" and not (
                s1[i - 1].min() >= 0 and s1[i - 1].max() <= 1):
            break
        b = back(s2[i])
        scale = np.max(np.abs(s1[i]))
        if not edges_clear(env, c, s1[i - 1], dt):
            break
        e = np.max(np.abs(b - s1[i])) if np.all(np.isfinite(b)) else np.inf
        check(e <= 1e-10 * 10 ** i * scale, lambda: "%s changes the solution by %.3g after %d "
              "steps (values of size %.3g)" % (what, e, i, scale), "symmetry")
        moved = moved or np.max(np.abs(s1[i] - u)) > 1e-6 * scale
    if np.array_equal(u, u2) or not moved:
        return None
    return "%s %dd" % (c["eq"], c["nd"])


def shift(env, c):
    u = gen.data(c)
    by = [c["by"][d] % c["n"][d] for d in range(3)]

    def sh(a, sgn):
        return np.roll(a, [sgn * by[2], sgn * by[1], sgn * by[0]], axis=(1, 2, 3))
    return compare(env, c, u, c, sh(u, 1), lambda a: sh(a, -1), "a shift by %s" % by)


def axes(env, c):
    u = gen.data(c)
    p = list(c["perm"]) + list(range(c["nd"], 3))  # new axis k is old axis p[k]
    inv = [p.index(k) for k in range(3)]

    def tr(a, q):
        a = np.transpose(a, [0] + [1 + 2 - q[2 - k] for k in range(3)])
        if c["eq"].startswith("euler"):
            n = int(c["eq"][5])
            a = a[[0] + [1 + q[k] for k in range(n)] + [n + 1]]
        return a
    c2 = dict(c, n=[c["n"][p[k]] for k in range(3)],
              box=dict(lo=[c["box"]["lo"][p[k]] for k in range(3)],
                       hi=[c["box"]["hi"][p[k]] for k in range(3)]))
    u2 = tr(u, p)
    if "neumann" == c["bc"] and p == [0, 1, 2]:
        return None
    # the operator multiplies by the x cell length: it has to go to the new x
    return compare(env, c, u, c2, u2, lambda a: tr(a, inv), "the exchange of axes %s" % p)


def extend(env, c):
    u = gen.data(c)
    c2 = dict(c, nd=c["to"], n=list(c["n"]), box=dict(lo=list(c["box"]["lo"]),
                                                      hi=list(c["box"]["hi"])))
    a = u
    eq = c["eq"]
    to = c["to"]
    for d in range(c["nd"], to):
        c2["n"][d] = c["m"][d - 1]
        c2["box"]["lo"][d] = -0.5
        c2["box"]["hi"][d] = 0.7
        a = np.repeat(a, c2["n"][d], axis=3 - d)
        if eq.startswith("euler"):
            a = np.concatenate([a[:-1], np.zeros_like(a[:1]), a[-1:]])
    if eq.startswith("euler"):
        c2["eq"] = "euler%d" % to

    def back(b):
        for d in range(to - 1, c["nd"] - 1, -1):
            e = np.max(np.abs(b - b.take([0], axis=3 - d)))
            check(not e > 1e-9 * np.max(np.abs(b)), lambda: "data constant along axis %d becomes "
                  "uneven along it" % d, "symmetry")
            b = b.take([0], axis=3 - d)
        if eq.startswith("euler"):
            n = c["nd"]
            check(not np.max(np.abs(b[1 + n:-1])) > 1e-9 * np.max(np.abs(b)), "a constant extension "
                  "creates momentum along the new axis", "symmetry")
            b = np.concatenate([b[:1 + n], b[-1:]])
        return b
    return compare(env, c, u, c2, a, back, "a constant extension to %d dimensions" % to)


def mirror(env, c):
    u = gen.data(c)
    ds = [d for d in range(c["nd"]) if c["by"][d] % 2 or d == c["by"][2] % c["nd"]]

    def tr(a):
        a = a.copy()
        for d in ds:
            a = np.flip(a, 3 - d).copy()
            if c["eq"].startswith("euler"):
                a[1 + d] = -a[1 + d]
        return a
    if c["eq"] == "burgers":
        # u -> -u mirrors all axes at once
        ds = list(range(c["nd"]))
        return compare(env, c, u, c, -tr(u), lambda a: -tr(a), "mirroring")
    return compare(env, c, u, c, tr(u), tr, "mirroring axes %s" % ds)


def flip(env, c):
    u = gen.data(c)
    if c["eq"] == "buckleyleverett":
        return compare(env, c, u, c, 1 - u, lambda a: 1 - a, "u -> 1-u")
    return compare(env, c, u, c, -u, lambda a: -a, "u -> -u")


def scale(env, c):
    u = gen.data(c)
    k = c["unit"]
    c2 = dict(c, box=dict(lo=[k * x for x in c["box"]["lo"]], hi=[k * x for x in c["box"]["hi"]]))
    out = []
    for cc in (c, c2):
        r = env.call("sim", {"u": u}, end=1e300, maxsteps=c["steps"], **gen.args(cc))
        out.append((r["t0"], r["s0"].reshape((len(r["t0"]),) + u.shape)))
    (t1, s1), (t2, s2) = out
    n = min(len(t1), len(t2))
    for i in range(1, n):
        if not (np.isfinite(t1[i]) and np.all(np.isfinite(s1[i]))):
            break
        check(abs(t1[i] * k - t2[i]) <= 1e-8 * t2[i], lambda: "with lengths in other units (%g) the "
              "time after %d steps is %.17g, not %.17g" % (k, i, t2[i] / k, t1[i]), "symmetry")
        e = np.max(np.abs(s1[i] - s2[i])) / np.max(np.abs(s1[i]))
        check(e <= 1e-10 * 10 ** i, lambda: "with lengths in other units (%g) the solution differs "
              "by %.3g after %d steps" % (k, e, i), "symmetry")
    return "%s %dd" % (c["eq"], c["nd"]) if n > 1 else None


SUBS = [Sub("shift", cases("shift"), shift), Sub("axes", cases("axes"), axes),
        Sub("extend", cases("extend"), extend), Sub("mirror", cases("mirror"), mirror),
        Sub("flip", cases("flip"), flip, 0.5), Sub("scale", cases("scale"), scale, 0.5)]
