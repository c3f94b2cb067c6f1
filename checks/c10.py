from vh.fw import *
from vh import gen, ref

ID = "C10"
TARGETS = ["alsh"]
RULE = ("A case is a reconstruction, an equation, a grid, a direction and generated data; the two "
        "edge values of every cell the scheme reconstructs are compared with the scheme computed "
        "in extended precision (scheme), or with what polynomials, locality, shift, scaling, "
        "mirroring and limiting imply (relations). Non-trivial: the data vary along the "
        "direction.")
LD = np.longdouble
POLY = dict(none=1, eno2=2, eno3=3, eno4=4, weno2=2, weno3=3, mc=1, mm=1, wenof2=1)
REACH = dict(none=0, eno2=1, eno3=2, eno4=3, weno2=1, weno3=2, mc=1, mm=1, wenof2=1)


@st.composite
def base(draw, euler=True):
    rec = draw(st.sampled_from(list(gen.RECON)))
    eqs = gen.EULER if rec == "wenof2" else gen.EQS if euler else gen.SCALAR
    eq = draw(st.sampled_from(eqs))
    nd = draw(st.sampled_from(gen.eq_dims(eq)))
    c = dict(eq=eq, nd=nd, recon=rec, bc=draw(st.sampled_from(["periodic", "neumann"])))
    c["n"] = draw(gen.shape(nd, lo=gen.RECON[rec], hi={1: 16, 2: 9, 3: 6}[nd]))
    if eq.startswith("euler"):
        c["gamma"] = draw(gen.GAMMA)
        c["mach"] = draw(gen.MACH)
    c["dir"] = draw(st.integers(0, nd - 1))
    return c


@st.composite
def scheme(draw):
    c = draw(base())
    c["f"] = draw(gen.field())
    c["twice"] = draw(st.booleans())
    return c


def call(env, c, u, u0=None):
    a = {"u": u}
    kw = gen.args(c, dir=c["dir"], poison=1e300)
    if u0 is not None:
        a["u0"] = u0
        kw["twice"] = 1
    r = env.call("recon", a, **kw)
    ng = r.i("ng")
    check(ng == gen.RECON[c["recon"]], "number of ghost cells %d" % ng, "ghosts")
    shp = (gen.nvars(c["eq"]),) + tuple(c["n"][d] + 2 * ng * ref.active(c["n"])[d]
                                        for d in (2, 1, 0))
    return region(c, ng, r["left"].reshape(shp)), region(c, ng, r["right"].reshape(shp)), ng


def region(c, ng, a):
    act = ref.active(c["n"])
    sl = [slice(None)]
    for d in (2, 1, 0):
        g = (ng - 1 if d == c["dir"] else ng) if act[d] else 0
        sl.append(slice(g, a.shape[3 - d] - g))
    return a[tuple(sl)]


def ev_scheme(env, c):
    u = gen.data(c)
    lo, hi, ng = call(env, c, u, gen.data(c, extra=dict(k="rand", s=3, a=1.0))
                      if c["twice"] else None)
    e = ref.pad(u.astype(LD), ng, c["bc"])
    d = c["dir"]
    scale = np.max(np.abs(u), axis=(1, 2, 3), keepdims=True)
    if c["recon"] == "wenof2":
        scale = np.full_like(scale, 10 * scale.max() / min(1, np.abs(u[0]).min()))
    if c["recon"].startswith("eno"):
        # every choice of stencil allowed by the rule up to rounding of the differences
        k = int(c["recon"][3])
        shifts = eno_choices(e[:1], d, k, 1e-13 * float(np.max(np.abs(u[0]))))
        okl = np.zeros(lo.shape[1:], bool)
        for s in range(k):
            a = region(c, ng, ref.edge_value(e, d, k, s, 0))
            b = region(c, ng, ref.edge_value(e, d, k, s, 1))
            allowed = region(c, ng, shifts[s][None])[0]
            fit = np.all((np.abs(lo - a) <= 1e-12 * scale) & (np.abs(hi - b) <= 1e-12 * scale), 0)
            okl |= fit & allowed
        check(np.all(okl), lambda: "the edge values of cell %s are not those of the stencil the "
              "divided differences choose" % list(np.argwhere(~okl)[0]), "stencil")
    else:
        rl, rh = ref.reconstruct(c["recon"], e, d, c["eq"], c.get("gamma"))
        for name, x, y in (("lower", lo, rl), ("upper", hi, rh)):
            err = np.abs(x - region(c, ng, y)) / (scale + 1e-300)
            tol = 1e-9 if "weno" in c["recon"] else 1e-12
            m = np.max(np.where(np.isfinite(err), err, np.inf))
            check(m <= tol, lambda: "%s edge value of %s off by %.3g relative at %s" %
                  (name, c["recon"], m, list(np.unravel_index(np.argmax(err), err.shape))),
                  "values")
    return varies(c, u)


def varies(c, u):
    return c["recon"] + " " + c["eq"] if u.shape[3 - c["dir"]] > 1 and \
        np.any(np.diff(u, axis=3 - c["dir"])) else None


def eno_choices(w, d, k, tol):
    """For each shift, where the rule may choose it (differences within tol count as tied)."""
    cur = {0: np.ones(w.shape[1:], bool)}
    dd = w
    for level in range(k - 1):
        dd = ref.sh(dd, 1, d) - dd
        t = tol * 2 ** (level + 1)
        nxt = {s: np.zeros(w.shape[1:], bool) for s in range(level + 2)}
        for s, m in cur.items():
            left, right = abs(ref.sh(dd, -s - 1, d))[0], abs(ref.sh(dd, -s, d))[0]
            nxt[s] |= m & ~(left < right - t)
            nxt[s + 1] |= m & (left < right + t)
        cur = nxt
    return cur


@st.composite
def relations(draw):
    c = draw(base(euler=False))
    c["rel"] = draw(st.sampled_from(["poly", "local", "shift", "scale", "mirror", "bounds",
                                     "transpose"]))
    c["f"] = draw(gen.field(kinds=["rand", "sine", "step", "palette", "spike"]))
    if c["rel"] in ("mirror", "shift", "scale", "transpose"):
        c["f"]["k"] = "rand"
    c["k"] = draw(st.integers(0, 10 ** 6))
    c["p"] = [draw(st.sampled_from([-2.0, -1.0, 0.0, 0.5, 1.0, 3.0])) for _ in range(4)]
    return c


def ev_relations(env, c):
    rec, d = c["recon"], c["dir"]
    u = gen.data(c)
    ax = 3 - d
    rng = np.random.default_rng(c["k"])
    n = c["n"][d]
    if rec == "wenof2":
        c = dict(c, rel="poly")
    eq = c["eq"]
    rel = c["rel"]
    if rel == "poly":
        # cell averages of a polynomial; only cells whose stencil sees no boundary
        deg = POLY[rec]
        co = c["p"][:deg] if not eq.startswith("euler") else None
        if co is None:
            u = np.broadcast_to(u[:, :1, :1, :1], u.shape).copy()
            exl = exh = lambda x: u[:, 0, 0, 0]
            vals = np.broadcast_to(u, u.shape)
            lo, hi, ng = call(env, c, u)
            tol = 1e-12 * np.max(np.abs(u))
            check(np.max(np.abs(lo - u[:, :1, :1, :1])) <= tol
                  and np.max(np.abs(hi - u[:, :1, :1, :1])) <= tol, "constants", "poly")
            return rec + " const"
        x = np.arange(n + 1) / 4.0
        P = np.polynomial.Polynomial(co)
        I = P.integ()
        avg = (I(x[1:]) - I(x[:-1])) * 4.0
        shp = [1, 1, 1]
        shp[2 - d] = n
        # constant along the other directions
        u = np.broadcast_to(avg.reshape(shp), c["n"][::-1])[None].copy()
        lo, hi, ng = call(env, c, u)
        off = REACH[rec]
        inner = [slice(None)] * 4
        # lo covers cells -1..n of direction d
        inner[ax] = slice(1 + off, 1 + n - off)
        el = P(x[:-1])[off:n - off].reshape([-1 if i == 2 - d else 1 for i in range(3)])
        eh = P(x[1:])[off:n - off].reshape([-1 if i == 2 - d else 1 for i in range(3)])
        if el.size == 0:
            return None
        tol = 1e-10 * (1 + np.max(np.abs(avg)))
        a, b = lo[tuple(inner)][0], hi[tuple(inner)][0]
        check(np.max(np.abs(a - el)) <= tol and np.max(np.abs(b - eh)) <= tol,
              lambda: "%s does not reproduce the polynomial %s: %s, expected %s" %
              (rec, co, a.ravel()[:8], np.broadcast_to(el, a.shape).ravel()[:8]), "poly")
        return rec + " poly" if any(co[1:]) or deg == 1 else None
    lo, hi, ng = call(env, c, u)
    scale = np.max(np.abs(u)) + 1e-300
    if rel == "local":
        # changing a cell changes the edge values of its neighbourhood only
        at = [int(rng.integers(0, m)) for m in u.shape[1:]]
        v = u.copy()
        v[(0,) + tuple(at)] += 0.37
        lo2, hi2, _ = call(env, c, v)
        near = np.zeros(u.shape, bool)
        near[(0,) + tuple(at)] = True
        e = ref.pad(near, ng, c["bc"])
        for k in range(-REACH[rec], REACH[rec] + 1):
            near = ref.sh(e, k, d) if k == -REACH[rec] else near | ref.sh(e, k, d)
        far = ~region(c, ng, near)
        check(np.array_equal(lo[far], lo2[far]) and np.array_equal(hi[far], hi2[far]),
              "%s: changing cell %s changes edge values outside the stencil" % (rec, at),
              "local")
        return rec + " local" if np.any(far) else None
    if rel == "shift":
        k = float(rng.uniform(-3, 3))
        lo2, hi2, _ = call(env, c, u + k)
        m = max(np.max(np.abs(lo2 - lo - k)), np.max(np.abs(hi2 - hi - k)))
        check(m <= 1e-7 * (scale + abs(k)) if "weno" in rec else m <= 1e-12 * (scale + abs(k)),
              lambda: "%s: adding the constant %.3g moves edge values by %.3g more" % (rec, k, m),
              "shift")
        return rec + " shift"
    if rel == "scale":
        if "weno" in rec:
            return None
        k = float(2.0 ** rng.integers(-3, 4) * rng.uniform(1, 2))
        lo2, hi2, _ = call(env, c, u * k)
        m = max(np.max(np.abs(lo2 - k * lo)), np.max(np.abs(hi2 - k * hi)))
        check(m <= 1e-12 * k * scale, lambda: "%s: scaling by %.3g" % (rec, k), "scale")
        return rec + " scale"
    if rel == "mirror" and rec.startswith("eno") and (c["bc"] != "periodic" or n < 8):
        return None  # ties between the stencils on both sides are not mirrored
    if rel == "mirror":
        lo2, hi2, _ = call(env, c, np.flip(u, ax).copy())
        m = max(np.max(np.abs(np.flip(lo2, ax) - hi)), np.max(np.abs(np.flip(hi2, ax) - lo)))
        check(m <= (1e-9 if "weno" in rec else 1e-12) * scale,
              lambda: "%s: mirrored data give edge values that differ by %.3g" % (rec, m),
              "mirror")
        return rec + " mirror"
    if rel == "transpose":
        if c["nd"] < 2 or min(c["n"][:c["nd"]]) < 2:
            return None
        d2 = (d + 1) % c["nd"]
        v = np.swapaxes(u, 3 - d, 3 - d2).copy()
        m = list(c["n"])
        m[d], m[d2] = m[d2], m[d]
        lo2, hi2, _ = call(env, dict(c, n=m, dir=d2), v)
        check(np.max(np.abs(np.swapaxes(lo2, 3 - d, 3 - d2) - lo)) <= 1e-12 * scale and
              np.max(np.abs(np.swapaxes(hi2, 3 - d, 3 - d2) - hi)) <= 1e-12 * scale,
              "%s: directions %d and %d differ" % (rec, d, d2), "transpose")
        return rec + " transpose"
    if rel == "bounds":
        e = ref.pad(u, ng, c["bc"])
        m, l, h = (region(c, ng, x) for x in (e, ref.sh(e, -1, d), ref.sh(e, 1, d)))
        t = 1e-12 * scale
        if rec in ("mc", "mm", "none"):
            check(np.all(lo >= np.minimum(m, l) - t) and np.all(lo <= np.maximum(m, l) + t) and
                  np.all(hi >= np.minimum(m, h) - t) and np.all(hi <= np.maximum(m, h) + t),
                  "%s: an edge value is not between the neighbouring averages" % rec, "bounds")
            ext = (m - l) * (h - m) <= 0
            check(np.all(np.abs(lo - m)[ext] <= t) and np.all(np.abs(hi - m)[ext] <= t),
                  "%s: slope at an extremum" % rec, "bounds")
            return rec + " bounds"
        if rec in ("weno2", "weno3"):
            k = int(rec[4])
            for side, x in ((0, lo), (1, hi)):
                cand = [region(c, ng, ref.edge_value(e.astype(LD), d, k, s, side))
                        for s in range(k)]
                check(np.all(x >= np.minimum.reduce(cand) - t) and
                      np.all(x <= np.maximum.reduce(cand) + t),
                      "%s: not a convex combination of the candidate stencils" % rec, "bounds")
            return rec + " bounds"
    return None


SUBS = [Sub("scheme", scheme(), ev_scheme, 2), Sub("relations", relations(), ev_relations, 1)]
