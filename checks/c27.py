from vh.fw import *
from vh import gen, ref, exact

ID = "C27"
TARGETS = ["alsh"]
RULE = ("riemann: a Riemann problem of every equation along the x, y or z axis, with each convergent scheme, on three "
        "grids (N, 2N, 4N cells); the L1 distance to the exact entropy solution, computed independently, has to stay "
        "below a bound that shrinks with the cell size. smooth: advected density waves (Euler), waves of the linear "
        "equation in 1 to 3 dimensions and Burgers waves before the shock: the error has to fall with the order of "
        "the scheme and to be no worse than first order. Non-trivial: the solution moves by several cells and the "
        "data is not constant.")
SCHEMES = dict(
    burgers=[("godunov", r) for r in ("none", "mm", "mc", "weno2", "weno3", "eno2", "eno3", "eno4")] +
            [("roe", r) for r in ("none", "mm", "mc", "weno2", "eno2")] +
            [("rusanov", r) for r in ("none", "mm", "mc", "weno2", "weno3", "eno2")],
    buckleyleverett=[("godunov", "none"), ("godunov", "mm")],
    cubic=[("rusanov", "none"), ("roe", "none"), ("roe", "mm")],
    linear=[(f, r) for f in ("rusanov", "upwind", "roe") for r in ("none", "mm", "mc", "weno2", "weno3", "eno2", "eno3")],
    euler=[(f, r) for f in ("hll", "hll3") for r in ("none", "mm", "mc", "weno2", "wenof2", "eno2", "eno3")])


def pick(draw, eq):
    fl, rec = draw(st.sampled_from(SCHEMES[ref.family(eq)]))
    c = dict(eq=eq, flux=fl, recon=rec, integ="forwardeuler" if rec == "none" else
             draw(st.sampled_from(["rungekutta2", "rungekutta3"])), cfl="auto")
    c["cfl"] = 0.9 if rec == "none" else 0.475
    return c


@st.composite
def riemann(draw):
    eq = draw(st.sampled_from(["burgers", "buckleyleverett", "cubic", "linear", "euler1", "euler1", "euler2",
                               "euler3"]))
    c = pick(draw, eq)
    nd = draw(st.sampled_from([1, 1, 1, 2, 3])) if not eq.startswith("euler") else int(eq[5])
    c["nd"], c["axis"] = nd, draw(st.integers(0, nd - 1))
    # the tecno schemes: entropy-conservative flux with entropy diffusion
    if eq in ("burgers", "euler1", "euler2") and nd < 3 and draw(st.integers(0, 3)) == 0:
        c.update(flux=draw(st.sampled_from(["tecno1", "tecno4", "tecno6"])), recon="none",
                 diff=draw(st.sampled_from(["tecnoroe", "tecnorusanov"])),
                 diffrecon=draw(st.sampled_from(["none", "eno2", "eno3"])), integ="rungekutta2", cfl=0.12)
    q = lambda a, b: round(draw(st.floats(a, b)), 3)
    if eq.startswith("euler"):
        c["gamma"] = draw(st.sampled_from([1.4, 5 / 3.]))
        # reconstructions of the conserved variables: no positivity near vacuum, and
        # the ENO and WENO stencils follow the density alone: no positivity for strong jumps
        a, b, v = (.6, 1.4, .4) if "eno" in c["recon"] + c.get("diffrecon", "") else \
            (.2, 2, 1) if c["recon"] == "none" else (.4, 2, .5)
        c["L"] = [q(a, b), q(-v, v), q(a, b)]
        c["R"] = [q(a, b), q(-v, v), q(a, b)]
        c["vt"] = [[q(-.5, .5), q(-.5, .5)], [q(-.5, .5), q(-.5, .5)]]
    else:
        lo, hi = dict(burgers=(-1, 1.5), buckleyleverett=(0, 1), cubic=(-1, 1.2), linear=(-1, 1))[eq]
        if "diff" in c:  # v'(u) multiplies the entropy diffusion, and so limits the time step
            lo, hi = 0.6, 1.4
        c["L"], c["R"] = q(lo, hi), q(lo, hi)
    c["len"] = draw(st.sampled_from([1.0, 2.0, 0.5]))
    c["hs"] = draw(st.sampled_from([1.0, 0.5]))
    return c


def domain(c, N):
    """Grid with N cells along the axis, few in the other directions."""
    d = dict(c)
    m = gen.min_cells(c)
    d["n"] = [N if k == c["axis"] else (m if k == 0 else max(2, m)) if k < c["nd"] else 1 for k in range(3)]
    lo = [-c["len"] if k == c["axis"] else 0.0 for k in range(3)]
    hi = [c["len"] if k == c["axis"] else c["hs"] if k < c["nd"] else 0.0 for k in range(3)]
    d["box"] = dict(lo=lo, hi=hi)
    return d


def strong(c):
    """The ENO and WENO stencils follow the density, so that a jump of pressure or velocity over cells of equal
    density may cost the positivity: that a run goes through is only claimed for weak jumps."""
    if "L" not in c or ref.family(c["eq"]) != "euler" or "eno" not in c["recon"] + c.get("diffrecon", ""):
        return False
    shear = max(abs(a - b) for a, b in zip(c["vt"][0], c["vt"][1])) if c["nd"] > 1 else 0
    ratio = max(max(c["L"][k], c["R"][k]) / min(c["L"][k], c["R"][k]) for k in (0, 2))
    return shear > 0.4 or ratio > 1.5 or abs(c["L"][1] - c["R"][1]) > 0.4


def run(env, d, u, T):
    kw = gen.args(d)
    kw["writers"] = "fixed,%s,%s,0" % (float(T).hex(), float(T).hex())
    r = env.call("sim", {"u": u}, end=T, maxsteps=20000, **kw)
    if r.s("failure") and strong(d):
        return None
    check(not r.s("failure"), lambda: "the run stopped: " + r.s("failure"), "stopped")
    t = r["t0"]
    check(len(t) >= 1 and abs(t[-1] - T) <= 1e-9 * T, lambda: "no output at the end time: %s" % t, "output")
    return r["s0"].reshape((len(t),) + u.shape)[-1]


SUB = 8  # points per cell for the averages of the exact solution


def line(a, axis, n):
    """Values [var, N] along the axis from prim/cons arrays, shaped back to [var,z,y,x]."""
    shp = [1, 1, 1, 1]
    shp[0], shp[3 - axis] = a.shape[0], a.shape[1]
    return np.broadcast_to(a.reshape(shp), [a.shape[0]] + n[::-1]).copy()


def setup(c, N):
    d = domain(c, N)
    ax = c["axis"]
    h = 2 * c["len"] / N
    x = -c["len"] + h * (np.arange(N) + 0.5)
    fine = (-c["len"] + h / SUB * (np.arange(N * SUB) + 0.5))
    eq = c["eq"]
    if not eq.startswith("euler"):
        u = np.where(x < 0, c["L"], c["R"])[None]
        w = np.linspace(min(c["L"], c["R"]), max(c["L"], c["R"]), 101)
        smax = float(np.max(np.abs(ref.dflux(eq, w)))) + 1e-3
        T = 0.45 * c["len"] / smax
        sol = exact.scalar_riemann(eq, c["L"], c["R"], fine / T).reshape(1, N, SUB).mean(2)
        jump = [abs(c["L"] - c["R"])]
        return d, line(u, ax, d["n"]), line(sol, ax, d["n"]), T, jump, h
    g = c["gamma"]
    n = c["nd"]
    L, R = c["L"], c["R"]
    s = exact.euler_star(L[0], L[1], L[2], R[0], R[1], R[2], g)
    if s is None or s[0] < 0.02:
        return None
    smax = max(abs(L[1]) + np.sqrt(g * L[2] / L[0]), abs(R[1]) + np.sqrt(g * R[2] / R[0]),
               abs(s[1]) + np.sqrt(g * max(s[0], L[2], R[2]) / min(L[0], R[0])))
    T = 0.5 * c["len"] / smax
    w, left = exact.euler_riemann(L, R, fine / T, g)

    def state(rvp, left):
        v = [np.where(left, c["vt"][0][k % 2], c["vt"][1][k % 2]) for k in range(n)]
        v[ax] = rvp[1]
        return np.asarray(ref.cons(rvp[0], v, rvp[2], g), float)
    ini = np.where((x < 0)[None], np.array(L)[:, None], np.array(R)[:, None])
    u0, u1 = state(ini, x < 0), state(w, left)
    # in units of the variation, or of what the waves of the problem can carry
    rho, a = max(L[0], R[0]), np.sqrt(g * max(L[2], R[2], s[0]) / min(L[0], R[0]))
    shear = [abs(c["vt"][0][k % 2] - c["vt"][1][k % 2]) / a for k in range(n) if k != ax]
    floor = max([abs(L[0] - R[0]) / rho, abs(L[1] - R[1]) / a, abs(L[2] - R[2]) / max(L[2], R[2]), 0.1] + shear)
    scale = [rho] + [rho * a] * n + [max(L[2], R[2], s[0]) / (g - 1)]
    var = np.abs(np.diff(u1, axis=1)).sum(1)
    u1 = u1.reshape(n + 2, N, SUB).mean(2)
    jump = [max(var[k], 0.5 * floor * scale[k]) for k in range(n + 2)]
    return d, line(u0, ax, d["n"]), line(u1, ax, d["n"]), T, jump, h


WORST = {}


def ev_riemann(env, c):
    es, N0 = [], 32
    for N in (N0, 2 * N0, 4 * N0):
        s = setup(c, N)
        if s is None:
            return None
        d, u0, u1, T, jump, h = s
        d["bc"] = "neumann"
        u = run(env, d, u0, T)
        if u is None:
            return None
        e = 0
        for k in range(u.shape[0]):
            e = max(e, float(np.abs(u[k] - u1[k]).mean()) * 2 / (max(jump[k], 1e-3)))
        es.append(e)
    if os.environ.get("VH_DEBUG"):
        with open(os.environ["VH_DEBUG"], "a") as f:
            f.write(json.dumps([c, es]) + "\n")
    lim = bound(c)
    for k, e in enumerate(es):
        b = lim * 2 ** (-0.5 * k)
        check(e <= b, lambda: "the L1 error is %.3g with %d cells (bound %.3g); errors %s" % (e, N0 << k, b, es), "error")
    check(es[2] <= 0.92 * es[0] or es[0] < 0.06, lambda: "the L1 errors %s do not fall with the cell size" % es,
          "convergence")
    if es[0] > 1e-6:
        return "%s %s %s%s axis %d" % (c["eq"], c["flux"], c["recon"], "+" + c["diff"] if "diff" in c else "", c["axis"])


def bound(c):
    """For the coarsest grid; calibrated on the unchanged code with a margin of about two."""
    if "diff" in c:
        b = 0.42 if c["diffrecon"] == "none" else 0.2
    else:
        b = 0.22 if c["recon"] == "none" else 0.15
    return b * (1.2 if c["nd"] == 3 else 1.0)


@st.composite
def smooth(draw):
    eq = draw(st.sampled_from(["burgers", "linear", "linear", "euler1", "euler2", "euler3"]))
    c = pick(draw, eq)
    c["nd"] = int(eq[5]) if eq.startswith("euler") else draw(st.sampled_from([1, 1, 2])) if eq == "linear" else 1
    if ref.family(eq) == "euler":
        c["gamma"] = draw(gen.GAMMA)
        c["v"] = [draw(st.sampled_from([1.0, -1.0, 0.5])) for _ in range(c["nd"])]
    c["amp"] = draw(st.sampled_from([0.3, 0.1, 0.5]))
    c["ph"] = draw(st.sampled_from([0.0, 0.3, 0.7]))
    c["axis"] = draw(st.integers(0, c["nd"] - 1))
    c["diag"] = draw(st.booleans())
    return c


def wave(c, n, t):
    """Cell averages of sin(2 pi (k.x - k.v t + ph)) on [0,1]^d, shape [z,y,x]."""
    k = [1 if (c["diag"] or d == c["axis"]) and n[d] > 1 else 0 for d in range(3)]
    v = c.get("v", [1.0] * 3)
    arg, fac = 2 * np.pi * c["ph"], 1.0
    for d in range(3):
        if k[d]:
            h = 1.0 / n[d]
            x = h * (np.arange(n[d]) + 0.5)
            shp = [1, 1, 1]
            shp[2 - d] = n[d]
            arg = arg + 2 * np.pi * (x.reshape(shp) - v[d] * t)
            fac *= np.sin(np.pi * h) / (np.pi * h)
    return np.broadcast_to(fac * np.sin(arg), n[::-1]).copy()


GP, GW = np.polynomial.legendre.leggauss(5)


def smooth_states(c, N, T):
    d = dict(c)
    m = max(2, gen.min_cells(c))
    d["n"] = [N if c["diag"] or k == c["axis"] else m if k < c["nd"] else 1 for k in range(3)]
    for k in range(c["nd"], 3):
        d["n"][k] = 1
    d["box"] = dict(lo=[0.0] * 3, hi=[1.0 if k < c["nd"] else 0.0 for k in range(3)])
    d["bc"] = "periodic"
    out = []
    for t in (0.0, T):
        if c["eq"] == "burgers":
            f = lambda x: 0.5 + c["amp"] * np.sin(2 * np.pi * (x + c["ph"]))
            h = 1.0 / N
            x = h * (np.arange(N)[:, None] + 0.5 + GP[None] / 2)
            q = f(x) if t == 0 else exact.burgers_smooth(f, -2 * np.pi * c["amp"], x, t)
            out.append((q * GW / 2).sum(1).reshape(1, 1, 1, N))
        elif c["eq"] == "linear":
            out.append((c["amp"] * wave(c, d["n"], t))[None])
        else:
            rho = 1 + c["amp"] * wave(c, d["n"], t)
            v = [np.full_like(rho, q) for q in c["v"]]
            out.append(np.asarray(ref.cons(rho, v, np.ones_like(rho), c["gamma"]), float))
    return d, out[0], out[1]


def ev_smooth(env, c):
    T = 0.3 if c["eq"] != "burgers" else 0.5 / (2 * np.pi * c["amp"])
    big = 2 if c["diag"] and c["nd"] > 1 else 1
    Ns = [16, 32, 64] if big == 1 else [12, 24] if c["nd"] == 2 else [8, 16]
    es = []
    for N in Ns:
        d, u0, u1 = smooth_states(c, N, T)
        u = run(env, d, u0, T)
        es.append(float(np.abs(u - u1)[0].mean()) / c["amp"])
    first = []
    if c["recon"] != "none":
        d, u0, u1 = smooth_states(dict(c, recon="none"), Ns[-1], T)
        first.append(float(np.abs(run(env, d, u0, T) - u1)[0].mean()) / c["amp"])
    if os.environ.get("VH_DEBUG"):
        with open(os.environ["VH_DEBUG"] + ".s", "a") as f:
            f.write(json.dumps([c, es, first]) + "\n")
    ratio, top, rel = order(c, big)
    check(es[-1] <= ratio * es[-2], lambda: "errors %s on grids of %s cells do not fall as they should (%.2f)" %
          (es, Ns, ratio), "order")
    check(es[-1] <= top, lambda: "error %.3g with %d cells (bound %.3g)" % (es[-1], Ns[-1], top), "error")
    if first:
        check(es[-1] <= rel * first[0] + 1e-12, lambda: "the error %.3g of %s is not smaller than that of first "
              "order, %.3g" % (es[-1], c["recon"], first[0]), "first")
    return "%s %s %s %dd%s" % (c["eq"], c["flux"], c["recon"], c["nd"], " diagonal" if big == 2 else "")


def order(c, big):
    """Largest ratio of successive errors, largest error on the finest grid, relative to first order."""
    if c["recon"] == "none":
        return (0.62, 0.12, 1.0) if big == 1 else (0.97, 0.6, 1.0)
    return (0.4, 0.02, 0.3) if big == 1 else (0.65, 0.25, 0.7)


SUBS = [Sub("riemann", riemann(), ev_riemann, 2, batch=20), Sub("smooth", smooth(), ev_smooth, 1, batch=20)]
