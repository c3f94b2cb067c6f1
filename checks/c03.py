from vh.fw import *
from vh import gen, ref

ID = "C03"
TARGETS = ["alsh"]
RULE = ("A case is an equation, a flux by name, a grid with generated cell lengths and generated "
        "data; the rate of change of every cell is compared with minus the divided differences of "
        "the published two-point formula (or published combination) evaluated in extended "
        "precision. Sub pairs uses data made of few hand-placed states (sonic points, equal "
        "components, nearly equal states), sub data generated fields, sub reconstructed two-point "
        "fluxes on reconstructed states. Non-trivial: the expected rate is not below 1e-9 of "
        "the flux size everywhere.")
ASSUME = ["wide (tecno4/6, godunov4/6) fluxes are compared without reconstruction, as documented",
          "Buckley-Leverett states lie in [0,1], burgers states of tecno fluxes in (0,2)"]


def rng_of(eq, flux):
    if eq == "burgers" and "tecno" in flux:
        return [0.1, 1.9]
    return None


@st.composite
def base(draw, recons=("none",)):
    c = draw(gen.scheme(diff=False, integ=False, recons=recons,
                        dims=draw(st.sampled_from([[1], [2], [3]]))))
    c["bc"] = draw(st.sampled_from(["periodic", "neumann"]))
    c["n"] = draw(gen.shape(c["nd"], lo=gen.min_cells(c), hi={1: 24, 2: 9, 3: 7}[c["nd"]]))
    c["box"] = draw(gen.box(c["nd"]))
    r = rng_of(c["eq"], c["flux"])
    if r:
        c["rng"] = r
    return c


@st.composite
def fields(draw):
    c = draw(base())
    c["f"] = draw(gen.field())
    return c


@st.composite
def recons(draw):
    c = draw(base(recons=[r for r in gen.RECON if r != "none"]))
    c["f"] = draw(gen.field(kinds=["rand", "step", "spike", "checker"]))
    if c["eq"].startswith("euler"):
        c["mach"] = draw(st.sampled_from([1.0, 0.3]))
    return c


@st.composite
def pairs(draw):
    c = draw(base())
    eq = c["eq"]
    lo, hi = c.get("rng") or gen.RANGE.get(eq, (0, 1))
    special = {"burgers": [0.0, 1.0], "cubic": [0.0, 1.0], "linear": [0.0],
               "buckleyleverett": [0.0, 1.0, 0.5, 0.8]}.get(eq, [])
    special = [x for x in special if lo <= x <= hi]
    pool = []
    for _ in range(draw(st.integers(2, 4))):
        if eq.startswith("euler"):
            n = int(eq[5])
            rho = draw(st.sampled_from([1.0, 0.125, 2.0, 0.5, 3.7]))
            p = draw(st.sampled_from([1.0, 0.1, 2.0, 0.5, 0.71]))
            a = float(np.sqrt(c["gamma"] * p / rho))
            vel = [draw(st.sampled_from([0.0, 1.0, -1.0, a, -a, 2 * a, -2 * a, 0.3, -1.3 * a]))
                   for _ in range(n)]
            pool.append([rho] + vel + [p])
        else:
            pool.append([draw(st.one_of(st.sampled_from(special or [lo]),
                                        st.floats(lo, hi)))])
        eps = draw(st.sampled_from([0.0, 0.0, 0.0, 1e-3, 1e-7, 1e-12]))
        if eps and len(pool) < 4:
            k = draw(st.integers(0, len(pool[-1]) - 1))
            q = list(pool[-1])
            q[k] = q[k] * (1 - eps) if eq.startswith("euler") else \
                min(hi, max(lo, q[k] - eps))
            pool.append(q)
    if draw(st.booleans()) and eq.startswith("euler"):
        # vary one component only (shear, contact, ...)
        k = draw(st.integers(0, len(pool[0]) - 1))
        pool = [[(q if j == k else p0) for j, (q, p0) in enumerate(zip(p, pool[0]))]
                for p in pool]
    c["pool"] = pool
    c["s"] = draw(st.integers(0, 10 ** 6))
    return c


def compare(env, c, u):
    nv = gen.nvars(c["eq"])
    r = env.call("rhs", {"u": u}, mode="flux", poison=7.0, **gen.args(c))
    h = r["h"]
    e = [abs(a - b) <= 1e-13 * abs(b) for a, b in zip(h, gen.cell_lengths(c))]
    check(all(e), lambda: "cell lengths %s" % h, "cell-lengths")
    expected, scale = ref.rhs_flux(c["eq"], c["flux"], c["recon"], u, gen.cell_lengths(c),
                                   c["bc"], c.get("gamma"))
    exp = np.array(expected * h[0], dtype=float).ravel()
    scale = float(scale * h[0])
    if not np.all(np.isfinite(exp)):
        return None  # the reconstruction left the admissible states
    # the quotient of the burgers tecno flux loses digits between nearly equal states
    tol = 2e-9 if c["eq"] == "burgers" and "tecno" in c["flux"] else 3e-11
    err = np.abs(exp - r["out"])
    worst = int(np.argmax(np.where(np.isfinite(err), err, np.inf)))
    bad = not np.all(np.isfinite(r["out"])) or err[worst] > tol * scale + 1e-300

    def msg():
        v, k = divmod(worst, u[0].size)
        return ("flux %s of %s, reconstruction %s: cell %d variable %d changes at rate %.17g "
                "instead of %.17g" % (c["flux"], c["eq"], c["recon"], k, v,
                                      r["out"][worst], exp[worst]))
    check(not bad, msg, "flux")
    return "%s %s %dd" % (c["eq"], c["flux"], c["nd"]) if np.max(np.abs(exp)) > 1e-9 * scale \
        else None


def ev_field(env, c):
    return compare(env, c, gen.data(c))


def ev_pairs(env, c):
    rng = np.random.default_rng(c["s"])
    pool = np.array(c["pool"])
    shp = c["n"][::-1]
    p = np.moveaxis(pool[rng.integers(0, len(pool), shp)], -1, 0)
    return compare(env, c, gen.cons(c["eq"], p, c.get("gamma", 1.4)))


def ev_recon(env, c):
    u = gen.data(c)
    eq, g = c["eq"], c.get("gamma")
    # states on both sides of each interface have to be states of the equation
    ng = gen.nghost(c["flux"], c["recon"])
    e = ref.pad(u.astype(np.longdouble), ng, c["bc"])
    for d in range(c["nd"]):
        for s in ref.reconstruct(c["recon"], e, d, eq, g):
            s = ref.crop(s, ng - 1, ref.active(tuple(c["n"]))) if ng > 1 else s
            if eq.startswith("euler"):
                q = ref.prim(s, int(eq[5]), g)
                if not (np.min(q[0]) > 1e-3 and np.min(q[-1]) > 1e-3):
                    return None
            elif eq == "buckleyleverett" and (np.min(s) < 0 or np.max(s) > 1):
                return None
            elif eq == "burgers" and "tecno" in c["flux"] and (np.min(s) < 0.01
                                                               or np.max(s) > 1.99):
                return None
    lab = compare(env, c, u)
    return lab and lab + " " + c["recon"]


SUBS = [Sub("data", fields(), ev_field, 2), Sub("pairs", pairs(), ev_pairs, 2),
        Sub("reconstructed", recons(), ev_recon, 1)]
