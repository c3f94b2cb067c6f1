"""Generated cases: grids, schemes and data.  Cases are JSON; data arrays follow from recipes."""
import numpy as np
from hypothesis import strategies as st
from . import ref

SCALAR, EULER = ref.SCALAR, ref.EULER
EQS = list(SCALAR) + list(EULER)
RECON = dict(none=1, eno2=2, eno3=3, eno4=4, weno2=2, weno3=3, wenof2=2, mc=2, mm=2)
WIDE = dict(tecno4=3, godunov4=3, tecno6=5, godunov6=5)
DIFF = ["burgers", "euler1", "euler2", "euler3"]
INTEG = ["forwardeuler", "rungekutta2", "rungekutta3", "rungekutta4"]


def eq_dims(eq):
    return [int(eq[5])] if eq.startswith("euler") else [1, 2, 3]


def nvars(eq):
    return int(eq[5]) + 2 if eq.startswith("euler") else 1


def nghost(flux, recon, diff="none", diffrecon="none"):
    fg = WIDE.get(flux, 1)
    g = max(fg, (fg + 1) // 2 - 1 + RECON[recon])
    if diff != "none":
        g = max(g, RECON[diffrecon])
    return g


@st.composite
def shape(draw, nd, lo=1, hi=None):
    hi = hi or {1: 24, 2: 10, 3: 7}[nd]
    return [draw(st.integers(max(lo, 2 if d else 1), max(hi, lo))) if d < nd else 1
            for d in range(3)]


FIELD_KINDS = ["const", "step", "sine", "rand", "spike", "checker", "palette", "tiny"]


@st.composite
def field(draw, kinds=None):
    return dict(k=draw(st.sampled_from(kinds or FIELD_KINDS)), s=draw(st.integers(0, 10 ** 6)),
                a=draw(st.sampled_from([1.0, 0.5, 0.1, 0.01])))


def weights(f, shp, rng):
    """A field in [0,1] of shape [z,y,x] and the recipe's character."""
    nz, ny, nx = shp
    z, y, x = np.meshgrid(np.arange(nz), np.arange(ny), np.arange(nx), indexing="ij")
    k = f["k"]
    if k == "const":
        return np.full(shp, rng.random())
    if k == "step":
        w = np.zeros(shp)
        for c, n in ((x, nx), (y, ny), (z, nz)):
            if n > 1 and rng.random() < 0.7 or n == nx:
                p = rng.integers(0, n + 1)
                w = w + rng.random() * (c < p)
        return w / max(w.max(), 1) if rng.random() < 0.5 else 1 - w / max(w.max(), 1)
    if k == "sine":
        ph = sum((rng.integers(0, 3) * c / n for c, n in ((x, nx), (y, ny), (z, nz))),
                 np.zeros(shp))
        return 0.5 + 0.5 * np.sin(2 * np.pi * (ph + rng.random()))
    if k == "rand":
        return rng.random(shp)
    if k == "spike":
        w = np.zeros(shp)
        w[tuple(rng.integers(0, n) for n in shp)] = 1
        return w
    if k == "checker":
        return ((x + y + z) % 2).astype(float)
    if k == "palette":
        p = rng.random(3)
        p[rng.integers(0, 3)] = rng.choice([0.0, 1.0, 0.5])
        return p[rng.integers(0, 3, shp)]
    if k == "tiny":
        return 0.5 + rng.choice([1e-3, 1e-6, 1e-10, 1e-15]) * (rng.random(shp) - 0.5)
    raise ValueError(k)


def materialise_prim(eq, f, shp, lo=None, hi=None, mach=1.0, contrast=1.0, vary=False):
    """Primitive variables [var,z,y,x] (scalars: the variable itself)."""
    rng = np.random.default_rng(f["s"])
    shp = tuple(shp)
    if not eq.startswith("euler"):
        lo, hi = (lo, hi) if lo is not None else RANGE[eq]
        w = weights(f, shp, rng)
        c = rng.random()
        w = c + f["a"] * (w - c)
        return (lo + (hi - lo) * w)[None]
    n = int(eq[5])
    out = []
    zero = rng.random() < 0.15  # at rest
    common = rng.random() < 0.3  # all components jump together
    w0 = weights(f, shp, rng)
    off = rng.uniform(-mach, mach, n) * (rng.random() < 0.6)
    for v in range(n + 2):
        w = w0 if common or f["k"] in ("step", "checker") else weights(f, shp, rng)
        kind = rng.random()
        if kind < 0.2 and not vary:
            w = np.full(shp, rng.random())  # this component does not vary
        elif kind < 0.35:
            w = 1 - w
        w = 0.5 + f["a"] * (w - 0.5)
        if v == 0 or v == n + 1:
            out.append(0.2 * np.exp(contrast * np.log(15.0) * w))
        else:
            out.append(off[v - 1] + (0 if zero else mach) * (2 * w - 1) * 0.8)
    return np.array(out)


RANGE = dict(burgers=(-1.0, 1.5), buckleyleverett=(0.0, 1.0), cubic=(-1.0, 1.5), linear=(-2.0, 2.0))


def cons(eq, p, gamma):
    if not eq.startswith("euler"):
        return np.array(p, dtype=float)
    n = int(eq[5])
    return np.array(ref.cons(p[0], p[1:n + 1], p[n + 1], gamma), dtype=float)


def data(case, extra=None, **kw):
    """Conserved initial data of a case with keys eq, n (nx,ny,nz), f (field), gamma."""
    eq = case["eq"]
    shp = tuple(case["n"][::-1])
    if "rng" in case:
        kw.setdefault("lo", case["rng"][0])
        kw.setdefault("hi", case["rng"][1])
    if "vary" in case:
        kw.setdefault("vary", case["vary"])
    if "mach" in case:
        kw.setdefault("mach", case["mach"])
    return cons(eq, materialise_prim(eq, extra or case["f"], shp, **kw), case.get("gamma", 1.4))


GAMMA = st.sampled_from([1.4, 5.0 / 3, 1.2, 2.0])
MACH = st.sampled_from([1.0, 0.3, 3.0])


def positive_range(eq):
    """Range of scalar data inside which the entropy functions of burgers are defined."""
    return [0.1, 1.9] if eq == "burgers" else None


@st.composite
def box(draw, nd, aniso=True):
    lo, hi = [], []
    for d in range(3):
        if d < nd:
            l = draw(st.sampled_from([0.0, -1.0, 2.5])) if aniso else 0.0
            w = draw(st.sampled_from([1.0, 2.0, 0.25, 10.0, 0.7])) if aniso else 1.0
            lo.append(l)
            hi.append(l + w)
        else:
            lo.append(0.0)
            hi.append(0.0)
    return dict(lo=lo, hi=hi)


def grid_args(case):
    b = case.get("box")
    r = dict(nx=case["n"][0], ny=case["n"][1], nz=case["n"][2])
    if b:
        for k, c in zip("xyz", range(3)):
            r["l" + k] = float(b["lo"][c])
            r["h" + k] = float(b["hi"][c])
    return r


def cell_lengths(case):
    b = case.get("box")
    h = []
    for d in range(3):
        if d == 0 or case["n"][d] > 1:
            lo, hi = (b["lo"][d], b["hi"][d]) if b else (0.0, 1.0)
            h.append((hi - lo) / case["n"][d])
        else:
            h.append(1.0)
    return h


def args(case, **more):
    """Keyword arguments for the harness ops from a case."""
    r = grid_args(case)
    for k in ("eq", "flux", "recon", "diff", "diffrecon", "integ", "bc", "cfl", "gamma"):
        if k in case:
            r[k] = case[k]
    r.update(more)
    return r


@st.composite
def scheme(draw, eqs=None, diff=True, recons=None, fluxes=None, integ=True, dims=None):
    """Equation, dimension, flux, reconstruction, diffusion, integrator that can be selected."""
    eq = draw(st.sampled_from(eqs or EQS))
    nd = draw(st.sampled_from(eq_dims(eq) if dims is None else
                              [d for d in eq_dims(eq) if d in dims] or eq_dims(eq)))
    fl = [x for x in ref.fluxes(eq) if fluxes is None or x in fluxes]
    flux = draw(st.sampled_from(fl))
    rec = draw(st.sampled_from([r for r in (recons or RECON)
                                if eq.startswith("euler") or r != "wenof2"]))
    c = dict(eq=eq, nd=nd, flux=flux, recon=rec)
    if diff and eq in DIFF and draw(st.integers(0, 2)) == 0:
        c["diff"] = draw(st.sampled_from(["tecnoroe", "tecnorusanov"]))
        c["diffrecon"] = draw(st.sampled_from(["none", "eno2", "eno3", "eno4"]))
    if integ:
        c["integ"] = draw(st.sampled_from(INTEG))
    if eq.startswith("euler"):
        c["gamma"] = draw(GAMMA)
        c["mach"] = draw(MACH)
    return c


def has_eno(c):
    return "eno" in c["recon"].replace("weno", "") or ("diff" in c and
                                                      "eno" in c.get("diffrecon", ""))


def untie(c):
    """Restricts data so that no ENO choice hangs on rounding."""
    if has_eno(c):
        c["f"]["k"] = "rand"
        c["vary"] = True
    return c


def min_cells(c):
    return nghost(c["flux"], c["recon"], c.get("diff", "none"), c.get("diffrecon", "none"))
