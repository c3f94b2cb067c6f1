"""Configuration files for the command line programs, and what they leave behind."""
import glob, os, re
from xml.sax.saxutils import escape
import numpy as np
from . import gen, ref

NAMES = dict(burgers=["u"], buckleyleverett=["u"], cubic=["u"], linear=["u"])
for _n in (1, 2, 3):
    NAMES["euler%d" % _n] = ["rho"] + ["m" + "xyz"[k] for k in range(_n)] + ["E"]
PRIM = dict(burgers=["u"], buckleyleverett=["u"], cubic=["u"], linear=["u"])
for _n in (1, 2, 3):
    PRIM["euler%d" % _n] = ["rho"] + ["u" + "xyz"[k] for k in range(_n)] + ["p"]


def num(x):
    return repr(float(x))


def tag(name, body, indent=""):
    return "%s<%s>%s</%s>\n" % (indent, name, body, name)


def script(case, arr, path):
    """Initial data script that looks values up in an array [var,z,y,x] by the position."""
    np.save(path, np.ascontiguousarray(arr))
    n, b = case["n"], case["box"]
    out = ["import numpy as _np", "_g = globals()",
           "if _g.get('_data_name') != %r:" % path,
           "    _g['_data_name'] = %r" % path,
           "    _g['_data'] = _np.load(%r)" % path]
    for d, (ax, v) in enumerate(zip("xyz", "abc")):
        if n[d] > 1 or d == 0:
            w = (b["hi"][d] - b["lo"][d]) / n[d]
            out.append("_%s = int(round((%s - (%r)) / %r - 0.5))" % (v, ax, b["lo"][d], w))
        else:
            out.append("_%s = 0" % v)
    for k, name in enumerate(PRIM[case["eq"]]):
        out.append("%s = float(_g['_data'][%d, _c, _b, _a])" % (name, k))
    return "\n".join(out) + "\n"


def writer_xml(w):
    if w is None:
        return ""
    return tag("writer", "".join(tag(k, v) for k, v in w.items()))


def prim_data(case, **kw):
    """Primitive data of a case as written into its script."""
    eq = case["eq"]
    if "rng" in case:
        kw.setdefault("lo", case["rng"][0])
        kw.setdefault("hi", case["rng"][1])
    if "mach" in case:
        kw.setdefault("mach", case["mach"])
    if "vary" in case:
        kw.setdefault("vary", case["vary"])
    return gen.materialise_prim(eq, case["f"], tuple(case["n"][::-1]), **kw)


def fvm_items(case, **o):
    """Ordered (tag, text) pairs of the fvm section."""
    b, n = case["box"], case["n"]
    it = [("name", o.get("name", "run")), ("platform", "cpu"),
          ("grid", tag("lowerCorner", " ".join(num(x) for x in b["lo"])) +
           tag("upperCorner", " ".join(num(x) for x in b["hi"])) +
           tag("dimension", " ".join(str(x) for x in n))),
          ("boundary", case["bc"]), ("flux", case["flux"]), ("endTime", num(o.get("end", 1.0))),
          ("equation", case["eq"]), ("reconstruction", case["recon"]),
          ("cfl", case["cfl"] if isinstance(case["cfl"], str) else num(case["cfl"])),
          ("integrator", case["integ"])]
    if "gamma" in case:
        it.append(("equationParameters", tag("gamma", num(case["gamma"]))))
    if "diff" in case:
        it.append(("diffusion", tag("name", case["diff"]) +
                   tag("reconstruction", case["diffrecon"])))
    ini = tag("python", o.get("pyname", "init.py"))
    ps = o.get("params")
    if ps:
        body = ""
        for name, v in ps.items():
            if isinstance(v, (list, tuple)):
                p = tag("name", name) + tag("length", len(v)) + tag("values", "".join(
                    tag("value", num(x)) for x in v))
            else:
                p = tag("name", name) + tag("length", 1) + tag("value", num(v))
            body += tag("parameter", p)
        ini += tag("parameters", body)
    it.append(("initialData", ini))
    if o.get("writer") is not None:
        it.append(("writer", "".join(tag(k, v) for k, v in o["writer"].items())))
    if o.get("functionals"):
        body = ""
        for f in o["functionals"]:
            inner = "".join(tag(k, v) for k, v in f.items() if k != "writer")
            body += tag("functional", inner + writer_xml(f["writer"]))
        it.append(("functionals", body))
    return it


def uq_xml(u):
    body = tag("samples", u["samples"])
    if "sampleStart" in u:
        body += tag("sampleStart", u["sampleStart"])
    body += tag("generator", u.get("generator", "auto"))
    body += tag("parameters", "".join(tag("parameter", "".join(
        tag(k, v) for k, v in p.items())) for p in u["parameters"]))
    body += tag("stats", "".join(tag("stat", "".join(
        tag(k, v) for k, v in s.items() if k != "writer") + writer_xml(s.get("writer")))
        for s in u["stats"]))
    return tag("uq", body)


def write(d, case, arr=None, **o):
    """Writes config.xml and init.py into directory d; arr: primitive data [var,z,y,x]."""
    if arr is not None:
        o["script"] = script(case, arr, os.path.join(d, "data.npy"))
    items = o.pop("items", None) or fvm_items(case, **o)
    text = "<config>\n" + tag("fvm", "".join(tag(k, v) for k, v in items))
    if o.get("uq"):
        text += uq_xml(o["uq"])
    text += "</config>\n"
    with open(os.path.join(d, "config.xml"), "w") as f:
        f.write(text)
    with open(os.path.join(d, o.get("pyname", "init.py")), "w") as f:
        f.write(o["script"])
    return os.path.join(d, "config.xml")


def read_nc(path):
    """-> dict of variables [z,y,x], dict of attributes. Stored order of alsvinn is (x,y,z)."""
    import netCDF4
    ds = netCDF4.Dataset(path)
    try:
        ds.set_auto_mask(False)
        v = {k: np.array(x[...]) for k, x in ds.variables.items()}
        a = {k: ds.getncattr(k) for k in ds.ncattrs()}
        t = None
        for k in ("t", "time"):
            if k in a:
                t = a[k]
    finally:
        ds.close()
    return v, a


def read_nc_zyx(path):
    """Variables with their axes ordered z, y, x (by the names of the dimensions)."""
    import netCDF4
    ds = netCDF4.Dataset(path)
    try:
        ds.set_auto_mask(False)
        v = {}
        for k, x in ds.variables.items():
            a, n = np.array(x[...]), list(x.dimensions)
            v[k] = np.transpose(a, [n.index(q) for q in "zyx"]) if sorted(n) == list("xyz") else a
        return v, {k: ds.getncattr(k) for k in ds.ncattrs()}
    finally:
        ds.close()


def numbered(d, base, ext=".nc"):
    """Files base_<k>.nc -> {k: path}."""
    out = {}
    for p in glob.glob(os.path.join(d, glob.escape(base) + "_*" + ext)):
        m = re.fullmatch(re.escape(base) + r"_(\d+)" + re.escape(ext), os.path.basename(p))
        if m:
            out[int(m.group(1))] = p
    return out
