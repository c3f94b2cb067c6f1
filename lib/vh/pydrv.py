"""Serves programs on the Python interface of the code under test, one JSON line each."""
import json, os, sys
out = os.fdopen(os.dup(1), "w")
os.dup2(2, 1)
import matplotlib
matplotlib.use("Agg")
import numpy
import alsvinn


def plain(x):
    if x is None or isinstance(x, (str, bool)):
        return x
    if isinstance(x, numpy.ma.MaskedArray):
        x = x.filled(float("nan"))
    a = numpy.asarray(x)
    if a.ndim == 0 and a.dtype.kind in "iuf":
        return float(a)
    if a.dtype.kind in "iuf":
        return {"shape": list(a.shape), "data": [float(y) for y in a.ravel()]}
    return repr(x)


for line in sys.stdin:
    q = json.loads(line)
    os.chdir(q["dir"])
    obj, ans = None, []
    for s in q["prog"]:
        try:
            if s["do"] == "run":
                obj = alsvinn.run(**s["kw"])
                r = None
            elif s["do"] == "new":
                obj = alsvinn.Alsvinn(**s["kw"])
                r = None
            elif s["do"] == "call_run":
                r = obj.run(**s.get("kw", {}))
            elif obj is None:
                raise LookupError("no object")
            else:
                r = getattr(obj, s["do"])(*s.get("a", []), **s.get("kw", {}))
            ans.append({"ok": plain(r)})
        except Exception as e:
            ans.append({"err": "%s: %s" % (type(e).__name__, e)})
    os.chdir("/")
    out.write(json.dumps(ans) + "\n")
    out.flush()
