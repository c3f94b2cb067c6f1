from vh.fw import *
from vh import gen, ref

ID = "C22"
TARGETS = ["alsh"]
RULE = ("A case is a program of container operations (creation, shared views, copies, element-wise "
        "arithmetic with containers and numbers, powers, linear combinations, clearing, interior "
        "and box copies, host transfers, total variations, interpolation to half resolution, "
        "element access, queries) on containers of random shapes, ghost widths and numbers of "
        "variables, with operands that fit, alias or mismatch. After every instruction all cells "
        "of all containers are compared with the same step on plain arrays. Non-trivial: at least "
        "three instructions change cells.")


class Vol:
    def __init__(self, nv, n, ng):
        self.nv, self.n, self.ng = nv, tuple(n), ng
        self.g = (ng, ng if n[1] > 1 else 0, ng if n[2] > 1 else 0)
        self.t = tuple(n[d] + 2 * self.g[d] for d in range(3))
        self.a = [None] * nv  # references to one-element lists, so that views share

    def same(self, o):
        return self.nv == o.nv and self.t == o.t


@st.composite
def programs(draw, big=False):
    nd = draw(st.integers(1, 3))
    n = draw(gen.shape(nd, hi={1: 12, 2: 7, 3: 5}[nd]))
    nv = draw(st.integers(1, 4))
    ng = draw(st.integers(0, 3))
    rng_seed = draw(st.integers(0, 10 ** 6))
    vols = {}
    prog = []

    def mk(i, nv, n, ng):
        vols[i] = Vol(nv, n, ng)
        prog.append("new %d %d %d %d %d %d" % (i, nv, n[0], n[1], n[2], ng))
    mk(0, nv, n, ng)
    mk(1, nv, n, ng)
    extra = draw(st.integers(0, 2))
    if extra >= 1:  # half or double resolution, other ghost layer
        m = [2 * x if x > 1 or d == 0 else 1 for d, x in enumerate(n)]
        mk(2, nv, m, draw(st.integers(0, 3)))
    if extra >= 2:
        mk(3, draw(st.integers(1, 4)), draw(gen.shape(draw(st.integers(1, 3)), hi=5)),
           draw(st.integers(0, 2)))
    S = st.sampled_from([0.0, 1.0, -1.0, 0.5, 2.0, -0.3, 1e3, 0.1])
    P = st.sampled_from([0.0, 1.0, 2.0, 3.0, -1.0, 0.5, 4.0])
    for _ in range(draw(st.integers(3, 14))):
        ids = sorted(vols)
        vid = st.sampled_from(ids)
        i = draw(vid)
        # mostly operands of the same shape
        like = [k for k in ids if vols[k].same(vols[i])]
        fit = st.sampled_from(like)
        j = draw(fit) if draw(st.integers(0, 7)) else draw(vid)
        var = draw(st.integers(0, vols[i].nv - 1))
        w = draw(st.integers(0, vols[j].nv - 1))
        op = draw(st.sampled_from(
            ["vadd", "vscale", "vzero", "copyto", "setvol", "lin", "addpow", "addpowf", "subpow",
             "madd", "msub", "mmul", "mdiv", "mcopy", "mpow", "mpowf", "mspow", "mlin", "sadd",
             "ssub", "smul", "sdiv", "szero", "minst", "put", "get", "cin", "cbox", "tohost",
             "fromhost", "tv", "tvd", "info", "index", "inst", "instn", "view", "cpu", "set",
             "setvol", "setvol", "cin"]))
        if op in ("vadd", "copyto", "addpow", "addpowf", "subpow"):
            s = "%s %d %d" % (op, i, j)
            if "pow" in op:
                s += " %r" % draw(P)
            if op == "addpowf":
                s += " %r" % draw(S)
        elif op == "setvol":
            # same resolution, half resolution, or any
            v = vols[i]
            half = [k for k in ids if vols[k].nv == v.nv and
                    all(vols[k].n[d] == (2 * v.n[d] if d == 0 or v.n[d] > 1 else 1)
                        for d in range(3))]
            eq = [k for k in ids if vols[k].nv == v.nv and vols[k].n == v.n]
            pick = draw(st.sampled_from([half or eq, half or eq, eq, ids]))
            s = "setvol %d %d" % (i, draw(st.sampled_from(pick)))
        elif op in ("vzero", "info"):
            s = "%s %d" % (op, i)
        elif op == "vscale":
            s = "vscale %d %r" % (i, draw(S))
        elif op == "lin":
            s = "lin %d %r" % (i, draw(S))
            for _k in range(4):
                k = draw(fit) if draw(st.integers(0, 15)) else draw(vid)
                s += " %r %d" % (draw(S), k)
        elif op == "mlin":
            s = "mlin %d %d %r" % (i, var, draw(S))
            for _k in range(4):
                k = draw(fit) if draw(st.integers(0, 15)) else draw(vid)
                s += " %r %d %d" % (draw(S), k, draw(st.integers(0, vols[k].nv - 1)))
        elif op in ("madd", "msub", "mmul", "mdiv", "mcopy", "mpow", "mpowf", "mspow"):
            s = "%s %d %d %d %d" % (op, i, var, j, w)
            if "pow" in op:
                s += " %r" % draw(P)
            if op == "mpowf":
                s += " %r" % draw(S)
        elif op in ("sadd", "ssub", "smul", "sdiv"):
            s = "%s %d %d %r" % (op, i, var, draw(S))
        elif op in ("szero", "minst", "cin", "tohost"):
            s = "%s %d %d" % (op, i, var)
        elif op == "fromhost":
            size = int(np.prod(vols[i].t))
            s = "fromhost %d %d %d" % (i, var, draw(st.sampled_from([size, size, size // 2, 0])))
        elif op in ("put", "get"):
            v = draw(st.sampled_from([0, vols[i].nv - 1]))
            p = [draw(st.integers(0, vols[i].t[d] - 1)) for d in range(3)]
            s = "%s %d %d %d %d %d" % (op, i, v, p[0], p[1], p[2])
            if op == "put":
                s += " %r" % draw(S)
        elif op == "cbox":
            b = []
            for d in range(3):
                lo = draw(st.integers(0, vols[i].t[d] - 1))
                b += [lo, draw(st.integers(lo, vols[i].t[d]))]
            s = "cbox %d %d " % (i, var) + " ".join(map(str, b))
        elif op == "tv":
            s = "tv %d %d %d" % (i, var, draw(st.integers(1, 3)))
        elif op == "tvd":
            dims = 1 + (vols[i].n[1] > 1) + (vols[i].n[2] > 1)
            s = "tvd %d %d %d %d" % (i, var, draw(st.integers(0, dims - 1)),
                                     draw(st.integers(1, 3)))
        elif op == "index":
            s = "index %d %s" % (i, draw(st.sampled_from(["var0", "var%d" % var, "nope", "var9",
                                                          "Var0", "var"])))
        elif op in ("inst", "instn", "view", "cpu"):
            if len(vols) > 7:
                continue
            k = max(vols) + 1
            o = vols[i]
            if op == "inst":
                vols[k] = Vol(o.nv, o.n, o.ng)
                s = "inst %d %d" % (k, i)
            elif op == "cpu":
                vols[k] = Vol(o.nv, o.n, o.ng)
                s = "cpu %d %d" % (k, i)
            elif op == "instn":
                m = draw(gen.shape(draw(st.integers(1, 3)), hi=5))
                vols[k] = Vol(o.nv, m, 0)
                s = "instn %d %d %d %d %d" % (k, i, m[0], m[1], m[2])
            else:
                comp = [draw(st.integers(0, o.nv - 1))
                        for _c in range(draw(st.integers(1, 3)))]
                vols[k] = Vol(len(comp), o.n, o.ng)
                s = "view %d %d %s" % (k, i, " ".join(map(str, comp)))
        elif op == "set":
            s = "set %d" % i
        prog.append(s)
    return dict(prog=prog, s=rng_seed, mag=draw(st.sampled_from([1.0, 1.0, 100.0])))


class Model:
    def __init__(self, c):
        self.v = {}
        self.rng = np.random.default_rng(c["s"])
        self.data = []
        self.mag = c["mag"]

    def take(self, n):
        x = np.round(self.rng.uniform(-self.mag, self.mag, n), 3)
        x[self.rng.random(n) < 0.05] = 0.0
        self.data.append(x)
        return x

    def step(self, line):
        """Returns (refused or None when either is fine, outputs)."""
        a = line.split()
        op = a[0]
        v = self.v
        I = lambda k: int(a[k])
        F = lambda k: float(a[k])
        shp = lambda x: (x.t[2], x.t[1], x.t[0])

        def inner(x, var):
            m = x.a[var][0].reshape(shp(x))
            g = x.g
            return m[g[2]:x.t[2] - g[2], g[1]:x.t[1] - g[1], g[0]:x.t[0] - g[0]]

        def put_inner(x, var, val):
            m = x.a[var][0].reshape(shp(x)).copy()
            g = x.g
            m[g[2]:x.t[2] - g[2], g[1]:x.t[1] - g[1], g[0]:x.t[0] - g[0]] = val
            x.a[var][0] = m.ravel()
        if op == "new":
            x = Vol(I(2), [I(3), I(4), I(5)], I(6))
            size = int(np.prod(x.t))
            d = self.take(size * x.nv)
            x.a = [[d[k * size:(k + 1) * size]] for k in range(x.nv)]
            v[I(1)] = x
            return False, []
        if op in ("inst", "instn"):
            o = v[I(2)]
            x = Vol(o.nv, o.n, o.ng) if op == "inst" else Vol(o.nv, [I(3), I(4), I(5)], 0)
            x.a = [[np.zeros(int(np.prod(x.t)))] for _ in range(x.nv)]
            v[I(1)] = x
            return False, []
        if op == "view":
            o = v[I(2)]
            comp = [int(k) for k in a[3:]]
            x = Vol(len(comp), o.n, o.ng)
            x.a = [o.a[k] for k in comp]
            v[I(1)] = x
            return False, []
        if op == "cpu":
            v[I(1)] = v[I(2)]
            return False, []
        if op == "set":
            x = v[I(1)]
            size = int(np.prod(x.t))
            d = self.take(size * x.nv)
            for k in range(x.nv):
                x.a[k][0] = d[k * size:(k + 1) * size]
            return False, []
        if op in ("vadd", "addpow", "addpowf", "subpow"):
            x, y = v[I(1)], v[I(2)]
            if not x.same(y):
                return True, []
            for k in range(x.nv):
                if op == "vadd":
                    x.a[k][0] = x.a[k][0] + y.a[k][0]
                else:
                    p = y.a[k][0] ** F(3)
                    f = F(4) if op == "addpowf" else -1.0 if op == "subpow" else 1.0
                    x.a[k][0] = x.a[k][0] + f * p
            return False, [1.0] if op == "vadd" else []
        if op == "vscale":
            x = v[I(1)]
            for k in range(x.nv):
                x.a[k][0] = x.a[k][0] * F(2)
            return False, [1.0]
        if op == "vzero":
            for m in v[I(1)].a:
                m[0] = np.zeros_like(m[0])
            return False, []
        if op == "copyto":
            x, y = v[I(1)], v[I(2)]
            if not x.same(y):
                return True, []
            for k in range(x.nv):
                y.a[k][0] = x.a[k][0].copy()
            return False, []
        if op == "setvol":
            x, y = v[I(1)], v[I(2)]
            if x.nv != y.nv:
                return True, []
            if x.n == y.n:
                for k in range(x.nv):
                    if x.t == y.t:
                        x.a[k][0] = y.a[k][0].copy()
                    else:
                        put_inner(x, k, inner(y, k).copy())
                return False, []
            dims = 1 if x.n[1] == 1 else 2 if x.n[2] == 1 else 3
            if any(y.n[d] != (2 * x.n[d] if d < dims else x.n[d]) for d in range(3)):
                return True, []
            for k in range(x.nv):
                u = inner(y, k)
                m = 0
                for dz in range(2 if dims > 2 else 1):
                    for dy in range(2 if dims > 1 else 1):
                        for dx in range(2):
                            m = m + u[dz::2 if dims > 2 else 1, dy::2 if dims > 1 else 1, dx::2]
                put_inner(x, k, m / 2 ** dims)
            return False, []
        if op == "lin":
            x = v[I(1)]
            ys = [(F(3 + 2 * k), v[I(4 + 2 * k)]) for k in range(4)]
            if not all(x.same(y) for _, y in ys):
                return True, []
            for k in range(x.nv):  # variables one after the other, as views may share
                r = F(2) * x.a[k][0]
                for c, y in ys:
                    r = r + c * y.a[k][0]
                x.a[k][0] = r
            return False, []
        if op == "mlin":
            x = v[I(1)]
            m = x.a[I(2)]
            r = F(3) * m[0]
            for k in range(4):
                y = v[I(5 + 3 * k)].a[I(6 + 3 * k)][0]
                if len(y) != len(r):
                    return True, []
                r = r + F(4 + 3 * k) * y
            m[0] = r
            return False, []
        if op in ("madd", "msub", "mmul", "mdiv", "mcopy", "mpow", "mpowf", "mspow"):
            m, y = v[I(1)].a[I(2)], v[I(3)].a[I(4)][0]
            x = m[0]
            if len(x) != len(y):
                return True, []
            m[0] = {"madd": lambda: x + y, "msub": lambda: x - y, "mmul": lambda: x * y,
                    "mdiv": lambda: x / y, "mcopy": lambda: y.copy(),
                    "mpow": lambda: x + y ** F(5), "mspow": lambda: x - y ** F(5),
                    "mpowf": lambda: x + F(6) * y ** F(5)}[op]()
            return False, []
        if op in ("sadd", "ssub", "smul", "sdiv", "szero"):
            m = v[I(1)].a[I(2)]
            x = m[0]
            m[0] = {"sadd": lambda: x + F(3), "ssub": lambda: x - F(3), "smul": lambda: x * F(3),
                    "sdiv": lambda: x / F(3), "szero": lambda: 0 * np.nan_to_num(
                        x, nan=0, posinf=0, neginf=0)}[op]()
            return False, []
        if op == "minst":
            x = v[I(1)]
            return False, [*x.t, float(np.prod(x.t)), 1.0] + list(x.a[I(2)][0])
        if op == "put":
            x = v[I(1)]
            m = x.a[I(2)][0].reshape(shp(x)).copy()
            m[I(5), I(4), I(3)] = F(6)
            x.a[I(2)][0] = m.ravel()
            return False, []
        if op == "get":
            x = v[I(1)]
            m = x.a[I(2)][0].reshape(shp(x))
            e = m[I(5), I(4), I(3)]
            return False, [e, e, float(m.size),
                           float((I(5) * x.t[1] + I(4)) * x.t[0] + I(3)), e]
        if op == "cin":
            return False, list(inner(v[I(1)], I(2)).ravel())
        if op == "cbox":
            x = v[I(1)]
            m = x.a[I(2)][0].reshape(shp(x))
            b = [I(3 + k) for k in range(6)]
            return False, list(m[b[4]:b[5], b[2]:b[3], b[0]:b[1]].ravel())
        if op == "tohost":
            return False, list(v[I(1)].a[I(2)][0]) + [-3.5] * 3
        if op == "fromhost":
            m = v[I(1)].a[I(2)]
            n = I(3)
            d = self.take(n)
            m[0] = np.concatenate([d, m[0][n:]])
            return False, []
        if op == "tv":
            x = v[I(1)]
            if x.n[2] > 1:
                return True, []
            u = inner(x, I(2))[0]
            p = I(3)
            dx = u[1:, 1:] - u[1:, :-1] if x.n[1] > 1 else u[:, 1:] - u[:, :-1]
            dy = u[1:, 1:] - u[:-1, 1:] if x.n[1] > 1 else 0
            return False, [float(np.sum(np.sqrt(dx ** 2 + dy ** 2) ** p))]
        if op == "tvd":
            x = v[I(1)]
            u = inner(x, I(2))
            return False, [float(np.sum(np.abs(np.diff(u, axis=2 - I(3))) ** I(4)))]
        if op == "info":
            x = v[I(1)]
            o = [x.nv, *x.n, *x.g, *x.t, 1 if x.n[1] == 1 else 2 if x.n[2] == 1 else 3]
            o += [*x.t, *x.n, *x.g, *x.t]
            for k in range(x.nv):
                o += [k, 1, int(np.prod(x.t))]
            return False, [float(k) for k in o + [0]]
        if op == "index":
            x = v[I(1)]
            nm = ["var%d" % k for k in range(x.nv)]
            if a[2] in nm:
                return False, [float(nm.index(a[2]))]
            return True, []
        raise HarnessError(op)


def close(o, e):
    o, e = np.asarray(o, float), np.asarray(e, float)
    if o.shape != e.shape:
        return False
    with np.errstate(all="ignore"):
        ok = (o == e) | (np.isnan(o) & np.isnan(e))
        ok |= np.abs(o - e) <= 1e-12 * np.abs(e)
    return bool(ok.all())


def ev(env, c):
    md = Model(c)
    # a dry run collects the data every instruction consumes
    for l in c["prog"]:
        md.step(l)
    data = np.concatenate(md.data) if md.data else np.zeros(0)
    r = env.call("volprog", {"data": data}, prog=";".join(c["prog"]))
    stat, sizes, out = r.s("status"), list(r["sizes"]), r["out"]
    md = Model(c)
    pos, sp, changed = 0, 0, 0
    for k, l in enumerate(c["prog"]):
        before = {i: [m[0] for m in x.a] for i, x in md.v.items()}
        refused, exp = md.step(l)
        n = int(sizes[sp])
        got = out[pos:pos + n]
        pos, sp = pos + n, sp + 1
        check((stat[k] == "r") == refused, lambda: "instruction %d '%s' was %s" % (
            k, l, "accepted" if refused else "refused"), "status")
        scale = max([1.0] + [float(np.nanmax(np.abs(np.where(np.isfinite(m[0]), m[0], 0))))
                             for x in md.v.values() for m in x.a])
        if not refused:
            e = np.array(exp, float)
            if l.split()[0] in ("tv", "tvd"):
                p = int(l.split()[-1])
                ok = len(got) == 1 and (close(got, e) or not np.isfinite(e[0]) or
                                        abs(got[0] - e[0]) <= 1e-12 * max(abs(e[0]), scale ** p))
            else:
                ok = close(got, e)
            check(ok, lambda: "instruction %d '%s' gave %r instead of %r" % (
                k, l, list(got), exp), "out")
        ids = sorted(md.v)
        newv = {}
        for i in ids:
            x = md.v[i]
            n = int(sizes[sp])
            got = out[pos:pos + n]
            pos, sp = pos + n, sp + 1
            size = int(np.prod(x.t))
            check(n == size * x.nv, "container %d has %d cells instead of %d after '%s'" % (
                i, n, size * x.nv, l), "size")
            for q in range(x.nv):
                o, e = got[q * size:(q + 1) * size], x.a[q][0]
                op = l.split()[0]
                fresh = i in before and any(e is b for b in before[i])
                if fresh or op in ("put", "set", "new", "copyto", "mcopy", "fromhost"):
                    ok = np.array_equal(o, e, equal_nan=True)
                else:
                    with np.errstate(all="ignore"):
                        ok = (o == e) | (np.isnan(o) & np.isnan(e)) | (
                            np.abs(o - e) <= 1e-12 * (np.abs(e) + scale * 4e3))
                        # overflow and 0 * inf depend on the order of the terms
                        big = ~np.isfinite(e) | (np.abs(e) > 1e250)
                        ok = bool((ok | big).all())
                check(ok, lambda: "after instruction %d '%s' cell values of container %d, variable "
                      "%d are %r instead of %r" % (k, l, i, q, list(o[:60]), list(e[:60])), "cells")
                newv[(i, q)] = o
        check(sizes[sp] == -1, "harness order")
        sp += 1
        if any(i not in before or any(m[0] is not b for m, b in zip(md.v[i].a, before[i]))
               for i in ids):
            changed += 1
        # continue from the values the containers really hold; drop explosions
        for i in ids:
            for q, m in enumerate(md.v[i].a):
                m[0] = newv[(i, q)]
                if not np.isfinite(m[0]).all() or np.abs(m[0]).max(initial=0) > 1e100:
                    return "exploded" if changed >= 3 else None
    return "%d" % (changed // 3) if changed >= 3 else None


SUBS = [Sub("programs", programs(), ev)]
TIME = dict(quick=30, thorough=400)
