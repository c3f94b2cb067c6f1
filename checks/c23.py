from vh.fw import *
from vh import gen, ref

ID = "C23"
TARGETS = ["alsh"]
WORKERS = 4
RULE = ("A case is a grid (1 to 3 dimensions, any box), boundary types per direction, a division over 2, 3, 4 "
        "or 6 processes (8 in the thorough tier), an equation, a ghost width and one to three states that are "
        "exchanged one after the other, in place or into a second volume. Blocks are compared with the part of "
        "the whole they stand for, halo faces with the cells of the whole grid, reductions with the maximum. "
        "Divisions that do not fit have to be refused on all processes. Non-trivial: some halo is filled from "
        "another process.")


def factors(n, nd):
    out = []
    for a in range(1, n + 1):
        for b in range(1, n + 1):
            if n % (a * b) == 0:
                c = n // (a * b)
                if (b == 1 or nd > 1) and (c == 1 or nd > 2):
                    out.append([a, b, c])
    return out


@st.composite
def cases(draw, np_):
    nd = draw(st.integers(1, 3))
    eq = draw(st.sampled_from(["burgers", "euler1", "euler2", "euler3"]))
    p = draw(st.sampled_from(factors(np_, nd)))
    ng = draw(st.integers(1, 4))
    n, m = [], []
    for d in range(3):
        m.append(1 if d >= nd else draw(st.integers(max(ng, 2), max(ng, {1: 9, 2: 6, 3: 4}[nd]))))
        n.append(m[-1] * p[d])
    c = dict(nd=nd, eq=eq, p=p, n=n, ng=ng, box=draw(gen.box(nd)),
             bc="".join(draw(st.sampled_from(["pp", "pp", "nn"])) for _ in range(3)),
             k=draw(st.integers(1, 3)), inplace=draw(st.sampled_from([1, 1, 0])),
             s=draw(st.integers(0, 10 ** 6)))
    if draw(st.integers(0, 11)) == 0:
        d = draw(st.sampled_from([d for d in range(nd) if p[d] > 1] or [0]))
        if p[d] > 1:
            c["n"][d] += draw(st.integers(1, p[d] - 1))
    return c


def ev(env, c, np_):
    nd, n, p, ng = c["nd"], c["n"], c["p"], c["ng"]
    nv = gen.nvars(c["eq"])
    rng = np.random.default_rng(c["s"])
    u = rng.uniform(-3, 3, [c["k"], nv] + n[::-1])
    vals = rng.uniform(-5, 5, (4, np_))
    vals[1] = -np.abs(vals[1])
    vals[2] *= 1e-300
    r = env.srv(np_, timeout=30).call(
        "decompose", {"u": u, "values": vals}, eq=c["eq"], bc=c["bc"], ng=ng, px=p[0], py=p[1],
        pz=p[2], inplace=c["inplace"], **gen.grid_args(c))
    stat = [r.s("status.%d" % q) for q in range(np_)]
    if any(n[d] % p[d] for d in range(3)):
        check(stat == ["err"] * np_, "cells that cannot be divided evenly: %s" % stat, "accepted")
        return "refused"
    check(stat == ["ok"] * np_, lambda: "refused: %s" % r.kv.get("what.0"), "refused")
    m = [n[d] // p[d] for d in range(3)]
    h = gen.cell_lengths(c)
    lo = c["box"]["lo"]
    pos = {}
    for q in range(np_):
        g = tuple(int(x) for x in r["gpos.%d" % q])
        check(all(g[d] % m[d] == 0 and 0 <= g[d] < n[d] for d in range(3)),
              lambda: "position %s of a block of %s cells" % (g, m), "position")
        check(g not in pos, "two processes hold the same block", "overlap")
        pos[g] = q
    got_remote = False
    for g, q in pos.items():
        w = "process %d at %s: " % (q, g)
        check(list(r["dims.%d" % q]) == m, lambda: w + "%s cells instead of %s" % (
            r["dims.%d" % q], m), "size")
        check(list(r["gsize.%d" % q]) == n, lambda: w + "whole of %s cells" % r["gsize.%d" % q], "size")
        check(r.i("active.%d" % q) == nd, w + "dimension %d" % r.i("active.%d" % q), "size")
        for d in range(nd):
            scale = abs(lo[d]) + n[d] * h[d]
            for what, e in (("origin", lo[d] + g[d] * h[d]), ("top", lo[d] + (g[d] + m[d]) * h[d])):
                x = r["%s.%d" % (what, q)][d]
                check(abs(x - e) <= 1e-12 * scale, lambda: w + "%s %r instead of %r in direction %d" % (
                    what, x, e, d), "place")
        for d in range(3):
            x = r["h.%d" % q][d]
            check(abs(x - h[d]) <= 1e-13 * h[d], lambda: w + "cell length %r instead of %r" % (x, h[d]),
                  "h")
        # boundary types and neighbours
        for d in range(nd):
            per = c["bc"][2 * d] == "p"
            for side in range(2):
                outer = g[d] == 0 if side == 0 else g[d] + m[d] == n[d]
                kind = int(r["bc.%d" % q][2 * d + side])
                nb = int(r["neighbours.%d" % q][2 * d + side])
                if p[d] == 1 or (outer and not per):
                    e = BC["p" if per else "n"]
                    check(kind == e and nb == -1, lambda: w + "side %d has boundary %d, neighbour %d" % (
                        2 * d + side, kind, nb), "side")
                else:
                    o = list(g)
                    o[d] = (o[d] + (m[d] if side else -m[d])) % n[d]
                    check(kind == BC["m"] and nb == pos[tuple(o)],
                          lambda: w + "side %d has boundary %d, neighbour %d instead of %d" % (
                              2 * d + side, kind, nb, pos[tuple(o)]), "side")
                    got_remote = True
        check(np.array_equal(r["max.%d" % q], vals.max(axis=1)), lambda: w + "maxima %s instead of %s" % (
            r["max.%d" % q], vals.max(axis=1)), "max")
        # halos
        gh = [ng if n[d] > 1 else 0 for d in range(3)]
        # the ghost layers follow from the size of the block
        gh = [ng if d == 0 or m[d] > 1 else 0 for d in range(3)]
        shp = [m[d] + 2 * gh[d] for d in range(3)]
        f = r["full.%d" % q]
        check(f.size == c["k"] * nv * int(np.prod(shp)), w + "size of the volume", "size")
        f = f.reshape([c["k"], nv] + shp[::-1])
        inner = tuple(slice(gh[d], gh[d] + m[d]) for d in (2, 1, 0))
        part = tuple(slice(g[d], g[d] + m[d]) for d in (2, 1, 0))
        for k in range(c["k"]):
            own = f[(k, slice(None)) + inner]
            if c["inplace"]:
                check(np.array_equal(own, u[(k, slice(None)) + part]), w + "the interior changed",
                      "interior")
            else:
                check(bool(np.all(own == -7.25)), w + "interior cells of the output changed", "interior")
            for d in range(nd):
                for side in range(2):
                    sl = list(inner)
                    sl[2 - d] = slice(0, ng) if side == 0 else slice(ng + m[d], 2 * ng + m[d])
                    face = f[(k, slice(None)) + tuple(sl)]
                    idx = [np.arange(s.start, s.stop) for s in part]
                    a = g[d] - ng if side == 0 else g[d] + m[d]
                    idx[2 - d] = np.arange(a, a + ng) % n[d]
                    e = u[k][np.ix_(range(nv), *idx)]
                    if int(r["neighbours.%d" % q][2 * d + side]) < 0:
                        e = np.full_like(e, -7.25)
                    check(np.array_equal(face, e), lambda: w + "state %d, halo of side %d holds %r instead "
                          "of %r" % (k, 2 * d + side, face[face != e][0], e[face != e][0]), "halo")
    return "%dd p=%s" % (nd, p) if got_remote else None


BC = {}


def codes(env):
    if not BC:
        r = env.srv(2).call("decompose", bc="pppppp", nx=8, px=2)
        BC["m"] = int(r["bc.0"][0])
        r = env.call("decompose", bc="pppppp", nx=8)
        BC["p"] = int(r["bc"][0])
        r = env.call("decompose", bc="nnnnnn", nx=8)
        BC["n"] = int(r["bc"][0])
        if len(set(BC.values())) != 3:
            raise Violation("periodic, neumann and process boundaries are not told apart", "side")


def make(np_, w, tier=None):
    def f(env, c):
        codes(env)
        return ev(env, c, np_)
    return Sub("blocks%d" % np_, cases(np_), f, w, tier, batch=150)


SUBS = [make(2, 1), make(4, 2), make(3, 0.7), make(6, 1.5), make(8, 1.5, "thorough")]
TIME = dict(quick=40, thorough=400)
