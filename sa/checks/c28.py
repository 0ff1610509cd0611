"""Coordinate arithmetic and lattice distances: value terms of the index operations for symbolic components."""
from .common import *

W = "source_py/simulation/index.py"
IDX = "source_py.simulation.index"
KIND = ("Index", "RelativeIndex")


def comps(P, o):
    return P.call(o, "row"), P.call(o, "column")


def same(P, v, want, facts=()):
    got = comps(P, v)
    return all(equal_under([TRUE] + list(facts), g, w) for g, w in zip(got, want)), "got (%s, %s), expected (%s, %s)" % tuple(sh(x) for x in got + tuple(want))


def run(ck):
    reg = ck.regime("S")
    ck.rule("for arbitrary components, sum, difference, construction from another index and the accessors are component-wise and leave their operands alone; "
            "normalising an axis-parallel index keeps its direction and makes its length one, any other index stays as it is")
    ck.rule("the distance of two positions is, per component, the absolute difference with L-1 counted as 1; it is symmetric, independent of whether sites or "
            "indices are given, and (1,0) or (0,1) for each of the four neighbours including those across an edge")
    a1, a2, b1, b2 = [sym(x, "int") for x in ("a1", "a2", "b1", "b2")]
    for ka in KIND:
        P = Probe(reg, reg.ctor)
        a = P.made(IDX, ka, a1, a2)
        w = "%s:%s" % (W, ka)
        ok, d = same(P, a, (a1, a2))
        ck.ob("%s(a, b) has the components a and b" % ka, ok, w, d)
        v = as_list(P.items(P.call(a, "as_list")))
        ck.ob("%s.as_list() is the pair of its components" % ka, v is not None and len(v) == 2 and v[0] is a1 and v[1] is a2, w, sh(v[0]) if v else "no pair")
        if ka == "RelativeIndex":
            v = P.call(a, "x_coord"), P.call(a, "y_coord")
            ck.ob("x_coord() and y_coord() are the two components", v[0] is a1 and v[1] is a2, w, "%s, %s" % (sh(v[0]), sh(v[1])))
            o = P.made(IDX, ka)
            ok, d = same(P, o, (ZERO, ZERO))
            ck.ob("RelativeIndex() is the origin", ok, w, d)
        for kb in KIND:
            P = Probe(reg, reg.ctor)
            a, b = P.made(IDX, ka, a1, a2), P.made(IDX, kb, b1, b2)
            for op, nm, f in (("__sub__", "difference", sub), ("__add__", "sum", add)):
                v = P.call(a, op, b)
                if not ck.ob("the %s of %s and %s is an index" % (nm, ka, kb), isinstance(cls_of(v), Class) and cls_of(v).find("row") is not None, w, sh(v)):
                    continue
                if ka == kb == "RelativeIndex" and op == "__sub__":
                    ck.ob("the difference of two relative indices is a relative index", cls_of(v).name == "RelativeIndex", w, cls_of(v).name)
                ok, d = same(P, v, (f(a1, b1), f(a2, b2)))
                ck.ob("the %s of %s and %s is component-wise" % (nm, ka, kb), ok, w, d)
                ck.ob("the %s of %s and %s is a new object" % (nm, ka, kb), v is not a and v is not b, w, sh(v))
            ok, d = same(P, a, (a1, a2))
            ok2, d2 = same(P, b, (b1, b2))
            ck.ob("arithmetic of %s and %s leaves the operands alone" % (ka, kb), ok and ok2, w, d if not ok else d2)
            if ka == "RelativeIndex":
                v = P.made(IDX, ka, **{"index": b})
                ok, d = same(P, v, (b1, b2))
                ck.ob("RelativeIndex(index=%s) has its components" % kb, ok and v is not b, w, d)
        p, q = sym("p", "int", lo=ONE), sym("q", "int", lo=ONE)
        m, n = neg(p), neg(q)
        for c, want in (((ZERO, q), (ZERO, ONE)), ((ZERO, n), (ZERO, C(-1))), ((p, ZERO), (ONE, ZERO)), ((m, ZERO), (C(-1), ZERO)), ((ZERO, ZERO), (ZERO, ZERO)),
                        ((p, q), (p, q)), ((p, n), (p, n)), ((m, q), (m, q)), ((m, n), (m, n))):
            P = Probe(reg, reg.ctor)
            a = P.made(IDX, ka, *c)
            P.call(a, "normalize")
            ok, d = same(P, a, want)
            ck.ob("normalising the %s (%s, %s)" % (ka, sh(c[0]), sh(c[1])), ok, w, d)
            ck.count("index operations", 1)
    distance(ck, reg)


def distance(ck, reg):
    P = Probe(reg, reg.ctor)
    lat = P.attr(reg.me, "lattice_ref")
    w = "source_py/simulation/lattice.py:distance_btn_sites"
    p = [sym(x, "int", lo=ZERO, hi=sub(L, ONE)) for x in ("r1", "c1", "r2", "c2")]
    ids = add(mul(L, p[0]), p[1]), add(mul(L, p[2]), p[3])
    site = [P.call(lat, "get_site_by_id", i) for i in ids]
    idx = [P.made(IDX, "Index", *p[:2]), P.made(IDX, "Index", *p[2:])]

    def dist(x, y):
        v = as_list(P.items(P.call(lat, "distance_btn_sites", x, y)))
        return v if v is not None and len(v) == 2 else None

    base = dist(idx[0], idx[1])
    for nm, x, y in (("two sites", site[0], site[1]), ("a site and an index", site[0], idx[1]), ("an index and a site", idx[0], site[1])):
        v = dist(x, y)
        ok = v is not None and base is not None and all(equal_under([TRUE], g, e) for g, e in zip(v, base))
        ck.ob("the distance of %s is that of their indices" % nm, ok, w, "got %s" % ([sh(z) for z in v] if v else v))
    s, d, t, e = sym("s", "int", lo=ZERO), sym("d", "int", lo=ONE, hi=sub(L, C(2))), sym("t", "int", lo=ZERO), sym("e", "int", lo=ONE, hi=sub(L, C(2)))
    last = sub(L, ONE)
    rows = ((s, s, ZERO), (s, add(s, d), d), (add(s, d), s, d), (ZERO, last, ONE), (last, ZERO, ONE))
    cols = ((t, t, ZERO), (t, add(t, e), e), (add(t, e), t, e), (ZERO, last, ONE), (last, ZERO, ONE))
    for x1, x2, dx in rows:
        for y1, y2, dy in cols:
            P2 = Probe(reg, reg.ctor)
            v = P2.call(lat, "distance_btn_sites", P2.made(IDX, "Index", x1, y1), P2.made(IDX, "Index", x2, y2))
            v = as_list(P2.items(v))
            ok = v is not None and len(v) == 2 and v[0] is dx and v[1] is dy
            ck.ob("the distance of (%s, %s) and (%s, %s) is the absolute difference per component, L-1 counting as 1" % tuple(sh(z) for z in (x1, y1, x2, y2)), ok, w,
                  "got %s" % ([sh(z) for z in v] if v else v))
    ck.count("distance cases", 25)
    v, u = dist(site[0], site[1]), dist(site[1], site[0])
    ck.ob("the distance is symmetric", v is not None and u is not None and all(equal_under([TRUE], g, e) for g, e in zip(v, u)), w, "")
    r, c = p[0], p[1]
    k = sym("k", "int", lo=ZERO, hi=sub(L, C(2)))
    k1 = add(k, ONE)
    for nm, a, b, e in (("right", (r, k), (r, k1), (ZERO, ONE)), ("right, across the edge", (r, last), (r, ZERO), (ZERO, ONE)), ("left", (r, k1), (r, k), (ZERO, ONE)),
                        ("left, across the edge", (r, ZERO), (r, last), (ZERO, ONE)), ("lower", (k, c), (k1, c), (ONE, ZERO)), ("lower, across the edge", (last, c), (ZERO, c), (ONE, ZERO)),
                        ("upper", (k1, c), (k, c), (ONE, ZERO)), ("upper, across the edge", (ZERO, c), (last, c), (ONE, ZERO))):
        P2 = Probe(reg, reg.ctor)
        v = as_list(P2.items(P2.call(lat, "distance_btn_sites", P2.made(IDX, "Index", *a), P2.made(IDX, "Index", *b))))
        ck.ob("the %s neighbour is at distance one" % nm, v is not None and len(v) == 2 and v[0] is e[0] and v[1] is e[1], w, "got %s" % ([sh(z) for z in v] if v else v))
