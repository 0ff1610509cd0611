"""Relative coordinates: what a placement does to them, and the wrapping test that reads them."""
from .bookkeeping import *
from .c15 import positions, step_, same, at, same_id

XY = ("x_coord", "y_coord")


def run(ck):
    ck.rule("after a placement at x: the coordinates of x are those of the other end of a bond of x in the surviving cluster plus the unit step from there to "
            "x (0,0 when that site is empty); every site of an absorbed cluster moves by one displacement that depends on its cluster only and equals "
            "coordinates(x) + unit step to y - coordinates(y) for the other end y of a bond of x in that cluster; no other coordinates change, and no other "
            "operation but reset changes any; the unit step is decided for every direction and every distance to the edge; the wrapping test answers "
            "'exists a same-label neighbour with a coordinate difference above one'")
    ck.each(KINDS, lambda k: one(ck, k))


def rel(V, s):
    o = V.P.call(V.site(s), "get_relative_index")
    return tuple(V.P.call(o, m) for m in XY)


def rel_(V, s):
    """with the definitions of names put back"""
    return tuple(TM.unnamed(v) for v in rel(V, s))


def one(ck, kind):
    S = Step(ck, kind)
    frame(ck, S)
    wrapping(ck, S)
    with S:
        step(ck, S)


def frame(ck, S):
    reg, nm = S.reg, S.nm
    s = sym("s#", "int", lo=ZERO, hi=sub(N, ONE))
    for op, r in sorted(reg.results.items()):
        if op in ("reset", "place_one_site", "run_once", "test_run_once"):
            continue
        a, b = rel(View(reg, r.pre), s), rel(View(reg, r.post), s)
        ck.ob("%s.%s leaves the relative coordinates alone" % (nm, op), a == b, reg.K.find(op.split("/")[0]).where, "they become %s" % [sh(x, 300) for x in b])
    for op in ("run_once", "test_run_once"):
        r = reg.results.get(op)
        if r is None:
            continue
        f = reg.K.find(op)
        bad = sorted({e.where for e in r.events if e.kind == "write" and (e.a[1] in coord_fields(S))})
        ck.ob("%s.%s itself does not touch relative coordinates" % (nm, op), not bad, f.where, "written at %s" % bad)


def coord_fields(S):
    """the attributes the coordinates of a site are read from"""
    reg = S.reg
    v = rel(View(reg, reg.state()), sym("s#", "int", lo=ZERO, hi=sub(N, ONE)))
    return {x.a[0].a[0] for t in v for x in TM.subterms(t) if x.op == "sel" and x.a[0].op == "minit"}


def wrapping(ck, S):
    reg, nm = S.reg, S.nm
    f = reg.K.find("detect_wrapping")
    if f is None:
        raise Missing("%s.detect_wrapping" % nm)
    r = reg.results["detect_wrapping"]
    V = View(reg, r.pre)
    from .c09 import keys
    on = r.pre.cells[keys(reg)[0]]
    x = r.pre.cells[reg.selection()[1]]
    some = neg_b(eq(x, NONE))
    near = V.P.items(V.P.call(V.lat, "get_site_neighbor_of_site", at(x, some)))
    j = tmpidx(length(near))
    y = elem(near, j)
    a, b = rel(V, at(x, some)), rel(V, y)
    far = or_(*[lt(ONE, TM.absn(sub(p, q))) for p, q in zip(a, b)])
    want = exists(length(near), j, and_(eq(V.site_label(y), V.site_label(at(x, some))), far))
    got = at(r.ret, some, neg_b(on))
    ck.ob("%s.detect_wrapping reports a wrap exactly when a same-label neighbour of the last placed site is more than one unit away" % nm, same(got, want), f.where,
          "it answers %s, expected %s" % (sh(got, 700), sh(want, 700)))
    got = at(r.ret, neg_b(some), neg_b(on))
    ck.ob("%s.detect_wrapping reports nothing before the first placement" % nm, got is FALSE, f.where, "it answers %s" % sh(got, 300))


# ---------------------------------------------------------------- the placement step
def ends(S, t):
    """the other ends of bonds of x whose coordinates the term reads: {site: bond}"""
    out = {}
    for u in TM.subterms(t):
        if u.op == "elem" and u.a[0].op == "remove" and u.a[0].a[1] is S.x and u.a[1] is ZERO:
            e = u.a[0].a[0]
            if e.op == "sel" and e.a[1].op == "own" and e.a[1].a[1].op == "elem":
                out[u] = e.a[1].a[1].a[1]
    return out


def of_near(S, b):
    """the bond is an item of the bond list of x"""
    if b.op != "elem":
        return False
    l = b.a[0]
    while l.op in ("distinctby", "perm", "distinct", "aslist", "sorted", "rev"):
        l = l.a[0]
    return l is S.near


def units(ck, name, diff, S, y, comp, back, bad):
    """diff is the unit step of component comp from y to x (back: from x to y), for every direction and edge distance"""
    rr, cc = sym("r#", "int", lo=ZERO, hi=sub(L, ONE)), sym("c#", "int", lo=ZERO, hi=sub(L, ONE))
    for d, (dr, dc) in (("right", (0, 1)), ("left", (0, -1)), ("down", (1, 0)), ("up", (-1, 0))):
        for pos, p in positions(dr or dc):
            a, b = (p, cc) if dr else (rr, p)
            xs = add(mul(L, a), b)
            ys = add(mul(L, step_(a, dr, pos, 1)), step_(b, dc, pos, 1))
            got = TM.replace(TM.replace(diff, y, ys), S.x, xs)
            want = C((dr, dc)[comp] * (1 if back else -1))
            if not same_id(got, want):
                bad.append("neighbour %s of (%s,%s): difference %s instead of %s" % (d, sh(a), sh(b), sh(got, 200), sh(want)))
    ck.count("unit steps", 12)


def step(ck, S):
    reg, nm, w = S.reg, S.nm, S.w
    A, B = S.pre, S.post
    x = S.x
    # ---- the placed site
    bad, frm, zero = [], [], []
    val = rel(B, x)
    for c, v in enumerate(val):
        v = TM.unnamed(v)
        es = {y: b for y, b in ends(S, v).items()}
        es = {y: b for y, b in es.items() if reads(A, v, y, c)}
        if len(es) != 1:
            frm.append("%s reads the coordinates of %s" % (XY[c], [sh(y, 200) for y in es] or "no neighbour"))
            continue
        y, b = es.popitem()
        R = TM.unnamed(S.root)
        lab = A.label(b)
        if not of_near(S, b) or not (lab is R or equal_under([], lab, R) or TM.unnamed(A.label(b)) is R or belongs(S, b)):
            frm.append("%s: the bond to %s is not one of the surviving cluster" % (XY[c], sh(y, 300)))
        occ = le(ZERO, A.site_label(y))
        d = sub(at(v, occ, neg_b(eq(x, y))), rel_(A, y)[c])
        units(ck, "x", d, S, y, c, False, bad)
        z = at(v, neg_b(occ), neg_b(eq(x, y)))
        if z is not ZERO:
            zero.append("%s: %s" % (XY[c], sh(z, 300)))
    ck.ob("%s.place_one_site: the new site takes its coordinates from one neighbour in the surviving cluster" % nm, not frm, w, "; ".join(frm))
    ck.ob("%s.place_one_site: the new site is one unit step from that neighbour, also across the edge" % nm, not bad and not frm, w, "; ".join(bad[:3] or frm))
    ck.ob("%s.place_one_site: without an occupied neighbour there the new site starts at (0,0)" % nm, not zero, w, "; ".join(zero))
    # ---- the other sites
    s = sym("s#", "int", lo=ZERO, hi=sub(N, ONE))
    g = A.site_label(s)
    lst = A.sites(g)
    at_ = TM.posof(lst, s)
    inside = [le(ZERO, g), le(ONE, length(lst)), le(ZERO, at_), le(add(at_, ONE), length(lst)), neg_b(eq(s, x))]       # I5: s is in the list of its cluster
    member_ = member(g, S.G)
    moved = and_(member_, neg_b(eq(g, S.root)))
    stay, one_, frm, bad = [], [], [], []
    old, new = rel(A, s), rel(B, s)
    gsym = sym("g#", "int", lo=ZERO, hi=sub(B2, ONE))
    for c in (0, 1):
        for lab, fs in (("of an empty site", [le(add(g, ONE), ZERO), neg_b(eq(s, x))]), ("of a site of another cluster", inside + [neg_b(member_)]),
                        ("of a site of the surviving cluster", inside + [eq(g, S.root)])):
            if not equal_under(fs, new[c], old[c]):
                stay.append("%s %s becomes %s" % (XY[c], lab, sh(at(new[c], *fs), 300)))
        v = at(new[c], *(inside + [moved]))
        d = sub(v, old[c])
        alts = [(cond, sub(at(d, *cond), mine)) for cond, mine in cases(val[c])]
        if any(choices_(TM.unnamed(r)) > 4 for _, r in alts):
            # the position of the new site did not cancel as a whole: case by case
            u = TM.unnamed(d)
            alts = [(cond, sub(at(u, *cond), mine)) for cond, mine in cases(TM.unnamed(val[c]))]
        for cond, r in alts:
            # a cluster is connected: the bond of x through which it is reached ends in one of its sites
            for y, b in ends(S, TM.unnamed(r)).items():
                if of_near(S, b) and belongs(S, b, g):
                    r = at(with_label(A, r, y, g), *[TM.unnamed(f) for f in inside + [moved]])
            r = TM.unnamed(r)
            if TM.has(TM.replace(r, TM.unnamed(g), gsym), s):
                one_.append("%s changes by %s" % (XY[c], sh(r, 400)))
                continue
            es = {y: b for y, b in ends(S, r).items() if reads(A, r, y, c)}
            if len(es) != 1:
                frm.append("%s reads the coordinates of %s" % (XY[c], [sh(y, 200) for y in es] or "no neighbour"))
                continue
            y, b = es.popitem()
            if not of_near(S, b) or not belongs(S, b, g):
                frm.append("%s: the bond to %s is not one of the absorbed cluster" % (XY[c], sh(y, 300)))
            units(ck, "y", add(at(r, neg_b(eq(x, y))), rel_(A, y)[c]), S, y, c, True, bad)
    ck.ob("%s.place_one_site keeps the coordinates of every other cluster and of the surviving one" % nm, not stay, w, "; ".join(stay))
    ck.ob("%s.place_one_site moves the sites of an absorbed cluster by one displacement" % nm, not one_, w, "; ".join(one_))
    ck.ob("%s.place_one_site: the displacement refers to a neighbour in the absorbed cluster" % nm, not frm, w, "; ".join(frm))
    ck.ob("%s.place_one_site: the displacement restores the unit step to that neighbour, also across the edge" % nm, not bad and not frm and not one_, w,
          "; ".join(bad[:3] or frm or one_))
    ck.count("placement steps", 1)


def reads(V, t, y, c):
    u = rel_(V, y)[c]
    return any(z is u for z in TM.subterms(t))


def belongs(S, b, g=None):
    """the label of the bond is g (default: the surviving cluster): its position in the list is where g stands among the labels"""
    if b.op != "elem":
        return False
    want = TM.unnamed(S.root if g is None else g)
    for u in TM.subterms(b.a[1]):
        if u.op == "posof" and TM.unnamed(u.a[1]) is want and u is b.a[1]:
            return True
    return False


def with_label(V, t, y, g):
    """t where the site y has the label g"""
    l = V.site_label(y)
    t = TM.unnamed(t)
    t = TM.replace(t, TM.unnamed(l), TM.unnamed(g))
    return at(t, le(ZERO, TM.unnamed(g)))


def choices_(t):
    return sum(1 for x in TM.subterms(t) if x.op == "ite" and x.ty != "bool")


def cases(v, cond=()):
    """the alternatives of a value"""
    if v.op == "ite":
        return cases(v.a[1], cond + (v.a[0],)) + cases(v.a[2], cond + (neg_b(v.a[0]),))
    if v.op == "poly":
        for m in TM.to_poly(v):
            for x, e in m:
                if x.op == "ite":
                    c = x.a[0]
                    return cases(at(TM.replace(v, x, x.a[1]), c), cond + (c,)) + cases(at(TM.replace(v, x, x.a[2]), neg_b(c)), cond + (neg_b(c),))
    return [(cond, v)]
