"""Periodic wiring: closed forms of both neighbour tables and of every neighbour query."""
from .common import *


def run(ck):
    reg = ck.regime("S")
    ck.rule("both neighbour tables, evaluated symbolically for every length L>=3 and every row/column, have the periodic closed forms")
    P = Probe(reg, reg.ctor)
    lat = P.attr(reg.me, "lattice_ref")
    LATM = reg.K.find("detect_wrapping").where.split(":")[0]
    r, c, s = site_syms()
    N2 = mul(C(2), N)
    nb = wiring(ck, reg, P, lat, r, c, s)
    queries(ck, reg, lat)
    ck.seen(reg.ctor_ip)
    ck.seen(P.ip)


def expected_bonds(r, c):
    s = add(mul(L, r), c)
    right = s
    left = add(mul(L, r), mod(sub(c, ONE), L))
    down = add(s, N)
    up = add(N, mul(L, mod(sub(r, ONE), L)), c)
    return {"right": right, "bottom": down, "left": left, "top": up}


def wiring(ck, reg, P, lat, r, c, s):
    W = "source_py/simulation/lattice.py"
    exp = expected_bonds(r, c)
    # counts
    for nm, want in (("get_site_id_list", N), ("get_bond_id_list", mul(C(2), N))):
        v = P.items(P.call(lat, nm))
        i = idx("k", want)
        ok = length(v) is want and elem(v, i) is i
        ck.ob("%s lists 0..%s-1" % (nm, sh(want)), ok, W, "got %s" % sh(v))
    # site -> bonds
    for nm in ("get_neighbor_bonds", "find_neighbor_bonds"):
        v = P.items(P.call(lat, nm, s))
        xs = as_list(v)
        if xs is None:
            ck.ob("%s(r*L+c) has four entries" % nm, False, W, "content %s" % sh(v, 300))
            continue
        ck.ob("%s(r*L+c) has four entries" % nm, len(xs) == 4, W, "got %d" % len(xs))
        for side, e in exp.items():
            ck.ob("%s(r*L+c) contains the %s bond" % (nm, side), xs.count(e) == 1, W, "expected %s, table has %s" % (sh(e), [sh(x) for x in xs]))
    # bond -> sites
    for ty, nm in ((0, "horizontal"), (1, "vertical")):
        b = s if ty == 0 else add(s, N)
        exps = [s, add(mul(L, r), mod(add(c, ONE), L)) if ty == 0 else add(mul(L, mod(add(r, ONE), L)), c)]
        lst = P.call(lat, "get_neighbor_sites", b)
        xs = as_list(P.items(lst)) if cls_of(lst) != "list" or not stuck_content(P.items(lst)) else None
        if xs is not None:
            good = len(xs) == 2 and all(xs.count(e) == 1 for e in exps)
            ck.ob("%s bond (r,c) joins exactly its two adjacent sites" % nm, good, W, "got %s, expected %s" % ([sh(x) for x in xs], [sh(x) for x in exps]))
            continue
        appended(ck, reg, lst, nm, r, c, exps, W)


def stuck_content(t):
    return contains_op(t, ("sel", "minit", "mth", "maft", "mbulk"))


def appended(ck, reg, lst, nm, r, c, exps, W):
    """contents collected from the append effects on the bond's list during construction"""
    place = position(lst, r, c)
    if place is None:
        ck.ob("%s bond's list identified" % nm, False, W, sh(lst))
        return
    lab = lst.a[0]
    got = []
    bad = []
    sites = set()
    evs = [e for e in reg.ctor_events if e.kind == "mut" and home(e.a[0]) == lab]
    for e in evs:
        ck.count("append_effects")
        sites.add(e.where)
        if e.a[1] not in ("append", "extend") or len(e.a[2]) != 1:
            bad.append("%s at %s" % (e.a[1], e.where))
            continue
        v = e.a[2][0]
        if e.a[1] == "extend":
            bad.append("extend at %s" % e.where)
            continue
        lp, mp = by_row_col(e.loops)
        v = subst(v, mp)
        ar, ac = place([subst(x, mp) for x in e.a[0].a[1:]])
        inv = {}
        ok = True
        for a, t in ((ar, r), (ac, c)):
            x = solve_shift(a, t, lp)
            if x is None:
                ok = False
                break
            inv[x[0]] = x[1]
        free = [i for i in lp if has(v, i) or any(has(x, i) for x in (ar, ac))]
        if not ok or any(i not in inv for i in free) or any(lp[i] is not L for i in inv):
            bad.append("append of %s to bond (%s,%s) at %s" % (sh(v), sh(ar), sh(ac), e.where))
            continue
        if any(i not in inv and lp[i] is not ONE for i in lp):
            bad.append("append repeated by an unrelated loop at %s" % e.where)
            continue
        g = capacity_free(subst(e.guard, mp))
        if subst(g, inv) is not TRUE and g is not TRUE:
            bad.append("append under an extra condition %s at %s" % (sh(g), e.where))
            continue
        got.append(subst(v, inv))
    ok = not bad and len(got) == 2 and all(got.count(x) == 1 for x in exps)
    ck.ob("%s bond (r,c) joins exactly its two adjacent sites" % nm, ok, ", ".join(sorted(sites)) or W,
          "; ".join(bad) or "collected %s, expected %s" % ([sh(x) for x in got], [sh(x) for x in exps]))


def position(lst, r, c):
    """where the row and column of the bond are found in the place its list was made: in two loop indices or in one number"""
    if lst.op != "new":
        return None
    xs = lst.a[1:]
    if len(xs) == 2 and xs[0] is not xs[1] and {xs[0], xs[1]} == {r, c}:
        pr = 0 if xs[0] is r else 1
        return lambda ys: (ys[pr], ys[1 - pr])
    if len(xs) == 1:
        off = sub(xs[0], add(mul(L, r), c))
        if not has(off, r) and not has(off, c):
            return lambda ys: (fdiv(sub(ys[0], off), L), mod(sub(ys[0], off), L))
    return None


def by_row_col(loops):
    """loops over all L*L sites seen as loops over rows and columns"""
    lp, mp = {}, {}
    for i, n, k in loops:
        if n is N:
            a, b = idx(str(i.a[0]) + ".r", L), idx(str(i.a[0]) + ".c", L)
            mp[i] = add(mul(L, a), b)
            lp[a] = lp[b] = L
        else:
            lp[i] = n
    return lp, mp


def solve_shift(a, t, lp):
    """a(i) == t for one loop index i ranging over 0..L-1: returns (i, its value in terms of t)"""
    if a in lp:
        return a, t
    for i in lp:
        if has(a, i):
            for k in (-1, 1, -2, 2):
                if a is mod(add(i, C(k)), L):
                    return i, mod(sub(t, C(k)), L)
    return None


def capacity_free(g):
    """drop the capacity test len(list) < 2: at most two appends reach each bond, which the count above establishes"""
    mp = {}
    for x in subterms(g):
        if x.op == "len" and contains_op(x, ("sel",)):
            y = sym("len<cap:%d" % x.id, "int", lo=ZERO, hi=ONE)
            mp[x] = y
    return subst(g, mp) if mp else g


# ---------------------------------------------------------------- neighbour queries
def queries(ck, reg0, lat):
    """each query returns, for each bond of the site, the other endpoint of that bond"""
    reg = reg0
    ck.rule("every neighbour query is the per-bond 'other endpoint' map over the tables, whatever the tables contain")
    st = reg.state("q")
    P = Probe(reg, st)
    lat = P.attr(reg.me, "lattice_ref")
    s = sym("s", "int", lo=ZERO, hi=sub(N, ONE))
    bonds = P.items(P.call(lat, "get_neighbor_bonds", s))
    W = "source_py/simulation/lattice.py"
    j = idx("j", length(bonds))
    b = elem(bonds, j)
    ends = P.items(P.call(lat, "get_neighbor_sites", b))
    other = elem(remove(ends, s), ZERO)
    want = mapt(length(bonds), j, other)
    for nm in ("get_all_neighbor_sites", "get_site_neighbor_of_site"):
        v = P.items(P.call(lat, nm, s))
        ck.ob("%s(s) lists the other endpoint of each bond of s" % nm, same_seq(v, want), W, "got %s" % sh(v, 400))
    # same-cluster neighbours: the filtered list
    gid = lambda x: P.call(lat, "get_site_gid_by_id", x)
    v = P.items(P.call(lat, "get_sites_for_wrapping_test", s))
    w = fmapt(length(bonds), j, eq(gid(other), gid(s)), other)
    ck.ob("get_sites_for_wrapping_test(s) lists exactly the neighbours carrying the label of s", same_seq(v, w), W, "got %s" % sh(v, 400))
    # percolation level
    me = reg.me
    v = P.call(me, "get_neighbor_site", s, b)
    ck.ob("get_neighbor_site(s, bond) is the other endpoint", v is other, "source_py/simulation/percolation_sq_lattice.py", "got %s" % sh(v, 400))
    so = P.call(lat, "get_site_by_id", s)
    lst = P.call(so, "connecting_bonds")
    v = P.items(P.call(me, "get_connected_sites", so, lst))
    # the element reports its own id (C02), so the id of the site object is s
    ck.ob("get_connected_sites(site, its bonds) lists the other endpoints", same_seq(v, want), "source_py/simulation/percolation_sq_lattice.py", "got %s" % sh(v, 400))
    ck.seen(P.ip)


def same_seq(a, b):
    if a is b:
        return True
    if length(a) is not length(b):
        return False
    i = idx("probe", length(a))
    return elem(a, i) is elem(b, i)
