"""Ids, positions and indices: every lookup and conversion is the row-major formula."""
from .common import *

W = "source_py/simulation/lattice.py"
IDX = "source_py.simulation.index"


def run(ck):
    reg = ck.regime("S")
    ck.rule("for symbolic L, row, column and orientation each lookup/conversion returns the element or number of the row-major formula")
    P = Probe(reg, reg.ctor)
    lat = P.attr(reg.me, "lattice_ref")
    r, c, s = site_syms()
    site = P.call(lat, "get_site_by_id", s)
    ok = isinstance(cls_of(site), Class) and cls_of(site).name == "Site"
    if not ck.ob("get_site_by_id(r*L+c) is a site", ok, W, sh(site)):
        return

    def is_site(name, o):
        ck.ob(name + " is the site of row r, column c", o is site, W, "got %s, expected %s" % (sh(o), sh(site)))

    def num(name, v, want):
        ck.ob(name, v is want, W, "got %s, expected %s" % (sh(v), sh(want)))

    num("id of the site at (r,c) is r*L+c", P.call(site, "get_id"), s)
    ix = P.call(site, "get_index")
    rc = as_list(P.items(P.call(ix, "as_list")))
    num("index of site r*L+c is (r,c)", P.call(ix, "row"), r)
    num("index column of site r*L+c", P.call(ix, "column"), c)
    ck.ob("index as list of site r*L+c is (r,c)", rc is not None and len(rc) == 2 and rc[0] is r and rc[1] is c, W, sh(rc))
    # the other direction: arbitrary id
    k = sym("id", "int", lo=ZERO, hi=sub(N, ONE))
    o = P.call(lat, "get_site_by_id", k)
    num("site stored under id k reports id k", P.call(o, "get_id"), k)
    oi = P.call(o, "get_index")
    num("row of id k is k // L", P.call(oi, "row"), fdiv(k, L))
    num("column of id k is k % L", P.call(oi, "column"), mod(k, L))
    # conversions
    index = P.made(IDX, "Index", r, c)
    is_site("get_site_by_index(Index(r,c))", P.call(lat, "get_site_by_index", index))
    num("get_id_from_index(r,c)", P.call(lat, "get_id_from_index", r, c), s)
    v = as_list(P.items(P.call(lat, "get_row_col_from_id", s)))
    ck.ob("get_row_col_from_id(r*L+c) is (c,r)", v is not None and len(v) == 2 and v[0] is c and v[1] is r, W, "got %s" % ([sh(x) for x in v] if v else v))
    num("calculate_id_from_index(Index(r,c))", P.call(lat, "calculate_id_from_index", index), s)
    num("calculate_id_from_index((r,c))", P.call(lat, "calculate_id_from_index", tup(r, c)), s)
    lst = P.ip.new_list(seq(r, c), fresh_node(), P.st)
    num("calculate_id_from_index([r,c])", P.call(lat, "calculate_id_from_index", lst), s)
    # bonds
    for ty, nm in ((0, "horizontal"), (1, "vertical")):
        b = add(s, mul(C(ty), N))
        bond = P.call(lat, "get_bond_by_id", b)
        num("id of the %s bond at (r,c)" % nm, P.call(bond, "get_id"), b)
        bi = as_list(P.items(P.call(bond, "get_index")))
        ck.ob("index of the %s bond is (type,r,c)" % nm, bi is not None and len(bi) == 3 and bi[0] is C(ty) and bi[1] is r and bi[2] is c, W,
              "got %s" % ([sh(x) for x in bi] if bi else bi))
        o = P.call(lat, "get_bond_by_index", r, c, C(ty))
        ck.ob("get_bond_by_index(r,c,%d)" % ty, o is bond, W, "got %s" % sh(o))
        if ty == 0:
            o = P.call(lat, "get_bond_by_index", r, c)
            ck.ob("get_bond_by_index(r,c) defaults to the horizontal bond", o is bond, W, "got %s" % sh(o))
        num("calculate_id_from_index(index of the %s bond)" % nm, P.call(lat, "calculate_id_from_index", P.call(bond, "get_index")), b)
        num("neighbour-bond helper %s_bond_of_site" % ("right" if ty == 0 else "bottom"),
            P.call(lat, "right_bond_of_site" if ty == 0 else "bottom_bond_of_site", s), b) if has_m(lat, "right_bond_of_site" if ty == 0 else "bottom_bond_of_site") else None
    ck.seen(P.ip)
    labels(ck, reg)


def has_m(o, nm):
    return cls_of(o).find(nm) is not None


def labels(ck, reg):
    """label and relative-index accessors address the element with the given id"""
    ck.rule("label and relative-index accessors by id/index read and write the addressed element only")
    r, c, s = site_syms()
    P = Probe(reg, reg.ctor)
    lat = P.attr(reg.me, "lattice_ref")
    site = P.call(lat, "get_site_by_id", s)
    g = sym("newlabel", "int", lo=ZERO)
    P.call(lat, "set_site_gid_by_id", s, g)
    for nm, v in (("site.get_gid", P.call(site, "get_gid")), ("get_site_gid_by_id", P.call(lat, "get_site_gid_by_id", s)),
                  ("get_site_gid_by_index", P.call(lat, "get_site_gid_by_index", P.made(IDX, "Index", r, c)))):
        ck.ob("set_site_gid_by_id(s,g) is what %s(s) reads" % nm, v is g, W, sh(v))
    # another site keeps its label
    r2, c2 = (sym(n, "int", lo=ZERO, hi=sub(L, ONE)) for n in ("row2", "col2"))
    t = add(mul(L, r2), c2)
    distinct_ = neg_b(and_(eq(r, r2), eq(c, c2)))
    v = P.call(lat, "get_site_gid_by_id", t)
    v0 = Probe(reg, reg.ctor).call(lat, "get_site_gid_by_id", t)
    ck.ob("set_site_gid_by_id(s,g) leaves other sites alone", assume(v, [distinct_]) is v0, W, sh(v))
    for ty in (0, 1):
        b = add(s, mul(C(ty), N))
        Q = Probe(reg, reg.ctor)
        Q.call(lat, "set_bond_gid_by_id", b, g)
        bond = Q.call(lat, "get_bond_by_id", b)
        ck.ob("set_bond_gid_by_id(b,g) is what bond.get_gid reads (type %d)" % ty, Q.call(bond, "get_gid") is g, W, sh(Q.call(bond, "get_gid")))
        ck.ob("set_bond_gid_by_id(b,g) is what get_bond_gid_by_id reads (type %d)" % ty, Q.call(lat, "get_bond_gid_by_id", b) is g, W, "")
    Q = Probe(reg, reg.ctor)
    x, y = sym("x", "int"), sym("y", "int")
    ri = Q.made(IDX, "RelativeIndex", x, y)
    Q.call(lat, "set_relative_index", s, ri)
    st = Q.call(lat, "get_site_by_id", s)
    got = Q.call(st, "get_relative_index")
    ck.ob("set_relative_index(s,.) is what the site reports", Q.call(got, "x_coord") is x and Q.call(got, "y_coord") is y, W, sh(got))
    Q.call(lat, "init_relative_index", s)
    got = Q.call(st, "get_relative_index")
    ck.ob("init_relative_index(s) sets (0,0)", Q.call(got, "x_coord") is ZERO and Q.call(got, "y_coord") is ZERO, W, sh(got))
    ck.seen(Q.ip)
    ck.seen(P.ip)
