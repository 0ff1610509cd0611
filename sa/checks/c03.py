"""Lattice geometry is frozen: no geometry query depends on a location that any operation changes."""
from .common import *
from .c04 import targets, analyse, KINDS

W = "source_py/simulation/lattice.py"


def moving(reg, t, params):
    """locations in the dependence set of a query's answer that some operation changes"""
    bad = []
    for x in TM.subterms(t):
        if x.op == "sel" and x.a[0].op == "minit":
            m, o = x.a[0], x.a[1]
            if m.a[0] == "$c" and o.op == "own":
                if o.a[0] in reg.mut_own or o.a[0] in reg.mut_mems:
                    bad.append("%s.%s" % o.a[0])
            elif m.a[0] != "$c":
                if not isinstance(cls_of(o), Class) or (cname(o), m.a[0]) in reg.mut_mems:
                    bad.append("%s.%s" % (cname(o), m.a[0]))
            else:
                bad.append("list %s" % sh(o, 60))
        elif x.op == "own" and (x.a[0] in reg.mut_own or x.a[0] in reg.mut_mems):
            bad.append("%s.%s" % x.a[0])
        elif x.op in ("hv", "res", "call"):
            bad.append(sh(x, 60))
        elif x.op == "sym" and x not in params and x not in reg.fam and x is not L and not str(x.a[0]).startswith("slot:"):
            bad.append(sh(x, 60))
    return list(dict.fromkeys(bad))


def run(ck):
    ck.rule("the set of locations changed by any operation or observer (fixpoint over their effect sets) is disjoint from the locations the "
            "geometry queries depend on; own lists of sites and bonds are never mutated after construction")
    def one(kind):
        reg = ck.regime(kind, ops=True)
        reg.ip0 = reg.interp()
        for label, get, spec in targets(reg, kind):
            r = analyse(reg, get, spec)
            if r is not None:
                reg.absorb(r)
                ck.count("observers")
        ck.count("operations", len(reg.results))
        ck.count("changing_locations", len(reg.mut_cells) + len(reg.mut_mems) + len(reg.mut_own))
        st = reg.state()
        P = Probe(reg, st)
        lat = P.attr(reg.me, "lattice_ref")
        s = sym("site", "int", lo=ZERO, hi=sub(N, ONE))
        b = sym("bond", "int", lo=ZERO, hi=sub(mul(C(2), N), ONE))
        r, c = sym("row", "int", lo=ZERO, hi=sub(L, ONE)), sym("col", "int", lo=ZERO, hi=sub(L, ONE))
        prm = {s, b, r, c}

        def q(name, v):
            ts = [v]
            if isinstance(v, T):
                i = P.items(v)
                if isinstance(i, T) and i is not v:
                    ts.append(i)
            bad = [x for t in ts for x in moving(reg, t, prm)]
            where = changer(reg, bad) or W
            ck.ob("%s: %s does not depend on anything an operation changes" % (reg.K.name, name), not bad, where, "changes: " + ", ".join(bad[:5]))
        for a in ("length", "bond_count", "site_count"):
            q("lattice " + a, P.attr(lat, a))
        site = P.call(lat, "get_site_by_id", s)
        bond = P.call(lat, "get_bond_by_id", b)
        q("get_site_by_id", site)
        q("get_bond_by_id", bond)
        q("site.get_id", P.call(site, "get_id"))
        q("bond.get_id", P.call(bond, "get_id"))
        ix = P.call(site, "get_index")
        q("site.get_index", ix)
        q("site row", P.call(ix, "row"))
        q("site column", P.call(ix, "column"))
        q("bond.get_index", P.call(bond, "get_index"))
        q("site.connecting_bonds", P.call(site, "connecting_bonds"))
        q("bond.connected_sites", P.call(bond, "connected_sites"))
        for f, *a in (("get_neighbor_bonds", s), ("get_neighbor_sites", b), ("get_site_neighbor_of_site", s), ("get_all_neighbor_sites", s),
                      ("find_neighbor_bonds", s), ("get_site_id_list",), ("get_bond_id_list",), ("get_row_col_from_id", s),
                      ("get_id_from_index", r, c), ("get_bond_by_index", r, c, ONE)):
            if cls_of(lat).find(f) is not None:
                q(f, P.call(lat, f, *a))
    ck.each(KINDS, one)


def changer(reg, bad):
    """place of the first write that makes one of the locations move"""
    for nm, r in reg.results.items():
        for e in r.events:
            if e.kind == "write":
                for x in reg.leaves(e.a[0]):
                    if "%s.%s" % (cname(x), e.a[1]) in bad:
                        return e.where
            elif e.kind == "mut":
                for x in reg.leaves(e.a[0]):
                    if x.op == "own" and "%s.%s" % x.a[0] in bad:
                        return e.where
    return None
