"""Observers do not disturb the simulation: effect analysis of every reading function."""
from .common import *

RNG = ("rng", "seed", "newrng", "gwrite")
SIMF = [("get_signature",), ("get_site_id_sequence",), ("get_index_sequence",), ("get_pc",), ("get_site_count_wrapping_cluster_pc",),
        ("get_bond_count_wrapping_cluster_pc",), ("get_order_param_wrapping_array",), ("get_order_param_largest_array",),
        ("get_entropy_array",), ("get_occupation_prob_array",), ("get_data_array",), ("occupation_prob",), ("entropy",), ("entropy_v1",),
        ("entropy_v2",), ("largest_cluster",), ("order_param_largest_clstr",), ("order_param_wrapping",), ("get_bond_gids", "bonds"),
        ("get_site_gids", "sites"), ("wrapping_correction_relative_index", "rel"), ("get_relative_index", "site", "site"),
        ("get_change_in_relative_index", "rel", "rel"), ("get_neighbor_site", "site", "bond"), ("get_connected_sites", "siteobj", "own"),
        ("uniqe_gid_bond_neighbors", "own"), ("viewLattice", 0), ("viewLattice", 1), ("viewLattice", 2), ("viewLattice", 3),
        ("viewLattice", 4), ("viewLattice", -1), ("viewCluster",), ("test_clusters",), ("test_lattice",), ("occupied_summary",),
        ("get_four_neighbor_sites", "site"), ("correct_index_for_periodicity", "index"), ("scan_all_rows",), ("scan_all_cols",),
        ("scan_row_col_of_selected_site", "index"), ("get_shortest_path_p",)]
LATF = [("calculate_id_from_index", "index"), ("list_all_sites",), ("list_all_bonds",), ("scan_sites",), ("scan_bonds",),
        ("bottom_bond_of_site", "site"), ("top_bond_of_site", "site"), ("right_bond_of_site", "site"), ("left_bond_of_site", "site"),
        ("get_row_col_from_id", "site"), ("find_neighbor_bonds", "site"), ("get_neighbor_bonds", "site"), ("get_neighbor_sites", "bond"),
        ("get_site_neighbor_of_site", "site"), ("get_sites_for_wrapping_test", "site"), ("print_bonds",), ("print_sites",),
        ("get_site_by_id", "site"), ("get_bond_by_id", "bond"), ("get_site_gid_by_id", "site"), ("get_bond_gid_by_id", "bond"),
        ("get_site_by_index", "index"), ("get_id_from_index", "row", "row"), ("get_site_gid_by_index", "index"),
        ("get_bond_by_index", "row", "row"), ("get_site_id_list",), ("get_bond_id_list",), ("view", 0), ("view", 1), ("view", 2),
        ("view_relative_index",), ("view_site_gids",), ("get_row_str", "row", 0), ("get_row_v_str", "row", 0),
        ("get_all_neighbor_sites", "site"), ("distance_btn_sites", "siteobj", "siteobj"), ("test_neighbor_count",), ("test_lattice", "gid"),
        ("test_relative_index",), ("test_rwo_col_scan",)]
SITEF = [("get_id",), ("get_gid",), ("test_site",), ("__str__",), ("get_nn_count",), ("is_removable", 1), ("is_removable", 2),
         ("get_index",), ("is_occupied",), ("get_str", 0), ("get_str", 1), ("get_str", 2), ("connecting_bonds",), ("get_relative_index",),
         ("is_root",)]
BONDF = [("get_id",), ("get_gid",), ("get_index",), ("test_bond",), ("__str__",), ("get_str", 0), ("get_str", 1), ("get_str", 2),
         ("connected_sites",)]
POOLF = [("get_cluster_bond_count", "gid"), ("get_cluster_site_count", "gid"), ("get_sites", "gid"), ("get_bonds", "gid"),
         ("get_cluster", "gid"), ("view",)]
CLUSF = [("__str__",), ("is_empty",), ("get_id",), ("get_gid",), ("get_sites",), ("get_bonds",), ("get_bond_count",), ("get_site_count",),
         ("view",)]
INDF = [("__sub__", "rel"), ("__add__", "rel"), ("row",), ("column",), ("as_list",), ("__str__",), ("x_coord",), ("y_coord",)]


def effects(reg, ip, pre, post, phase):
    """constructs of one analysed call that change anything existing before it, or touch the random stream"""
    bad = []

    def mine(a):
        return a.op == "new" and H.LABELS[a.a[0]]["phase"] == phase

    for e in ip.events:
        if e.kind in RNG or e.kind == "cutcall":
            bad.append("%s at %s" % (e.kind, e.where))
        elif e.kind == "write" and e.a[2] is not e.a[3]:
            for x in reg.leaves(e.a[0]):
                if not mine(x):
                    bad.append("%s.%s is assigned at %s" % (cname(x), e.a[1], e.where))
        elif e.kind == "mut":
            for x in reg.leaves(e.a[0]):
                if not mine(x):
                    bad.append("%s() of %s at %s" % (e.a[1], sh(x, 60), e.where))
        elif e.kind == "del":
            bad.append("attribute deleted at %s" % e.where)
    for k, v in post.cells.items():
        if k in pre.cells and pre.cells[k] is not v:
            bad.append("%s.%s changes" % (cname(k[0]), k[1]))
        elif k not in pre.cells and not mine(k[0]) and v is not UNDEF:
            bad.append("%s.%s appears" % (cname(k[0]), k[1]))
    return list(dict.fromkeys(bad))


class Maker:
    def __init__(self, reg, st):
        self.reg, self.st, self.n = reg, st, 0

    def site(self):
        self.n += 1
        return sym("s%d" % self.n, "int", lo=ZERO, hi=sub(N, ONE))

    def bond(self):
        self.n += 1
        return sym("b%d" % self.n, "int", lo=ZERO, hi=sub(mul(C(2), N), ONE))

    def row(self):
        self.n += 1
        return sym("r%d" % self.n, "int", lo=ZERO, hi=sub(L, ONE))

    def lst(self, nm, hi):
        self.n += 1
        a = mk("obj", "arg:%s%d" % (nm, self.n), ty="list")
        s = mk("sym", "arg:%s%d[]" % (nm, self.n), ty="seq")
        TM.ELEM_TY[s] = "int"
        self.reg.cell_range[s] = hi
        self.st.cells[(a, "$c")] = s
        return a

    def make(self, a, P):
        if isinstance(a, int):
            return C(a)
        if a == "site":
            return self.site()
        if a == "bond":
            return self.bond()
        if a == "gid":
            return self.bond()
        if a == "row":
            return self.row()
        if a == "sites":
            return self.lst("sites", N)
        if a == "bonds":
            return self.lst("bonds", mul(C(2), N))
        lat = self.reg.ip0.get(self.st, self.reg.me, "lattice_ref")
        if a == "siteobj":
            return P.call(lat, "get_site_by_id", self.site())
        if a == "own":
            return P.call(lat, "get_neighbor_bonds", self.site())
        if a == "index":
            return P.made(SIM + "index", "Index", self.row(), self.row())
        if a == "rel":
            self.n += 1
            return P.made(SIM + "index", "RelativeIndex", sym("x%d" % self.n, "int"), sym("y%d" % self.n, "int"))
        raise KeyError(a)


def analyse(reg, getobj, spec):
    """analysis of one observer in an arbitrary state, or None when the class has no such function"""
    name, args = spec[0], spec[1:]
    st = reg.state()
    P = Probe(reg, st)
    P.st = st                    # arguments are made in the state itself
    m = Maker(reg, st)
    o = getobj(P)
    c = cls_of(o)
    if not isinstance(c, Class):
        raise Unsupported("object of unknown class", None, name)
    f = c.find(name)
    if f is None:
        return None
    av = [m.make(a, P) for a in args]
    next_phase()
    ip = reg.interp()
    pre = st.copy()
    v = ip.call_func(f, [o] + av, {}, fresh_node(), st)
    r = Result(reg, ip, pre, st, v, av)
    r.func = f
    return r


def targets(reg, kind):
    """every observer of one class as (label, object, specification)"""
    me = lambda P: reg.me
    lat = lambda P: P.attr(reg.me, "lattice_ref")
    pool = lambda P: P.attr(reg.me, "cluster_pool_ref")
    site = lambda P: P.call(lat(P), "get_site_by_id", sym("sx", "int", lo=ZERO, hi=sub(N, ONE)))
    bond = lambda P: P.call(lat(P), "get_bond_by_id", sym("bx", "int", lo=ZERO, hi=sub(mul(C(2), N), ONE)))
    clus = lambda P: P.call(pool(P), "get_cluster", sym("gx", "int", lo=ZERO, hi=sub(mul(C(2), N), ONE)))
    rel = lambda P: P.made(SIM + "index", "RelativeIndex", sym("ix", "int"), sym("iy", "int"))
    out = [(reg.K.name, me, s) for s in SIMF if reg.K.find(s[0]) is not None]
    if kind == "S":
        for lab, get, specs in (("Lattice", lat, LATF), ("Site", site, SITEF), ("Bond", bond, BONDF), ("ClusterPool", pool, POOLF),
                                ("OneCluster", clus, CLUSF), ("Index", rel, INDF)):
            out += [(lab, get, s) for s in specs]
    return out


KINDS = ("S", "L0", "L1", "L2", "SP")


def run(ck):
    ck.rule("every reading function is analysed in an arbitrary reachable state: its effect set contains no write to, mutation of or "
            "deletion from an object that existed before the call, and no draw from, seeding or replacement of a random stream")
    def one(kind):
        reg = ck.regime(kind, ops=True)
        reg.ip0 = reg.interp()
        for label, get, spec in targets(reg, kind):
            r = analyse(reg, get, spec)
            if r is None:
                continue
            bad = effects(reg, r.ip, r.pre, r.post, r.phase)
            ck.ob("%s.%s(%s) only reads" % (label, spec[0], ", ".join(map(str, spec[1:]))), not bad, r.func.where, "; ".join(bad[:6]))
            ck.count("observers")
    ck.each(KINDS, one)
