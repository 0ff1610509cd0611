"""Shortest-path point: exit condition, recorded value and scan predicates as logical summaries of the loops."""
from .common import *


def wrapping_id(P, reg):
    """(condition, cluster index) of the wrapping cluster, from the order parameter that reports its share of bonds"""
    v = P.call(reg.me, "order_param_wrapping")
    ws = {(x.a[1].a[1]) for x in TM.subterms(v) if x.op == "own" and x.a[1].op == "elem"}
    conds = [x.a[0] for x in [v] if x.op == "ite"]
    if len(ws) != 1 or len(conds) != 1:
        raise Unsupported("wrapping cluster not identified by order_param_wrapping", None, sh(v, 200))
    v = v if v.a[2] is ZERO else ite(neg_b(v.a[0]), v.a[2], v.a[1])
    return v.a[0], ws.pop()


def full(P, reg, lat, w, row=None, col=None):
    """every site of the row (column) carries the label w"""
    k = tmpidx(L)
    sid = add(mul(L, row), k) if row is not None else add(mul(L, k), col)
    lab = P.call(lat, "get_site_gid_by_id", sid)
    return neg_b(exists(L, k, neg_b(eq(lab, w))))


def same(a, b):
    return a is b or (implied([a], b) and implied([b], a))


def run(ck):
    ck.rule("the run loop of the shortest-path class ends exactly at the first step that places nothing more or places a site after which wrapping has "
            "occurred and the row or the column of that site carries the wrapping cluster's label throughout; the recorded point is the observer's "
            "occupation probability at that step, else unchanged (zero after construction and reset); scan results equal the quantified predicate")
    reg = ck.regime("SP", ops=True)
    nm = reg.K.name
    fs = {}
    for m in ("run_once", "get_shortest_path_p", "scan_all_rows", "scan_all_cols", "scan_row_col_of_selected_site", "occupation_prob", "detect_wrapping"):
        fs[m] = reg.K.find(m)
        if fs[m] is None:
            raise Missing("%s.%s" % (nm, m))
    scans(ck, reg, nm, fs)
    realisation(ck, reg, nm, fs)
    for lab, st, w in (("a new object", reg.ctor, fs["get_shortest_path_p"].where), ("a reset", reg.results["reset"].post, reg.K.find("reset").where)):
        v = Probe(reg, st).call(reg.me, "get_shortest_path_p")
        ck.ob("%s: the shortest-path point is zero after %s" % (nm, lab), v is ZERO, w, "it is %s" % sh(v))
    for op, r in sorted(reg.results.items()):
        if op in ("reset", "run_once"):
            continue
        a, b = Probe(reg, r.pre).call(reg.me, "get_shortest_path_p"), Probe(reg, r.post).call(reg.me, "get_shortest_path_p")
        ck.ob("%s.%s leaves the shortest-path point alone" % (nm, op), a is b, reg.K.find(op.split("/")[0]).where, "it becomes %s" % sh(b))


def scans(ck, reg, nm, fs):
    P = Probe(reg, reg.state())
    lat = P.attr(reg.me, "lattice_ref")
    on, w = wrapping_id(P, reg)
    j = tmpidx(L)
    anyrow = exists(L, j, full(P, reg, lat, w, row=j))
    anycol = exists(L, j, full(P, reg, lat, w, col=j))
    got = {}
    for m in ("scan_all_rows", "scan_all_cols"):
        v = P.call(reg.me, m)
        which = None
        for g in (on, le(ZERO, w)):
            for tag, pred in (("rows", anyrow), ("columns", anycol)):
                if same(v, and_(g, pred)):
                    which = tag
        got[m] = which
        ck.ob("%s.%s is true exactly when a complete line belongs to the wrapping cluster" % (nm, m), which is not None, fs[m].where, "it is %s" % sh(v, 500))
    ck.ob("%s: the two full scans cover rows and columns" % nm, set(got.values()) == {"rows", "columns"}, fs["scan_all_cols"].where, str(got))
    r, c, k = site_syms()
    site = P.call(lat, "get_site_by_id", k)
    v = P.call(reg.me, "scan_row_col_of_selected_site", P.call(site, "get_index"))
    parts = as_list(v) if v.op in ("tuple", "seq") else None
    if v.op == "tuple":
        parts = list(v.a)
    want = [full(P, reg, lat, w, row=r), full(P, reg, lat, w, col=c)]
    ok = parts is not None and len(parts) == 2 and any(all(same(x, y) for x, y in zip(parts, p)) for p in (want, want[::-1]))
    ck.ob("%s.scan_row_col_of_selected_site tells whether row and column belong to the wrapping cluster" % nm, ok, fs["scan_row_col_of_selected_site"].where,
          "it is %s" % sh(v, 500))
    ck.count("scan predicates", 3)


def realisation(ck, reg, nm, fs):
    f = fs["run_once"]

    def at_cut(m, ip, st, node, ret):
        P = Probe(reg, st)
        if m == "place_one_site":
            fl = reg.outcome_cell()
            cur, sel = reg.selection()[:2]
            ok = eq(st.cells[sorted(fl, key=lambda k: k[1])[0]], reg.member("SUCESS"))
            ip.ev_add("probe:place", (ret, ok), st, node)
        else:
            lat = P.attr(reg.me, "lattice_ref")
            x = P.attr(reg.me, reg.selection()[1][1])
            on, w = wrapping_id(P, reg)
            r, c = fdiv(x, L), TM.mod(x, L)
            line = or_(full(P, reg, lat, w, row=r), full(P, reg, lat, w, col=c))
            ip.ev_add("probe:wrap", (ret, on, line, P.call(reg.me, "occupation_prob")), st, node)

    sel = reg.selection()
    ok = ck.ob("%s: the outcome and the selected site of a placement step are recorded" % nm, bool(reg.outcome_cell()) and sel[0] is not None, f.where,
               "outcome cell %s, selected site cell %s" % (reg.outcome_cell(), sel[0]))
    if not ok:
        return
    reg.at_cut = at_cut
    r = reg.run("run_once", cuts=reg.std_cuts("run_once"))
    reg.at_cut = None
    ck.seen(r.ip)
    pl = [e for e in r.events if e.kind == "probe:place"]
    wr = [e for e in r.events if e.kind == "probe:wrap"]
    if not ck.ob("%s.run_once places sites at one point of one loop" % nm, len(pl) == 1 and len(pl[0].loops) == 1 and pl[0].guard is TRUE, f.where,
                 "%d points" % len(pl)):
        return
    pe = pl[0]
    i, n, _ = pe.loops[0]
    ret, placed = pe.a
    if not ck.ob("%s.run_once tests for wrapping after every placement, once" % nm, len(wr) == 1 and wr[0].loops == pe.loops and wr[0].guard is placed,
                 wr[0].where if wr else f.where, "guards %s" % [sh(e.guard) for e in wr]):
        return
    det, on, line, prob = wr[0].a
    ck.ob("%s.detect_wrapping answers whether wrapping has occurred" % nm, det is on, fs["detect_wrapping"].where, "answer %s, declared %s" % (sh(det), sh(on)))
    stop = and_(placed, det, line)
    leave = or_(neg_b(ret), stop)
    last = sub(n, ONE)
    x = tmpidx(None)
    got = opened(last, x)[0] if last.op == "first" and last.a[0] is INF else None
    ck.ob("%s.run_once ends exactly at the first straight crossing after wrapping or when nothing is left" % nm,
          got is not None and same(got, subst(leave, {i: x})), f.where, "the loop runs for %s steps, expected until %s" % (sh(n, 4000), sh(leave, 4000)))
    a, b = Probe(reg, r.pre).call(reg.me, "get_shortest_path_p"), Probe(reg, r.post).call(reg.me, "get_shortest_path_p")
    want = subst(ite(stop, prob, a), {i: last})
    ok = b is want or (got is not None and implied([TM.subst(leave, {i: last})], eq(b, want)))
    ck.ob("%s.run_once records the occupation probability at that site, and nothing otherwise" % nm, ok, f.where, "it records %s" % sh(b, 400))
    ck.count("run loop obligations", 5)
