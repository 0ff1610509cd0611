"""Wrapping: latch, critical values, identity of the wrapping cluster, its order parameter."""
from .bookkeeping import *
from .c05 import watched, touched
from .c17 import wrapping_id

PC = ("get_pc", "get_site_count_wrapping_cluster_pc", "get_bond_count_wrapping_cluster_pc")


def run(ck):
    ck.rule("wrapping state (declared?, cluster w) changes in detect_wrapping only, from not declared to declared, where w becomes the label of the last "
            "placed site and the critical values become the occupied fraction and the sizes of w's lists at that moment; a placement step keeps w, and "
            "the survivor is w whenever w is joined; reset and construction clear everything, critical values then read zero; "
            "order_param_wrapping is size(w)/2N when declared, else zero")
    def one(k):
        S = Step(ck, k)
        initial(ck, S)
        try:
            keys(S.reg)
        except Unsupported as e:
            ck.ob("%s.order_param_wrapping is the share of one cluster's bonds under one condition" % S.nm, False,
                  S.reg.K.find("order_param_wrapping").where, str(e)[:400])
            return
        shape(ck, S)
        frame(ck, S)
        test(ck, S)
        with S:
            step(ck, S)
    ck.each(KINDS, one)


def state_of(reg, st):
    """(declared, cluster) and the critical values of a state"""
    P = Probe(reg, st)
    on, w = keys(reg)
    return st.cells[on], st.cells[w], tuple(P.call(reg.me, g) for g in PC)


def keys(reg):
    """the places where the declaration and the wrapping cluster are kept"""
    st = reg.state()
    v = wrapping_id(Probe(reg, st), reg)
    ks = [[k for k, c in st.cells.items() if c is x] for x in v]
    if any(len(k) != 1 for k in ks):
        raise Unsupported("the wrapping state is not kept in two attributes", None, str(ks)[:200])
    return ks[0][0], ks[1][0]


def initial(ck, S):
    reg, nm = S.reg, S.nm
    for lab, st, w in (("a new object", reg.ctor, reg.K.find("__init__").where), ("a reset", reg.results["reset"].post, reg.K.find("reset").where)):
        for g in PC + ("order_param_wrapping",):
            v = Probe(reg, st).call(reg.me, g)
            ck.ob("%s.%s is zero after %s" % (nm, g, lab), v is ZERO, w, "it is %s" % sh(v))


def shape(ck, S):
    reg, nm = S.reg, S.nm
    V = View(reg, reg.state())
    v = V.P.call(reg.me, "order_param_wrapping")
    on, w = wrapping_id(V.P, reg)
    want = TM.tdiv(length(V.bonds(w)), B2)
    ok = TM.assume(v, (neg_b(on),)) is ZERO and TM.assume(v, (on,)) is TM.assume(want, (on,))
    ck.ob("%s.order_param_wrapping is the share of bonds in the wrapping cluster, zero before wrapping" % nm, ok, reg.K.find("order_param_wrapping").where, "it is %s" % sh(v, 400))
    v = V.P.call(reg.me, "get_pc")
    ck.ob("%s.get_pc is zero while nothing has wrapped" % nm, TM.assume(v, (neg_b(on),)) is ZERO, reg.K.find("get_pc").where, "it is %s" % sh(v, 300))


def same_state(a, b):
    return a[0] is b[0] and a[1] is b[1] and a[2] == b[2]


def frame(ck, S):
    reg, nm = S.reg, S.nm
    cells = set()
    for g in PC + ("order_param_wrapping",):
        cells |= watched(reg, lambda P: P.call(reg.me, g))
    for op, r in sorted(reg.results.items()):
        if op in ("reset", "place_one_site", "detect_wrapping"):
            continue
        f = reg.K.find(op.split("/")[0])
        if op in ("run_once", "test_run_once"):
            bad = touched(reg, r, cells)
            ck.ob("%s.%s itself does not touch the wrapping state" % (nm, op), not bad, f.where, "; ".join(bad))
            continue
        a, b = state_of(reg, r.pre), state_of(reg, r.post)
        ck.ob("%s.%s leaves the wrapping state alone" % (nm, op), same_state(a, b), f.where, "it becomes %s" % sh(str([sh(x) for x in b[:2] + b[2]]), 500))


def test(ck, S):
    reg, nm = S.reg, S.nm
    f = reg.K.find("detect_wrapping")
    r = reg.results["detect_wrapping"]
    A, B = View(reg, r.pre), View(reg, r.post)
    on, w = wrapping_id(A.P, reg)
    c0 = state_of(reg, r.pre)[2]
    P = Probe(reg, r.post)
    c1 = tuple(P.call(reg.me, g) for g in PC)
    cells = set()
    for g in PC + ("order_param_wrapping",):
        cells |= watched(reg, lambda P: P.call(reg.me, g))
    at = lambda t, *c: TM.assume(t, TM.lits_of(and_(*c)))
    ck.ob("%s.detect_wrapping answers True once wrapping is declared" % nm, at(r.ret, on) is TRUE, f.where, "it answers %s" % sh(at(r.ret, on), 300))
    bad = ["%s becomes %s" % (k[1], sh(at(r.post.cells[k], on), 200)) for k in cells if not equal_under([on], r.post.cells[k], r.pre.cells[k])]
    ck.ob("%s.detect_wrapping changes nothing once wrapping is declared" % nm, not bad, f.where, "; ".join(bad))
    none = neg_b(r.ret)
    bad = ["%s becomes %s" % (k[1], sh(at(r.post.cells[k], none, neg_b(on)), 200)) for k in cells
           if not equal_under([none, neg_b(on)], r.post.cells[k], r.pre.cells[k])]
    ck.ob("%s.detect_wrapping changes nothing when it finds no wrap" % nm, not bad, f.where, "; ".join(bad))
    found = and_(neg_b(on), r.ret)
    if not ck.ob("%s.detect_wrapping can find a wrap" % nm, found is not FALSE and TM.assume(r.ret, (neg_b(on),)) is not TRUE, f.where, "it answers %s" % sh(r.ret, 300)):
        return
    sel = reg.selection()[1]
    x = at(r.pre.cells[sel], found)
    y = at(A.site_label(x), found)
    kon, kw = keys(reg)
    z = at(r.post.cells[kw], found)
    ck.ob("%s.detect_wrapping declares the cluster of the last placed site" % nm, z is y, f.where, "declared: %s, expected %s" % (sh(z, 300), sh(y, 300)))
    z = at(r.post.cells[kon], found)
    ck.ob("%s.detect_wrapping declares wrapping when it finds it" % nm, z is TRUE, f.where, "flag: %s" % sh(z, 200))
    p = A.P.call(reg.me, "occupation_prob")
    for g, got, want in zip(PC, c1, (p, length(A.sites(y)), length(A.bonds(y)))):
        z = at(got, found)
        want = at(want, found)
        ck.ob("%s.detect_wrapping records the critical value read by %s" % (nm, g), z is want or sub(z, want) is ZERO, f.where,
              "it reads %s, expected %s" % (sh(z, 300), sh(want, 300)))
    ck.count("wrapping tests", 1)


def step(ck, S):
    reg, nm, f = S.reg, S.nm, S.w
    a, b = state_of(reg, S.r.pre), state_of(reg, S.r.post)
    ck.ob("%s.place_one_site leaves the wrapping state alone" % nm, same_state(a, b), f, "it becomes %s" % str([sh(x) for x in b[:2] + b[2]]))
    on, w, _ = a
    R = TM.unnamed(S.root)
    mem = member(w, S.G)
    v = TM.assume(R, TM.lits_of(and_(on, mem)))
    ck.ob("%s: the wrapping cluster survives every merge it takes part in" % nm, v is w or implied([on, mem], eq(R, w)), f, "the survivor is then %s" % sh(v, 500))
    ck.count("placement steps", 1)
