"""L1 and L2 rules: what one selection step may occupy, and what happens to the window of candidates."""
from .bookkeeping import *
from .c16 import base

KINDS_ = ("L1", "L2")
SUC, NOT_EMPTY, EMPTY = "SUCESS", "CURRENT_SITE_NOT_EMPTY", "EMPTY_SITE_LIST"


def run(ck):
    ck.rule("one selection step, from an arbitrary state: the candidate is the window item at a uniform position between the start of the window and its "
            "end, the step ends the run iff the window is empty; an occupied candidate is replaced by a uniform nearest neighbour, in the L2 rule an occupied "
            "neighbour by the next site in the same direction (closed form, for every direction and every distance to the edge); it is occupied iff empty; "
            "the window loses exactly the candidate, and only when the step failed and the candidate has no attempts left")
    ck.each(KINDS_, lambda k: one(ck, k))


def at(t, *fs):
    return TM.assume(t, TM.lits_of(and_(*fs)))


def draws(t):
    return {x for x in TM.subterms(t) if x.op == "randint"}


def one(ck, kind):
    reg = ck.regime(kind, ops=True)
    nm = reg.K.name
    f = reg.K.find("select_site")
    if f is None:
        raise Missing("%s.select_site" % nm)
    r = reg.results["select_site"]
    A, B = View(reg, r.pre), View(reg, r.post)
    suc, ne, em = (reg.member(x) for x in (SUC, NOT_EMPTY, EMPTY))
    win = window(ck, reg, r, nm, f)
    if win is None:
        return
    W, idx, kW, kI, X, r1 = win
    m = length(W)
    some = le(add(idx, ONE), m)
    ck.ob("%s.select_site reports the end exactly when no candidate is left" % nm, same(eq(r.ret, em), neg_b(some)), f.where,
          "it answers %s" % sh(r.ret, 400))
    occ = lambda s: A.P.call(A.site(s), "is_occupied")
    # ---- the neighbour
    oX = occ(X)
    near = A.P.items(A.P.call(A.lat, "get_site_neighbor_of_site", X))
    sel = reg.selection()[1]
    new = r.post.cells[sel]
    ok_ = eq(r.ret, suc)
    second = [x for x in draws(at(r.ret, some, oX)) if x is not r1]
    ys = [elem(near, second[0])] if len(second) == 1 else []
    if not ck.ob("%s.select_site draws one nearest neighbour of an occupied candidate, each with the same chance" % nm,
                 len(ys) == 1 and second[0].a[0] is ZERO and second[0].a[1] is sub(length(near), ONE) and uses(at(r.ret, some, oX), ys[0]), f.where,
                 "draws after an occupied candidate: %s" % [sh(x, 200) for x in second]):
        return
    Y = ys[0]
    oY = occ(Y)
    v = at(new, some, neg_b(oX))
    ck.ob("%s.select_site occupies an empty candidate itself" % nm, at(r.ret, some, neg_b(oX)) is suc and same_id(v, X), f.where,
          "answer %s, selected %s" % (sh(at(r.ret, some, neg_b(oX)), 200), sh(v, 300)))
    v = at(new, some, oX, neg_b(oY))
    ck.ob("%s.select_site occupies the drawn neighbour of an occupied candidate if it is empty" % nm,
          at(r.ret, some, oX, neg_b(oY)) is suc and same_id(v, Y), f.where, "answer %s, selected %s" % (sh(at(r.ret, some, oX, neg_b(oY)), 200), sh(v, 300)))
    fail = and_(some, oX, oY)
    if kind == "L1":
        ck.ob("%s.select_site occupies nothing when candidate and neighbour are occupied" % nm, at(r.ret, fail) is ne, f.where, "it answers %s" % sh(at(r.ret, fail), 300))
    else:
        beyond(ck, nm, f, r, occ, X, Y, fail, ok_, new, ne, suc)
        fail = and_(fail, eq(r.ret, ne))
    leftovers(ck, reg, nm, f, r, A, B, win, fail, kind)
    frame(ck, reg, nm, win)


def same(a, b):
    return a is b or (implied([a], b) and implied([b], a))


def same_id(v, x):
    return v is x or is_numeric(v) and is_numeric(x) and sub(v, x) is ZERO


def uses(t, y):
    return any(x is y for x in TM.subterms(t))


def window(ck, reg, r, nm, f):
    """(list content, start, their cells, candidate, its draw): the candidate is the only list item the answer depends on before anything else is read"""
    by = {v: k for k, v in r.pre.cells.items()}
    P = Probe(reg, r.pre)
    rest = reg.selection()[3]
    lists = [(k, v) for k, v in r.pre.cells.items() if k[0] is reg.me and v.ty in ("list", "seq")]
    cand = []
    em = reg.member(EMPTY)
    alive = neg_b(eq(r.ret, em))
    for x in TM.subterms(at(r.ret, alive)):
        if x.op == "elem" and len(draws(x.a[1])) == 1 and not draws(x.a[0]):
            for k, v in lists:
                if P.items(v) is x.a[0] and x.a[0].op not in ("seq",):
                    cand.append((x, k))
    good = {x for x, k in cand}
    if not ck.ob("%s.select_site draws one candidate from a list of the object" % nm, len(good) == 1, f.where, "candidates: %s" % [sh(x, 200) for x in good]):
        return None
    X, kW = cand[0]
    W, p = X.a
    r1 = draws(p).pop()
    lo, hi = (subst(p, {r1: e}) for e in r1.a[:2])
    if is_num(sub(p, r1)) is False and sub(p, r1) is not ZERO and draws(sub(p, r1)):
        lo = hi = None
    last = sub(length(W), ONE)
    ks = [k for k, v in r.pre.cells.items() if v is lo and k[0] is reg.me]
    if not ck.ob("%s.select_site draws the candidate uniformly from the start of the window to its end" % nm, lo is not None and hi is last and len(ks) == 1, f.where,
                 "position between %s and %s of %s" % (sh(lo) if lo is not None else "?", sh(hi) if hi is not None else "?", sh(W, 200))):
        return None
    return W, lo, kW, ks[0], X, r1


def beyond(ck, nm, f, r, occ, X, Y, fail, ok_, new, ne, suc):
    """the third site of the L2 rule: decided in closed form for every direction and every distance from the edge"""
    ret, v = at(r.ret, fail), at(new, fail, at(ok_, fail))
    rr, cc = sym("r#", "int", lo=ZERO, hi=sub(L, ONE)), sym("c#", "int", lo=ZERO, hi=sub(L, ONE))
    bad = {"third": [], "site": [], "full": []}
    n = 0
    for d, (dr, dc) in (("right", (0, 1)), ("left", (0, -1)), ("down", (1, 0)), ("up", (-1, 0))):
        for pos, p in positions(dr or dc):
            a, b = (p, cc) if dr else (rr, p)
            xs = add(mul(L, a), b)
            ys = add(mul(L, step_(a, dr, pos, 1)), step_(b, dc, pos, 1))
            zs = add(mul(L, step_(a, dr, pos, 2)), step_(b, dc, pos, 2))
            n += 1
            lab = "%s of (%s,%s)" % (d, sh(a), sh(b))
            full = occ(zs)
            got = TM.replace(TM.replace(ret, Y, ys), X, xs)
            g = at(got, full)
            if g is not ne:
                bad["full"].append("%s: answer %s" % (lab, sh(g, 300)))
            g = at(got, neg_b(full))
            if g is not suc:
                bad["third"].append("%s: answer %s" % (lab, sh(g, 300)))
            got = at(TM.replace(TM.replace(v, Y, ys), X, xs), neg_b(full))
            if not same_id(got, zs):
                bad["site"].append("%s: %s instead of %s" % (lab, sh(got, 300), sh(zs)))
    ck.count("directions and edge distances", n)
    ck.ob("%s.select_site: beyond an occupied neighbour the next site in the same direction, wrapping around, is tried" % nm, not bad["third"], f.where, "; ".join(bad["third"][:3]))
    ck.ob("%s.select_site: beyond an occupied neighbour no other site is occupied" % nm, not bad["site"], f.where, "; ".join(bad["site"][:3]))
    ck.ob("%s.select_site occupies nothing when all three sites are occupied" % nm, not bad["full"], f.where, "; ".join(bad["full"][:3]))


def positions(d):
    """the coordinate along the direction: next to the edge, one before, or further inside"""
    last = sub(L, ONE)
    inner = sym("q#", "int", lo=ZERO if d > 0 else C(2), hi=sub(L, C(3)) if d > 0 else last)
    return ((0, last), (1, sub(L, C(2))), (2, inner)) if d > 0 else ((0, ZERO), (1, ONE), (2, inner))


def step_(x, d, pos, k):
    """x + k*d on a ring of L places, where pos = min(2, number of places before the edge)"""
    if d == 0:
        return x
    y = add(x, C(k * d))
    return y if k <= pos else sub(y, mul(C(d), L))


def leftovers(ck, reg, nm, f, r, A, B, win, fail, kind):
    W, idx, kW, kI, X, r1 = win
    p = X.a[1]
    idx2 = r.post.cells[kI]
    P1 = Probe(reg, r.post)
    W2 = P1.items(r.post.cells[kW])
    drop = neg_b(eq(idx2, idx))
    if drop.op == "eq0" or True:
        w = at(idx2, drop)
    ck.ob("%s.select_site drops at most one candidate" % nm, at(sub(idx2, idx), drop) is ONE, f.where, "the window then starts at %s" % sh(w, 300))
    ck.ob("%s.select_site drops a candidate only in a step that found every eligible site occupied" % nm, implied([drop], fail), f.where, "it drops if %s" % sh(drop, 400))
    k = 0 if kind == "L1" else 1
    before = left_of(A, X, k)
    some = le(ZERO, before)
    left = left_of(B, X, k)
    none = eq(left, ZERO)
    ck.ob("%s.select_site: attempts left do not fall below zero" % nm, implied([some], le(ZERO, left)), f.where, "they become %s" % sh(left, 300))
    ck.ob("%s.select_site drops a candidate exactly when it has no attempts left" % nm, implied([fail, some, drop], none) and implied([fail, some, none], drop), f.where,
          "it drops if %s, attempts left %s" % (sh(drop, 300), sh(left, 300)))
    had = le(ONE, before)
    ck.ob("%s.select_site: a failed step uses up one attempt of the candidate" % nm, at(sub(left, before), fail, had) is C(-1), f.where,
          "attempts go from %s to %s" % (sh(before, 200), sh(at(left, fail, had), 300)))
    s = sym("s#", "int", lo=ZERO, hi=sub(N, ONE))
    o0, o1 = left_of(A, s, k), left_of(B, s, k)
    ck.ob("%s.select_site: other sites keep their attempts" % nm, at(o1, neg_b(eq(s, X))) is o0, f.where, "they become %s" % sh(at(o1, neg_b(eq(s, X))), 300))
    ck.ob("%s.select_site: a step that occupies something uses up no attempt of the last kind" % nm, equal_under([neg_b(fail)], o1, o0), f.where,
          "they become %s" % sh(at(o1, neg_b(fail)), 300))
    j = sym("j#", "int", lo=ZERO)
    m = length(W)
    ck.ob("%s.select_site keeps the length of the candidate list" % nm, length(W2) is m, f.where, "length %s" % sh(length(W2)))
    x0 = elem(W, j)
    got = elem(at(W2, neg_b(drop)), j)
    inside = and_(le(idx, j), le(add(j, ONE), m))
    ck.ob("%s.select_site keeps the window when it drops nothing" % nm, equal_under([neg_b(drop), inside], got, x0), f.where, "item %s" % sh(at(got, inside), 300))
    later = and_(le(add(idx, ONE), j), le(add(j, ONE), m))
    got = elem(at(W2, drop), j)
    want = ite(eq(j, p), elem(W, idx), x0)
    ck.ob("%s.select_site removes exactly the dropped candidate from the window" % nm, equal_under([drop, later], got, want), f.where,
          "item j of the rest: %s, expected %s" % (sh(at(got, drop, later), 400), sh(want, 300)))


def left_of(V, x, k):
    t = V.P.call(V.site(x), "get_nn_count")
    if t.op == "tuple":
        return t.a[k]
    return TM.mk("get", t, C(k), ty="int")


def frame(ck, reg, nm, win):
    W, idx, kW, kI, X, r1 = win
    s = sym("s#", "int", lo=ZERO, hi=sub(N, ONE))
    for op, r in sorted(reg.results.items()):
        w = reg.K.find(op.split("/")[0]).where
        A, B = View(reg, r.pre), View(reg, r.post)
        a, b = [A.P.items(r.pre.cells[kW]), r.pre.cells[kI]], [B.P.items(r.post.cells[kW]), r.post.cells[kI]]
        ca, cb = [left_of(A, s, k) for k in (0, 1)], [left_of(B, s, k) for k in (0, 1)]
        if op in ("select_site", "run_once", "test_run_once"):
            continue
        if op.startswith("place_one_site"):
            step(ck, reg, nm, op, kW, kI, s)
            continue
        if op == "reset":
            fresh(ck, reg, nm, "a reset", w, b, cb)
            continue
        if op.startswith("set_custome") or op == "shuffle" or op == "swap_ids":
            ck.ob("%s.%s keeps all attempts" % (nm, op), ca == cb, w, "they become %s" % [sh(x, 200) for x in cb])
            continue
        ck.ob("%s.%s leaves the window and the attempts alone" % (nm, op), a[0] is b[0] and a[1] is b[1] and ca == cb, w,
              "window %s from %s, attempts %s" % (sh(b[0], 200), sh(b[1], 100), [sh(x, 200) for x in cb]))
    V = View(reg, reg.ctor)
    fresh(ck, reg, nm, "construction", reg.K.find("__init__").where, [V.P.items(reg.ctor.cells[kW]), reg.ctor.cells[kI]], [left_of(V, s, k) for k in (0, 1)])


def step(ck, reg, nm, op, kW, kI, s):
    """apart from the selection step inside it, a placement step changes nothing of this"""
    seen = []

    def look(st):
        V = View(reg, st)
        return [V.P.items(st.cells[kW]), st.cells[kI]] + [left_of(V, s, k) for k in (0, 1)]

    def at_cut(m, ip, st, node, ret):
        seen.append(look(st))
    reg.at_cut = at_cut
    r = reg.run("place_one_site", cuts={reg.K.find("select_site"): reg.select_cut(op.split("/")[1] if "/" in op else SUC)})
    reg.at_cut = None
    b = look(r.post)
    ck.ob("%s.%s itself leaves the window and the attempts alone" % (nm, op), len(seen) == 1 and all(x is y for x, y in zip(seen[0], b)),
          reg.K.find("place_one_site").where, "window %s from %s, attempts %s" % (sh(b[0], 200), sh(b[1], 100), [sh(x, 200) for x in b[2:]]))


def fresh(ck, reg, nm, lab, w, b, c):
    q, _ = base(b[0])
    i = tmpidx(N)
    ck.ob("%s: every site is a candidate after %s" % (nm, lab), length(q) is N and elem(q, i) is i and b[1] is ZERO, w, "window %s from %s" % (sh(b[0], 200), sh(b[1])))
    ck.ob("%s: every site has attempts left after %s" % (nm, lab), all(is_num(x) and x.a[0] >= 1 for x in c), w, "attempts %s" % [sh(x, 200) for x in c])
