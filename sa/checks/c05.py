"""Occupation: what one step selects, occupies and counts, and when the step function reports the end."""
from .bookkeeping import *

SEL = ("SUCESS", "CURRENT_SITE_NOT_EMPTY", "EMPTY_SITE_LIST")


def run(ck):
    ck.rule("a successful step selects a site that is unoccupied, and afterwards exactly that site is occupied in addition; the occupation probability "
            "is count/N with a count that starts at zero, grows by one in a successful step and is touched by nothing else; steps that select nothing "
            "leave count and occupation alone; the step function answers False exactly for the outcome 'list used up'")
    def one(k):
        S = Step(ck, k)
        selected(ck, S)
        ok = initial(ck, S)
        others(ck, S)
        if ok:
            with S:
                step(ck, S)
    ck.each(KINDS, one)


def occ(V, s):
    return V.P.call(V.site(s), "is_occupied")


def prob(reg, st):
    return Probe(reg, st).call(reg.me, "occupation_prob")


def facts(r):
    """what holds when the operation returns: its assertions, and no exception raised"""
    out = []
    for e in r.events:
        if e.loops:
            continue
        if e.kind == "assert":
            out.append(or_(neg_b(e.guard), e.a[0]))
        elif e.kind == "raise":
            out.append(neg_b(e.guard))
    return out


def selected(ck, S):
    reg, nm = S.reg, S.nm
    f = reg.K.find("select_site")
    r = reg.results.get("select_site")
    if f is None or r is None:
        raise Missing("%s.select_site" % nm)
    cur, sel = reg.selection()[:2]
    if not ck.ob("%s: the site selected by a step is recorded" % nm, cur is not None and sel is not None, f.where, "no such attribute"):
        return
    V = View(reg, r.pre)
    ok = eq(r.ret, reg.member("SUCESS"))
    x = TM.assume(r.post.cells[sel], TM.lits_of(ok))
    before = occ(V, x)
    ck.ob("%s.select_site selects an unoccupied site" % nm, implied(facts(r) + [ok], neg_b(before)), f.where,
          "the selected site %s may be occupied" % sh(x, 300))
    y = TM.assume(r.post.cells[cur], TM.lits_of(ok))
    ck.ob("%s.select_site: recorded site object and id agree" % nm, implied([ok], TM.eq(y, V.site(x))) or y is V.site(x), f.where,
          "object %s, id %s" % (sh(y, 300), sh(x, 300)))
    s = syms()[1]
    a, b = occ(View(reg, r.pre), s), occ(View(reg, r.post), s)
    ck.ob("%s.select_site occupies nothing itself" % nm, a is b, f.where, "site s: %s" % sh(b))


def initial(ck, S):
    reg, nm = S.reg, S.nm
    s = syms()[1]
    ok = True
    for lab, st, w in (("a new object", reg.ctor, reg.K.find("__init__").where), ("a reset", reg.results["reset"].post, reg.K.find("reset").where)):
        V = View(reg, st)
        v = occ(V, s)
        ok &= ck.ob("%s: no site is occupied after %s" % (nm, lab), v is FALSE, w, "site s: %s" % sh(v))
        p = prob(reg, st)
        ok &= ck.ob("%s: the occupation probability is zero after %s" % (nm, lab), p is ZERO, w, "it is %s" % sh(p))
    return ok


def others(ck, S):
    reg, nm = S.reg, S.nm
    s = syms()[1]
    for op, r in sorted(reg.results.items()):
        if op in ("reset", "place_one_site", "select_site"):
            continue
        f = reg.K.find(op.split("/")[0])
        if op in ("run_once", "test_run_once"):
            p = prob(reg, reg.state())
            cells = {c.a for c in TM.subterms(p)}
            bad = direct(S, r)
            ck.ob("%s.%s itself changes no occupation and no count" % (nm, op), not bad, f.where, "; ".join(bad))
            continue
        a, b = occ(View(reg, r.pre), s), occ(View(reg, r.post), s)
        ck.ob("%s.%s leaves the occupation of every site alone" % (nm, op), a is b, f.where, "site s: %s" % sh(b))
        a, b = prob(reg, r.pre), prob(reg, r.post)
        ck.ob("%s.%s leaves the occupation probability alone" % (nm, op), a is b, f.where, "it becomes %s" % sh(b))
    f = reg.K.find("place_one_site")
    for o in SEL:
        r = reg.results["place_one_site" + ("" if o == "SUCESS" else "/" + o)]
        ck.ob("%s.place_one_site answers %s when the outcome is %s" % (nm, o != "EMPTY_SITE_LIST", o), r.ret is (FALSE if o == "EMPTY_SITE_LIST" else TRUE),
              f.where, "it answers %s" % sh(r.ret))


def direct(S, r):
    reg = S.reg
    cells = watched(reg, lambda P: P.call(reg.me, "occupation_prob"))
    fld = {(cls_of(x.a[1]), x.a[0].a[0]) for x in TM.subterms(occ(View(reg, reg.state()), syms()[1])) if x.op == "sel" and x.a[0].op == "minit"}
    return touched(reg, r, cells, fld)


def watched(reg, get):
    """cells of the state on which a value depends"""
    P = Probe(reg, reg.state())
    v = get(P)
    subs = set(TM.subterms(v))
    return {k for k, c in P.st.cells.items() if c in subs and c.op not in ("c", "new")}


def touched(reg, r, cells, fields=()):
    """assignments by this operation itself (not by the operations it calls) to the given cells or fields"""
    bad = []
    for e in r.events:
        if e.kind == "write" and e.a[2] is not e.a[3]:
            for x in reg.leaves(e.a[0]):
                if (x, e.a[1]) in cells or any(cls_of(x) is c and e.a[1] == f for c, f in fields):
                    bad.append("%s is assigned at %s" % (e.a[1], e.where))
    return bad


def step(ck, S):
    reg, nm, w = S.reg, S.nm, S.w
    s = syms()[1]
    a, b = occ(S.pre, s), occ(S.post, s)
    here = eq(s, S.x)
    ok = all(implied([c], g) for c, g in ((here, b), (and_(neg_b(here), a), b), (and_(neg_b(here), b), a)))
    ck.ob("%s.place_one_site occupies exactly the selected site" % nm, ok, w, "site s is occupied afterwards if %s" % sh(b, 500))
    p, q = prob(reg, S.r.pre), prob(reg, S.r.post)
    c = mul(p, N)
    ck.ob("%s: the occupation probability is a count divided by the number of sites" % nm, TM.tdiv(c, N) is p and not has(c, L), w, "it is %s" % sh(p))
    ck.ob("%s: a successful step counts one site more" % nm, q is TM.tdiv(add(c, ONE), N), w, "the probability goes from %s to %s" % (sh(p), sh(q)))
    ck.count("placement steps", 1)
