"""Labels and member lists agree: initial states, one placement step (all merges at once), frame of every other operation."""
from .bookkeeping import *


def run(ck):
    ck.rule("initially bond b is alone in cluster b with label b, no site is labelled or listed, cluster g has number g; a placement step takes the "
            "surviving cluster R from the labels G of the four bonds of the site and changes exactly: bonds labelled in G and sites labelled in G "
            "get label R, so does the site; R's lists become the concatenation of the lists of all clusters of G, each once, plus the site; the other "
            "lists of G become empty; every other operation leaves labels, lists and numbers alone")
    def one(k):
        S = Step(ck, k)
        if not initial(ck, S):
            return
        frame(ck, S)
        with S:
            step(ck, S)
    ck.each(KINDS, one)


def initial(ck, S):
    reg, nm = S.reg, S.nm
    b, s, g = syms()
    for lab, st, w in (("a new object", reg.ctor, reg.K.find("__init__").where), ("a reset", reg.results["reset"].post, reg.K.find("reset").where)):
        V = View(reg, st)
        c = V.cluster(g)
        if not ck.ob("%s: there is a cluster for every bond after %s" % (nm, lab), isinstance(cls_of(c), Class), w, "cluster g is %s" % sh(c)):
            return False
        l = V.label(b)
        ck.ob("%s: every bond is labelled with a cluster of its own after %s" % (nm, lab), l is b, w, "bond b has label %s" % sh(l))
        x = V.bonds(g)
        ck.ob("%s: cluster g holds bond g only after %s" % (nm, lab), same_seq(x, [g]), w, "it holds %s" % sh(x))
        x = V.sites(g)
        ck.ob("%s: no cluster holds a site after %s" % (nm, lab), length(x) is ZERO, w, "cluster g holds %s" % sh(x))
        x = V.number(g)
        ck.ob("%s: cluster g has number g after %s" % (nm, lab), x is g, w, "its number is %s" % sh(x))
        x = V.site_label(s)
        ck.ob("%s: no site is labelled after %s" % (nm, lab), x is C(-1), w, "site s has label %s" % sh(x))
    return True


def same_seq(x, ys):
    xs = as_list(x)
    return xs is not None and len(xs) == len(ys) and all(a is b for a, b in zip(xs, ys))


def frame(ck, S):
    reg, nm = S.reg, S.nm
    b, s, g = syms()
    for op, r in sorted(reg.results.items()):
        f = reg.K.find(op.split("/")[0])
        if op in ("reset", "place_one_site"):
            continue
        if r.post is None or r.ret is None and False:
            continue
        A, Z = View(reg, r.pre).all(b, s, g), View(reg, r.post).all(b, s, g)
        bad = ["%s: %s" % (k, sh(Z[k])) for k in A if A[k] is not Z[k]]
        if op in ("run_once", "test_run_once"):
            bad = direct(S, r)
        ck.ob("%s.%s itself changes no label and no cluster" % (nm, op), not bad, f.where, "; ".join(bad))


def direct(S, r):
    """writes to labels and member lists among the effects of a run loop itself (the operations it calls are judged by themselves)"""
    V = View(S.reg, S.reg.state())
    b, s, g = syms()
    fields = set()
    lists = set()
    for t in (V.label(b), V.site_label(s), V.number(g)):
        if t.op == "sel" and t.a[0].op == "minit":
            fields.add((cls_of(t.a[1]), t.a[0].a[0]))
    for m in ("get_bonds", "get_sites"):
        o = V.P.call(V.cluster(g), m)
        if o.op == "own":
            lists.add(o.a[0])
    bad = []
    for e in r.events:
        if e.kind == "write" and e.a[2] is not e.a[3]:
            for x in S.reg.leaves(e.a[0]):
                if any(cls_of(x) is c and e.a[1] == f for c, f in fields):
                    bad.append("%s is assigned at %s" % (e.a[1], e.where))
        elif e.kind == "mut":
            for x in S.reg.leaves(e.a[0]):
                if x.op == "own" and x.a[0] in lists:
                    bad.append("%s() at %s" % (e.a[1], e.where))
    return bad


def step(ck, S):
    reg, nm, w, M, R, G = S.reg, S.nm, S.w, S.M, S.root, S.G
    b, s, g = syms()
    ck.ob("%s: the surviving cluster is one of the clusters meeting at the site" % nm, member(R, G) is TRUE, w, "the site gets label %s" % sh(R, 500))
    l = S.pre.label(b)
    inG = member(l, G)
    decide(ck, "%s: exactly the bonds of the joined clusters get the survivor's label" % nm, w, S.post.label(b),
           [(and_(inG, neg_b(eq(l, R))), R), (eq(l, R), R), (neg_b(inG), l)], l, R)
    l = S.pre.site_label(s)
    other = neg_b(eq(s, S.x))
    inG = and_(member(l, G), neg_b(eq(l, C(-1))))
    v = S.post.site_label(s)
    decide(ck, "%s: exactly the sites of the joined clusters and the new site get the survivor's label" % nm, w, v,
           [(and_(other, inG, neg_b(eq(l, R))), R), (and_(other, eq(l, R), neg_b(eq(l, C(-1)))), R), (and_(other, eq(l, C(-1))), l),
            (and_(other, neg_b(member(l, G)), neg_b(eq(l, R))), l)], l, R)
    inG, isR = member(g, G), eq(g, R)
    for what, get, extra in (("bonds", View.bonds, []), ("sites", View.sites, [S.x])):
        v = get(S.post, g)
        x0 = get(S.pre, g)
        decide(ck, "%s: the lists of %s of absorbed clusters become empty, those of clusters not involved do not change" % (nm, what), w, v,
               [(and_(inG, neg_b(isR)), seq()), (and_(neg_b(inG), neg_b(isR)), x0)], g, R)
        v = get(S.post, R)
        why = joined(S, v, get, extra)
        ck.ob("%s: the survivor holds the %s of all joined clusters, each once" % (nm, what), why is None, w, why)
    v, x0 = S.post.number(g), S.pre.number(g)
    decide(ck, "%s: clusters not involved keep their number" % nm, w, v, [(and_(neg_b(inG), neg_b(isR)), x0)], g, R)
    v = S.post.number(R)
    ck.ob("%s: the survivor keeps its number" % nm, v is R, w, "it becomes %s" % sh(v))
    ck.count("placement steps", 1)


def decide(ck, name, w, v, cases, l, R):
    bad = []
    for cond, want in cases:
        if cond is FALSE:
            continue
        got = TM.assume(v, TM.lits_of(cond))
        exp = TM.assume(want, TM.lits_of(cond))
        if got is exp or length_of(got) is ZERO and length_of(exp) is ZERO:
            continue
        if got.ty in ("int", "num", None) and implied([cond], eq(got, exp)):
            continue
        bad.append("where %s: %s instead of %s" % (sh(cond, 300), sh(got, 300), sh(exp)))
    return ck.ob(name, not bad, w, "; ".join(bad))


def length_of(x):
    if x.op in ("seq", "cat", "map", "fmap", "flat", "sel", "ite"):
        try:
            return length(x)
        except Exception:
            return None
    return None


def joined(S, v, get, extra):
    """None when v is a concatenation of the lists of the clusters in G, each once, plus extra; else the reason"""
    parts = list(v.a) if v.op == "cat" else [v]
    R, G = S.root, S.G
    own = get(S.pre, R)
    n_own = n_rest = n_all = 0
    items = []
    for p in parts:
        if p is own:
            n_own += 1
        elif p.op == "seq":
            items += list(p.a)
        elif p.op == "flat":
            t = tmpidx(p.a[0])
            body, = opened(p, t)
            D = listing(S, p, body, t, get)
            if D is None:
                return "a part of the list is %s" % sh(p, 400)
            g = elem(D, t)
            want = get(S.pre, g)
            if body is want:
                n_all += 1
            elif TM.assume(body, (neg_b(eq(g, R)),)) is want and length_of(TM.assume(body, (eq(g, R),))) is ZERO:
                n_rest += 1
            else:
                return "the part of cluster g is %s" % sh(body, 400)
        else:
            return "a part of the list is %s" % sh(p, 400)
    if sorted(map(id, items)) != sorted(map(id, extra)):
        return "single items %s" % [sh(i) for i in items]
    if (n_all, n_own, n_rest) not in ((1, 0, 0), (0, 1, 1)):
        return "the list of the survivor occurs %d times, the lists of the others %d times (both %d times)" % (n_own, n_rest, n_all)
    return None


def listing(S, p, body, t, get):
    """the duplicate-free listing of G that the parts go through"""
    for x in TM.subterms(body):
        if x.op == "elem" and x.a[1] is t and TM.no_repeats(x.a[0]) and TM.setof(x.a[0]) is S.G and p.a[0] is length(x.a[0]):
            return x.a[0]
    return None
