"""Custom site orders: validation as quantified conditions on the caller's list, effects of acceptance and rejection, order of selection."""
from .common import *
from ..interp import St

SEQ_KINDS = ("S", "L0", "SP")
ALL = ("S", "L0", "L1", "L2", "SP")
SETTERS = ("set_custome_site_id_list", "set_custome_site_index_list")


def order(reg, st):
    P = Probe(reg, st)
    return P.items(P.call(reg.me, "get_site_id_sequence"))


def argument(reg, st, setter, ranged):
    """a caller's list of symbolic length; returns (argument, list of ids it means, list of 'outside the lattice' reasons)"""
    n = sym("n", "int", lo=ONE)
    a = mk("obj", "arg:order", ty="list")
    i = tmpidx(n)

    def s(nm, hi):
        x = mk("sym", "arg:%s%s" % (nm, "" if not ranged else "'"), ty="seq")
        TM.ELEM_TY[x] = "int"
        TM.LEN[x] = n
        if ranged:
            reg.cell_range[x] = hi
        return x

    def out(x, hi, what):
        return [("negative " + what, exists(n, i, le(elem(x, i), C(-1)))), ("too large " + what, exists(n, i, le(hi, elem(x, i))))]
    if "index" in setter:
        r, c = s("rows", L), s("cols", L)
        st.cells[(a, "$c")] = TM.mapt(n, i, TM.tup(elem(r, i), elem(c, i)))
        return a, TM.mapt(n, i, add(mul(L, elem(r, i)), elem(c, i))), (out(r, L, "row") + out(c, L, "column")) if not ranged else []
    x = s("ids", N)
    st.cells[(a, "$c")] = x
    return a, x, out(x, N, "site id") if not ranged else []


def base(s):
    """the sequence a chain of random permutations starts from, and the number of permutations"""
    k = 0
    while s.op == "perm":
        s, k = s.a[0], k + 1
    return s, k


def seq_leaves(s):
    return seq_leaves(s.a[1]) + seq_leaves(s.a[2]) if s.op == "ite" else [s]


def run(ck):
    ck.rule("a setter called with a list of symbolic length: under each way of containing a position outside the lattice every effect is disabled; otherwise the "
            "order is the list (ids row*L+column), permuted exactly if shuffling was asked for; a selection step takes the item at a counter that starts at "
            "zero and grows by one, until the length of the list; no other operation changes order, limit or counter")
    def one(kind):
        reg = ck.regime(kind, ops=True)
        for s in SETTERS:
            if reg.K.find(s) is None:
                raise Missing("%s.%s" % (reg.K.name, s))
            reject(ck, reg, s)
        if kind in SEQ_KINDS:
            follow(ck, reg)
    ck.each(ALL, one)


def reject(ck, reg, s):
    nm, f = reg.K.name, reg.K.find(s)
    st = reg.state()
    a, ids, reasons = argument(reg, st, s, False)
    r = reg.run(s, [a, sym("shuffle?", "bool")], st)
    ck.seen(r.ip)
    for what, cond in reasons:
        bad = []
        fact = TM.lits_of(cond)

        def off(g):
            g = quantified(g)
            return TM.assume(g, fact) is FALSE or implied([cond], neg_b(g))
        for e in r.events:
            if e.kind in ("write", "mut", "rng", "seed", "del", "gwrite", "newrng") and not off(e.guard):
                if e.kind in ("mut", "write") and all(x.op == "new" and H.LABELS[x.a[0]]["phase"] == r.phase for x in reg.leaves(e.a[0])):
                    continue
                bad.append("%s %s at %s" % (e.kind, sh(e.a[1], 40), e.where))
        for k, v in r.post.cells.items():
            pre = r.pre.cells.get(k)
            if pre is None or pre is v or k[0].op == "new" and H.LABELS[k[0].a[0]]["phase"] == r.phase:
                continue
            w = TM.assume(quantified(v), fact)
            if w is not pre and not (k[1] == "$c" and TM.contains_op(w, ("new",))):
                bad.append("%s.%s becomes %s" % (cname(k[0]), reg.cell_name(k[0]) if k[1] == "$c" else k[1], sh(w, 120)))
        ck.ob("%s.%s rejects a list with a %s without changing anything" % (nm, s, what), not bad, f.where, "; ".join(bad[:6]))
        ck.count("rejection cases")


def take(reg, st):
    """selection step from a state: (result, selected id after success)"""
    P = Probe(reg, st)
    next_phase()
    v = P.call(reg.me, "select_site")
    return v, P


def follow(ck, reg):
    nm = reg.K.name
    sel = reg.selection()
    fsel = reg.K.find("select_site")
    r = reg.results["select_site"]
    ok = eq(r.ret, reg.member("SUCESS"))
    lits = TM.lits_of(ok)
    seq0 = order(reg, r.pre)
    got = TM.assume(r.post.cells[sel[1]], lits) if sel and sel[1] else None
    ctr = [k for k in (sel[2] if sel else []) if got is not None and got is elem(seq0, r.pre.cells[k])]
    if not ck.ob("%s.select_site takes the item of the order at a counter" % nm, len(ctr) == 1, fsel.where, "it selects %s" % sh(got)):
        return
    ctr = ctr[0]
    cv = r.pre.cells[ctr]
    ck.ob("%s.select_site leaves the order alone" % nm, order(reg, r.post) is seq0, fsel.where, "it becomes %s" % sh(order(reg, r.post)))
    ck.ob("%s.select_site selects or reports the end, nothing else" % nm, implied([TRUE], or_(ok, eq(r.ret, reg.member("EMPTY_SITE_LIST")))), fsel.where,
          "it returns %s" % sh(r.ret))
    # the limit in force, as a function of state: condition under which the step finds nothing
    deps = [k for k, v in r.pre.cells.items() if k != ctr and v.op == "sym" and has(r.ret, v)]

    def ends(st):
        mp = {cv: sym("taken", "int", lo=ZERO)}
        for k in deps:
            mp[r.pre.cells[k]] = st.cells[k]
        e = subst(neg_b(ok), mp)
        for k in deps:
            pass
        return e

    taken = sym("taken", "int", lo=ZERO)

    def limit_ok(st, s):
        """a step finds nothing exactly when as many items as the order has were taken"""
        P = Probe(reg, st)
        P.st.cells[ctr] = taken
        next_phase()
        v = P.call(reg.me, "select_site")
        e = quantified(eq(v, reg.member("EMPTY_SITE_LIST")))
        goal = le(length(quantified(s)), taken)
        return implied([e], goal) and implied([goal], e), e

    c0 = reg.ctor
    s0 = order(reg, c0)
    for lab, st, w in (("a new object", c0, reg.K.find("__init__").where), ("a reset", reg.results["reset"].post, reg.K.find("reset").where)):
        ck.ob("%s: the counter is zero after %s" % (nm, lab), st.cells[ctr] is ZERO, w, "it is %s" % sh(st.cells[ctr]))
    b, k = base(s0)
    i = tmpidx(N)
    ck.ob("%s: a new object's order holds every site once" % nm, length(b) is N and elem(b, i) is i, reg.K.find("__init__").where, "it is %s" % sh(s0))
    o, e = limit_ok(c0, s0)
    ck.ob("%s: a new object's run ends after the whole order" % nm, o, fsel.where, "it ends when %s" % sh(e))
    for s in SETTERS:
        f = reg.K.find(s)
        for shuf in (FALSE, TRUE):
            st = reg.state()
            a, ids, _ = argument(reg, st, s, True)
            r2 = reg.run(s, [a, shuf], st)
            ck.seen(r2.ip)
            s1 = order(reg, r2.post)
            s1 = quantified(s1)
            b, k = base(s1)
            lab = "%s.%s(%s)" % (nm, s, "shuffled" if shuf is TRUE else "as given")
            ck.ob("%s: the list becomes the order in full" % lab, b is ids and (k == 0 or shuf is TRUE), f.where, "the order is %s, the list %s" % (sh(s1), sh(ids)))
            ck.ob("%s: shuffled as requested" % lab, k > 0 if shuf is TRUE else k == 0, f.where, "order %s" % sh(s1))
            o, e = limit_ok(r2.post, s1)
            ck.ob("%s: the run ends after the last item" % lab, o, f.where, "it ends when %s" % sh(e))
            ck.ob("%s: the counter is not moved" % lab, r2.post.cells[ctr] is r2.pre.cells[ctr] or r2.post.cells[ctr] is ZERO, f.where, sh(r2.post.cells[ctr]))
            r3 = reg.run("reset", [], r2.post.copy())
            s2 = order(reg, r3.post)
            b, k = base(quantified(s2))
            ck.ob("%s: a reset starts over with the same list" % lab, b is ids and (k == 0 or shuf is TRUE), reg.K.find("reset").where,
                  "after the reset the order is %s" % sh(s2))
            ck.ob("%s: after a reset the counter is zero" % lab, r3.post.cells[ctr] is ZERO, reg.K.find("reset").where, sh(r3.post.cells[ctr]))
            o, e = limit_ok(r3.post, s2)
            ck.ob("%s: after a reset the run ends after the last item" % lab, o, reg.K.find("reset").where, "it ends when %s" % sh(e))
            ck.count("accepted lists")
    for op, r in sorted(reg.results.items()):
        if op in SETTERS or op in ("reset", "select_site", "shuffle", "swap_ids"):
            continue
        f = reg.K.find(op.split("/")[0])
        a, b = order(reg, r.pre), order(reg, r.post)
        ck.ob("%s.%s leaves the order alone" % (nm, op), a is b, f.where, "it becomes %s" % sh(b))
        ch = [k for k in deps if r.pre.cells.get(k) is not r.post.cells.get(k) and k[1] != "$c"]
        ck.ob("%s.%s leaves the limit alone" % (nm, op), not ch, f.where, "changes %s" % ch)
        if op == "detect_wrapping":
            ck.ob("%s.%s leaves the counter alone" % (nm, op), r.pre.cells[ctr] is r.post.cells[ctr], f.where, "")
        if op == "place_one_site":
            d = sub(r.post.cells[ctr], r.pre.cells[ctr])
            ck.ob("%s.%s advances the counter by one" % (nm, op), d is ONE, f.where, "by %s" % sh(d))
        if op.startswith("place_one_site/EMPTY"):
            ck.ob("%s: a step that finds nothing leaves the counter alone" % nm, r.pre.cells[ctr] is r.post.cells[ctr], f.where, "")
