"""Result curves have one aligned row per placed site: effect and guard summary of the run loop, per curve."""
from .common import *
from .c20 import columns_of

CURVE = (("get_occupation_prob_array", "occupation_prob"), ("get_entropy_array", "entropy"),
         ("get_order_param_wrapping_array", "order_param_wrapping"), ("get_order_param_largest_array", "order_param_largest_clstr"))
KINDS = ("S", "L0", "L1", "L2")


def instant(t, i):
    """condition and body of a filtered map at index i"""
    return t.a[0], opened(t, i)


def split(post, pre):
    """items appended to pre, as a list of sequence parts, or None"""
    if post is pre:
        return []
    if post.op == "cat" and post.a[0] is pre:
        return list(post.a[1:])
    if pre is seq() or length(pre) is ZERO:
        return list(post.a) if post.op == "cat" else [post]
    return None


def run(ck):
    ck.rule("loop summary of a realisation: each curve grows by exactly one filtered map over the placement steps whose filter is 'this step "
            "placed a site' and whose value is the scalar observer's value right after the wrapping test of that step")
    def one(kind):
        reg = ck.regime(kind, ops=True)
        nm = reg.K.name
        f = reg.K.find("run_once")
        if f is None:
            raise Missing("%s.run_once" % nm)
        getters = []
        for g, sc in CURVE:
            fg, fs = reg.K.find(g), reg.K.find(sc)
            if fg is None or fs is None:
                raise Missing("%s.%s" % (nm, g if fg is None else sc))
            getters.append((g, sc, fg))

        def at_cut(m, ip, st, node, ret):
            P = Probe(reg, st)
            if m == "place_one_site":
                fl = reg.outcome_cell()
                if not fl:
                    return
                ip.ev_add("probe:place", (ret, eq(st.cells[sorted(fl, key=lambda k: k[1])[0]], reg.member("SUCESS"))), st, node)
            else:
                ip.ev_add("probe:wrap", tuple(P.call(reg.me, sc) for _, sc, _ in getters), st, node)

        if not ck.ob("%s: the outcome of a placement step is recorded" % nm, bool(reg.outcome_cell()), f.where,
                     "no cell holds the outcome of select_site after every kind of step, or the result is not 'something was selected'"):
            return
        reg.at_cut = at_cut
        st = reg.state()
        Q = Probe(reg, st)
        before = [Q.items(Q.call(reg.me, g)) for g, _, _ in getters]
        r = reg.run("run_once", st=st, cuts=reg.std_cuts("run_once"))
        reg.at_cut = None
        ck.seen(r.ip)
        Q = Probe(reg, r.post)
        after = [Q.items(Q.call(reg.me, g)) for g, _, _ in getters]
        pl = [e for e in r.events if e.kind == "probe:place"]
        wr = [e for e in r.events if e.kind == "probe:wrap"]
        ok = ck.ob("%s.run_once places sites at one point of one loop" % nm, len(pl) == 1 and len(pl[0].loops) == 1, f.where,
                   "%d placement points at loop depths %s" % (len(pl), [len(e.loops) for e in pl]))
        ok &= ck.ob("%s.run_once tests for wrapping at one point of the same loop" % nm,
                    len(wr) == 1 and bool(pl) and wr[0].loops == pl[0].loops, f.where, "%d tests" % len(wr))
        if not ok:
            return
        pe, we = pl[0], wr[0]
        i, n, _ = pe.loops[0]
        placed = pe.a[1]
        ck.ob("%s.run_once: every pass of the loop tries one placement" % nm, pe.guard is TRUE, pe.where, "only if %s" % sh(pe.guard))
        ck.ob("%s.run_once: the wrapping test follows exactly the successful placements" % nm, we.guard is placed and we.seq > pe.seq,
              we.where, "tested if %s" % sh(we.guard))
        for k, (g, sc, fg) in enumerate(getters):
            add_ = split(after[k], before[k])
            if not ck.ob("%s.run_once only appends to the curve of %s" % (nm, g), add_ is not None, f.where, "it becomes %s" % sh(after[k], 300)):
                continue
            good = len(add_) == 1 and add_[0].op in ("fmap", "map")
            if not ck.ob("%s.run_once: the curve of %s grows by one series" % (nm, g), good, f.where, "appended %s" % sh(seq(*add_) if not add_ else cat(*add_), 300)):
                continue
            m = add_[0]
            dom = m.a[0]
            cond, val = opened(m, i) if m.op == "fmap" else (TRUE, opened(m, i)[0])
            last = sub(n, dom)
            cover = last is ZERO or (last is ONE and subst(placed, {i: dom}) is FALSE) or (last is ONE and implied([at_end(pe, dom)], neg_b(subst(placed, {i: dom}))))
            ck.ob("%s.run_once: the curve of %s covers every placement step" % (nm, g), cover, f.where, "range %s of %s" % (sh(dom), sh(n)))
            ck.ob("%s.run_once: one entry of %s per placed site" % (nm, g), cond is placed or equal_under([before_end(dom, i)], cond, placed), f.where, "entry if %s, placed if %s" % (sh(cond), sh(placed)))
            want = we.a[k]
            ck.ob("%s.run_once: the entry of %s is %s() after the wrapping test" % (nm, g, sc), same_val(val, want, placed), f.where,
                  "entry %s, observer gives %s" % (sh(val, 300), sh(want, 300)))
        # start and other operations
        C0 = Probe(reg, reg.ctor)
        for g, sc, fg in getters:
            v = C0.items(C0.call(reg.me, g))
            ck.ob("%s: %s is empty in a new object" % (nm, g), length(v) is ZERO, fg.where, "it is %s" % sh(v))
        for op, r in sorted(reg.results.items()):
            if op in ("run_once", "test_run_once"):
                continue
            P0, P1 = Probe(reg, r.pre), Probe(reg, r.post)
            w = reg.K.find(op.split("/")[0]).where
            for g, sc, fg in getters:
                a, b = P0.items(P0.call(reg.me, g)), P1.items(P1.call(reg.me, g))
                if op == "reset":
                    ck.ob("%s: %s is empty after a reset" % (nm, g), length(b) is ZERO, w, "it is %s" % sh(b))
                else:
                    ck.ob("%s.%s leaves %s alone" % (nm, op, g), a is b, w, "it becomes %s" % sh(b))
                ck.count("operation effects")
        columns_of(ck, reg, kind)
    ck.each(KINDS, one)

    reg = ck.regime("SP", ops=True)
    f = reg.K.find("run_once")
    r = reg.results["run_once"]
    P0, P1 = Probe(reg, r.pre), Probe(reg, r.post)
    for g, sc in CURVE:
        a, b = P0.items(P0.call(reg.me, g)), P1.items(P1.call(reg.me, g))
        ck.ob("%s.run_once records no curve %s" % (reg.K.name, g), a is b, f.where, "it becomes %s" % sh(b))


def at_end(pe, dom):
    """what is known at the step that ends the loop: its number is the first one satisfying the exit condition"""
    if dom.op == "first":
        x = tmpidx(None)
        return subst(opened(dom, x)[0], {x: dom})
    return TRUE


def before_end(dom, i):
    """what is known at an earlier step"""
    if dom.op == "first":
        return neg_b(opened(dom, i)[0])
    return TRUE


def same_val(v, w, placed):
    return TM.assume(v, TM.lits_of(placed)) is TM.assume(w, TM.lits_of(placed))
