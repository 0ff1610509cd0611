"""Parallel launches: every worker started once, fed matching arguments, awaited; shares add up; no common seed."""
from .runners import *
from .c19 import loops_of

INTER = sym("interaction", "int")
NTH = sym("threads", "int", lo=ONE)
PROC = ("multiprocessing.Process", "threading.Thread")


class Launch:
    def __init__(self, ck, mod, name, args, kw):
        f = ck.prog.get_func(mod, name)
        names = [a.arg for a in f.node.args.args]
        self.where = "%s:%s" % (f.module.rel, f.qual)
        next_phase()
        self.ip = Interp(ck.prog)
        self.ip.call_func(f, list(args), {k: v for k, v in kw.items() if k in names}, fresh_node(), St())
        self.events = self.ip.events
        for i, e in enumerate(self.events):
            e.pos = i
        ck.seen(self.ip)
        self.made = [e for e in self.events if e.kind == "ext" and (e.a[0] in PROC or e.a[0].endswith((".Process", ".Thread")))]
        self.handles = {e.a[3]: e for e in self.made}

    def site(self, t):
        """creation event the worker term t belongs to, with the substitution of its loop indices"""
        for r, e in self.handles.items():
            if t is r:
                return e, {}
            if t.op == "ext_" and r.op == "ext_" and len(t.a) == len(r.a) and e.loops:
                n = len(e.loops)
                mp = {e.loops[k][0]: t.a[len(t.a) - n + k] for k in range(n)}
                if subst(r, mp) is t:
                    return e, mp
        return None, None


def run(ck):
    ck.rule("worker creations are summarised as (guard, loop index i < n, target, argument terms); for each creation there is one start under the same guard and loop, "
            "and one join reached in every case in which it was started, after all starts")
    ck.rule("argument k of the worker function is bound to the value meant for parameter k; the shares of the loop sum to the requested number in closed form; the worker "
            "number is the loop index; no seed argument is common to two workers")
    cls = {k: ck.prog.get_class(*CLASSES[k]) for k in ("L0", "L1", "L2", "SP")}
    for inter, want in ((ZERO, "L0"), (ONE, "L1"), (C(2), "L2")):
        La = Launch(ck, RSBD, "run_simulation_threads_v4", [LL, EN, NTH], {"interaction": inter})
        launch(ck, La, "run_simulation_threads_v4(interaction=%d)" % inter.a[0], EN, NTH, cls[want], LL)
    La = Launch(ck, RSBD, "run_simulation_threads_v4", [LL, EN, NTH], {})
    launch(ck, La, "run_simulation_threads_v4(default)", EN, NTH, cls["L0"], LL)
    La = Launch(ck, RSBD, "run_simulation_threads_v3", [LL, EN, NTH], {})
    launch(ck, La, "run_simulation_threads_v3", EN, NTH, (cls["L0"], cls["L1"], cls["L2"]), LL)
    La = Launch(ck, SPR, "run_simulation_shortest_path_threads", [LL, EN, NTH], {})
    launch(ck, La, "run_simulation_shortest_path_threads", EN, NTH, cls["SP"], LL)
    La = Launch(ck, RSBD, "run_simulation_threads_v2", [], {})
    launch(ck, La, "run_simulation_threads_v2", "const", None, (cls["L0"], cls["L1"], cls["L2"]), None)
    La = Launch(ck, RSBD, "run_simulation_threads", [], {})
    launch(ck, La, "run_simulation_threads", "each", None, (cls["L0"], cls["L1"], cls["L2"]), "each")


def launch(ck, La, nm, total, nworkers, want_cls, length_):
    if not ck.ob("%s: workers are created" % nm, bool(La.made), La.where, "no process or thread is created"):
        return
    insts = []
    for e in La.made:
        insts.append((e, bind(ck, La, nm, e)))
    if any(b is None for _, b in insts):
        return
    wl = sorted({e.where for e in La.made})[0]
    for e, b in insts:
        c = b.get("percolationClass")
        cs = want_cls if isinstance(want_cls, tuple) else (want_cls,)
        ck.ob("%s: the worker runs the selected class" % nm, c is not None and any(c is mk("cls", k) for k in cs), e.where, "class argument is %s" % sh(c))
        if isinstance(length_, T):
            ck.ob("%s: the worker gets the requested length" % nm, b.get("length") is length_, e.where, "length argument is %s" % sh(b.get("length")))
        s = b.get("seed")
        distinct = s is None or s is NONE or (len(e.loops) == 1 and injective(s, e.loops[0]))
        ck.ob("%s: no seed is shared by two workers" % nm, distinct and (s is None or s is NONE or len(insts) == 1 or len({x.get("seed") for _, x in insts}) == len(insts)),
              e.where, "seed argument is %s" % sh(s))
    numbers(ck, La, nm, insts, wl)
    shares(ck, La, nm, insts, total, nworkers, wl, length_)
    started(ck, La, nm, wl)


def bind(ck, La, nm, e):
    kw = dict(e.a[2])
    a = list(e.a[1])
    target = kw.get("target") or (a[1] if len(a) > 1 else None)
    args = kw.get("args") or (a[3] if len(a) > 3 else None)
    kwargs = kw.get("kwargs")
    f = target.a[0] if target is not None and target.op == "func" else None
    if not ck.ob("%s: the target of the worker is a function of the program" % nm, f is not None, e.where, "target is %s" % sh(target)):
        return None
    args = unlist(args) if args is not None else tup()
    if not ck.ob("%s: the arguments of the worker are listed" % nm, args.op in ("tuple", "seq"), e.where, "args is %s" % sh(args)):
        return None
    p = f.node.args
    names = [x.arg for x in p.args]
    nreq = len(names) - len(p.defaults)
    out = dict(zip(names, args.a))
    extra = {}
    if kwargs is not None:
        d = kwargs
        if d.op == "D":
            extra = {x.a[0].a[0]: x.a[1] for x in d.a}
        else:
            ck.ob("%s: the keyword arguments of the worker are listed" % nm, False, e.where, "kwargs is %s" % sh(d))
            return None
    good = len(args.a) <= len(names) and all(k in names and k not in out for k in extra)
    out.update(extra)
    good = good and all(n in out for n in names[:nreq])
    if not ck.ob("%s: the arguments fit the parameters of %s" % (nm, f.name), good, e.where, "%d arguments for (%s)" % (len(args.a), ", ".join(names))):
        return None
    canon = {"ensemble_size": "ensembleSize", "ensemble_count": "ensembleSize"}
    return {canon.get(k, k): v for k, v in out.items()}


def injective(t, loop):
    i = loop[0]
    d = to_poly(t)
    k = d.get(((i, 1),))
    return k is not None and not has(sub(t, scale(i, k)), i)


def numbers(ck, La, nm, insts, wl):
    if len(insts) == 1 and len(insts[0][0].loops) == 1:
        e, b = insts[0]
        i, n, _ = e.loops[0]
        t = b.get("thread_count")
        ck.ob("%s: worker numbers are distinct" % nm, t is not None and injective(t, e.loops[0]), e.where, "worker number is %s in the loop over %s" % (sh(t), sh(i)))
        return
    vals = [b.get("thread_count") for _, b in insts]
    ok = all(v is not None and v.op == "c" for v in vals) and len(set(vals)) == len(vals) and all(not e.loops for e, _ in insts)
    ck.ob("%s: worker numbers are distinct" % nm, ok, wl, "worker numbers are %s" % ", ".join(sh(v) for v in vals))


def shares(ck, La, nm, insts, total, nworkers, wl, length_):
    if isinstance(total, T):
        if not ck.ob("%s: one creation site in one loop over the workers" % nm, len(insts) == 1 and len(insts[0][0].loops) == 1, wl, "%d creation sites" % len(insts)):
            return
        e, b = insts[0]
        i, n, _ = e.loops[0]
        s = b.get("ensembleSize")
        g = e.guard
        # a worker that is not started must have had an empty share
        ck.ob("%s: a worker number is skipped only if its share is empty" % nm, g is TRUE or implied([neg_b(g), le(ZERO, i), lt(i, n)], eq(s, ZERO))
              or follows([neg_b(g), le(ZERO, i), lt(i, n)] + floors([g, s], [i]), eq(s, ZERO), 12), e.where,
              "started only if %s" % sh(g, 300))
        ck.ob("%s: all requested worker numbers are considered" % nm, n is nworkers or (n.op == "min" and set(n.a) == {nworkers, total}), e.where, "loop over %s numbers" % sh(n))
        if n.op == "min" and set(n.a) == {nworkers, total}:
            # fewer requested realisations than workers, or not
            few = {mk("div", total, nworkers): ZERO, mk("mod", total, nworkers): total}
            tots = {total_of(s, i, nworkers), total_of(subst(s, few), i, total)}
            tot = total if tots == {total} else None
        else:
            tot = total_of(s, i, n)
        if n is not nworkers and tot is not None and tot is not total:
            tot = None
        ck.ob("%s: the shares add up to the requested number" % nm, tot is total, e.where, "share of worker i is %s; sum %s" % (sh(s, 300), sh(tot)))
        return
    if total == "each":
        ens = {b.get("ensembleSize") for _, b in insts}
        ck.ob("%s: every length is simulated with the same ensemble size" % nm, len(ens) == 1 and all(e.guard is TRUE for e, _ in insts), wl, "sizes %s" % ", ".join(sh(x) for x in ens))
        ln = [b.get("length") for _, b in insts]
        ck.ob("%s: one worker per length" % nm, len(set(ln)) == len(ln), wl, "lengths %s" % ", ".join(sh(x) for x in ln))
        return
    # fixed launch: total and worker count are literals of the function
    s = [b.get("ensembleSize") for _, b in insts]
    ok = all(x is not None and is_num(x) and x.a[0] > 0 for x in s) and all(e.guard is TRUE for e, _ in insts)
    f = La.ip
    if ok:
        m = max(x.a[0] for x in s) - min(x.a[0] for x in s)
        ok = m <= 1
        want = literal_total(La)
        if want is not None:
            ok = ok and sum(x.a[0] for x in s) == want
    ck.ob("%s: the shares add up to the requested number" % nm, ok, wl, "shares %s" % ", ".join(sh(x) for x in s))


def literal_total(La):
    """value of the ensemble size variable of the function, if it has one"""
    for e in La.events:
        if e.kind == "call" and e.where.startswith("?"):
            f = e.a[0]
            for s in f.node.body:
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Constant) \
                        and s.targets[0].id in ("En", "ensemble_count", "ensembleSize", "ensemble_size"):
                    return s.value.value
    return None


def follows(facts, goal, depth):
    """as implied, with the equalities among the facts put into them; an equation is split into two inequalities"""
    if goal.op == "eq0":
        x = goal.a[0]
        return follows(facts, le(x, ZERO), depth) and follows(facts, le(ZERO, x), depth)
    f = and_(*facts)
    if f is FALSE:
        return True
    lits = TM.lits_of(f)
    eqs = [l for l in lits if l.op == "eq0"]
    for l in eqs:
        rest = [x for x in lits if x is not l]
        new = replaced([l], goal, *rest)
        if new[0] is not goal or any(a is not b for a, b in zip(new[1:], rest)):
            return follows(new[1:], new[0], depth)
    g = TM.assume(goal, lits)
    if g is TRUE:
        return True
    if depth == 0:
        return False
    for t in (g, f):
        for x in TM.subterms(t):
            if x.ty == "bool" and x.op not in ("and", "or", "not", "ite", "c") and not TM.loose(x) and x not in lits and neg_b(x) not in lits:
                if TM.assume(t, (x,)) is not t or TM.assume(t, (neg_b(x),)) is not t:
                    return all(follows([TM.assume(y, (l,)) for y in lits] + [l], g, depth - 1) for l in (x, neg_b(x)))
    return False


def floors(ts, ix):
    """facts about the floor quotients in the terms, and about first places, at the indices ix: a first place exists exactly if there is a place, satisfies the
    condition, and floor division by the same positive number is monotone"""
    out, divs = [], []
    subs = [x for t in ts for x in TM.subterms(t)]
    extra = []
    for x in subs:
        if x.op == "first" and not TM.loose(x):
            ex = TM.neg_b(TM.neg_b(exists_like(x)))
            b, = TM.opened(x, x)
            out.append(or_(neg_b(ex), b))
            extra.append(b)
        if x.op in ("first", "exists") and not TM.loose(x):
            ex = exists_like(x)
            for i in ix:
                b, = TM.opened(x, i)
                out.append(or_(ex, neg_b(b)))
                extra.append(b)
    for x in subs + [y for b in extra for y in TM.subterms(b)]:
        if x.op == "div" and not TM.loose(x) and x not in divs:
            divs.append(x)
    for x in divs:
        a, n = x.a
        if nonneg(sub(n, ONE)):
            out.append(or_(lt(add(a, n), ZERO), le(C(-1), x)))
            out.append(or_(lt(a, ZERO), le(ZERO, x)))
            for y in divs:
                if y is not x and y.a[1] is n:
                    out.append(or_(lt(a, y.a[0]), le(y, x)))
    return [f for f in dict.fromkeys(out) if f is not TRUE]


def exists_like(f):
    return TM.exists(f.a[0], *ex_args(f)) if f.op == "first" else f


def ex_args(f):
    t = TM.tmpidx(f.a[0])
    return t, TM.opened(f, t)[0]


def total_of(s, i, n):
    """sum of s over 0 <= i < n in closed form, or None"""
    if s is None:
        return None
    if not has(s, i):
        return mul(n, s)
    if s.op == "ite":
        c, a, b = s.a
        if has(a, i) or has(b, i):
            return None
        k = count_true(c, i, n)
        return None if k is None else add(mul(n, b), mul(k, sub(a, b)))
    t = telescopes(s, i, n)
    if t is not None:
        return t
    if s.op == "div" and s.a[1] is n and sub(s.a[0], i).op in ("sym",):
        return sub(s.a[0], i)       # sum of floor((x+i)/n) over a full period is x
    if s.op == "div" and s.a[1] is n:
        x = add(s.a[0], i)          # floor((x+n-1-i)/n)
        y = sub(sub(x, n), C(-1))
        if not has(y, i):
            return y
    if s.op == "poly":
        tot = ZERO
        for m, c in to_poly(s).items():
            term = ONE
            for at, e in m:
                term = mul(term, powt(at, C(e)))
            v = total_of(term, i, n) if not (term is s) else None
            if v is None:
                return None
            tot = add(tot, scale(v, c))
        return tot
    return None


def telescopes(s, i, n):
    """s(i) = F(i+1) - F(i)"""
    if s.op != "poly":
        return None
    for m, c in to_poly(s).items():
        if c == 1 and len(m) == 1 and m[0][1] == 1 and has(m[0][0], i):
            F1 = m[0][0]
            F0 = subst(F1, {i: sub(i, ONE)})
            if s is sub(F1, F0):
                return sub(subst(F1, {i: sub(n, ONE)}), subst(F0, {i: ZERO}))
    return None


def count_true(c, i, n):
    """number of i in [0,n) satisfying c"""
    if c.op == "not":
        k = count_true(c.a[0], i, n)
        return None if k is None else sub(n, k)
    if c.op == "le0":
        p = to_poly(c.a[0])
        k = p.get(((i, 1),))
        r = sub(c.a[0], scale(i, k)) if k else None
        if k == 1 and not has(r, i):
            m = sub(ONE, r)             # i <= -r
        elif k == -1 and not has(r, i):
            m = sub(n, r)               # i >= r
        else:
            return None
        return m if nonneg(m) and nonneg(sub(n, m)) else None
    if c.op == "eq0":
        p = to_poly(c.a[0])
        k = p.get(((i, 1),))
        if k in (1, -1):
            r = scale(sub(c.a[0], scale(i, k)), -k)
            if not has(r, i) and nonneg(r) and nonneg(sub(sub(n, r), ONE)):
                return ONE
    return None


def started(ck, La, nm, wl):
    starts = [e for e in La.events if e.kind == "mcall" and e.a[1] == "start"]
    joins = [e for e in La.events if e.kind == "mcall" and e.a[1] == "join"]
    for m in La.made:
        mine = []
        for e in starts:
            c, mp = La.site(e.a[0])
            if c is m:
                mine.append((e, mp))
        # in the creating loop or in a later one over all workers; several call sites if at most one of them is reached
        evs = [e for e, mp in mine]
        same = [e for e in evs if e.guard is m.guard and loops_of(e) == loops_of(m)]
        once = all(implied([a.guard, b.guard], FALSE) for k, a in enumerate(evs) for b in evs[:k])
        ok = bool(evs) and once and (len(same) == 1 and len(evs) == 1 or covers(La, m, evs))
        ck.ob("%s: every worker is started exactly once" % nm, ok, m.where, "%d start calls for this worker" % len(mine))
        run_directly = [e for e in La.events if e.kind == "mcall" and e.a[1] == "run" and La.site(e.a[0])[0] is m]
        ck.ob("%s: workers run concurrently through start()" % nm, not run_directly, m.where, "run() is called")
        js = [e for e in joins if La.site(e.a[0])[0] is m]
        ck.ob("%s: every started worker is awaited" % nm, covers(La, m, js), m.where, "%d join calls: %s" % (len(js), "; ".join("if %s" % sh(e.guard, 120) for e in js)))
        ck.ob("%s: awaiting has no time limit" % nm, all(not e.a[2] and not e.a[3] for e in js), m.where, "join is called with arguments")
        if js and mine:
            late = all(max(s.pos for s, _ in mine) < j.pos for j in js) and all(not shares_loop(s, j) for s, _ in mine for j in js)
            ck.ob("%s: workers are awaited after all have been started" % nm, late, js[0].where, "a join precedes a start")


def shares_loop(a, b):
    return bool({i for i, n, k in a.loops} & {i for i, n, k in b.loops})


def covers(La, m, evs):
    """in every case in which worker m(i) was created one of the events happens for it"""
    if not evs:
        return False
    alts = []
    for e in evs:
        c, mp = La.site(e.a[0])
        if not m.loops:
            if e.loops:
                return False
            alts.append(e.guard)
            continue
        if len(m.loops) != 1 or len(e.loops) != 1:
            return False
        i = m.loops[0][0]
        j, n, _ = e.loops[0]
        if mp.get(i) is not j:
            return False
        alts.append(and_(subst(e.guard, {j: i}), lt(i, n)))
    facts = [m.guard]
    for i, n, _ in m.loops:
        facts += [le(ZERO, i), lt(i, n)]
    facts, goal = [f for f in facts if f is not TRUE], or_(*alts)
    return implied(facts, goal) or follows(facts + floors(facts + [goal], [i for i, _, _ in m.loops]), goal, 12)
