"""Loop summaries: the transfer function of one iteration is computed with loop-carried symbols, run to a
fixpoint of (what varies, what is written), and closed forms are then read off the recurrences."""
from .terms import *
from . import terms as TM
from .heap import *
from . import heap as H
from .loader import Unsupported

ANYADDR = mk("anyaddr", ty="any")
MAXPASS = 9


def _ty_key(ty):
    return repr(ty) if not isinstance(ty, tuple) else str(tuple(getattr(x, "name", x) if not isinstance(x, tuple) else _ty_key(x) for x in ty))


def norm_ty(v):
    if v is None or v.op == "undef":
        return None
    if v is NONE:
        return "none"
    if is_boolish(v):
        return "bool"
    if is_int(v):
        return "int"
    if cls_of(v) is not None and v.op != "ite":
        c = cls_of(v)
        t = {"list": "list", "dict": "dict", "set": "setref"}.get(c) if isinstance(c, str) else ("ref", c)
        if isinstance(v.ty, tuple) and v.ty[0] == "opt":
            return ("opt", t)
        return t
    if is_numeric(v):
        return "float"
    return v.ty


def join_ty(a, b):
    if a is None or b is None:
        return None
    if a == b:
        return a
    if {a, b} == {"int", "float"} if isinstance(a, str) and isinstance(b, str) else False:
        return "float"
    if a == "none":
        return b if isinstance(b, tuple) and b[0] == "opt" else ("opt", b)
    if b == "none":
        return a if isinstance(a, tuple) and a[0] == "opt" else ("opt", a)
    if isinstance(a, tuple) and a[0] == "opt" and (a[1] == b):
        return a
    if isinstance(b, tuple) and b[0] == "opt" and (b[1] == a):
        return b
    return None


class Slot:
    """one loop-carried location"""
    def __init__(self, key, name, init):
        self.key, self.name, self.init = key, name, init
        self.ty = norm_ty(init) if init is not UNDEF else None
        self.first = True
        self.ety = elem_ty(init) if init is not UNDEF and init.ty in ("seq", "set") else None
        self.empty = init.op == "seq" and not init.a or (init.op == "setof" and init.a[0].op == "seq" and not init.a[0].a)

    def widen(self, nxt):
        if self.init is UNDEF and self.first:
            self.ty = norm_ty(nxt)
        else:
            self.ty = join_ty(self.ty, norm_ty(nxt))
        e = elem_ty(nxt) if nxt.ty in ("seq", "set") or nxt.op in ("cat", "ite") else None
        if self.empty and self.first:
            self.ety = e
        elif self.ety != e:
            self.ety = self.ety if e is None and self.empty else (e if self.ety is None and self.empty else None)
        self.first = False

    def sym(self):
        t = mk("th", self.key, str(self.name), _ty_key(self.ty) + "|" + _ty_key(self.ety), ty=self.ty)
        if self.ety is not None:
            TM.ELEM_TY[t] = self.ety
        return t


def nm(loc):
    if loc[0] == "v":
        return "v:" + loc[1]
    return "c:%d.%s" % (loc[1].id, loc[2])


def summarise(ip, n, ix, key, names, run, env, st, node):
    from .interp import Out, St
    if n is ZERO:
        return [Out("next", TRUE, env, st)]
    if is_num(n) and n.a[0] <= 0:
        return [Out("next", TRUE, env, st)]
    info = LoopInfo(key, ix, n)
    H.LOOPINFO[key] = info
    slots = {}          # loc -> Slot
    vmems = {}          # attr -> True
    ev0, seq0 = len(ip.events), ip.seqno
    entry_env, entry = env, st
    prev = None
    npass = 0
    drop = False
    while True:
        npass += 1
        del ip.events[ev0:]
        ip.seqno = seq0
        e, t = entry_env.copy(), entry.copy()
        for loc, s in slots.items():
            if loc[0] == "v":
                e.vars[loc[1]] = s.sym()
            else:
                t.cells[(loc[1], loc[2])] = s.sym()
        for a in vmems:
            t.mems[a] = mk("mth", a, key)
            info.init[a] = entry.mems.get(a, minit(a))
        start_env, start = e.copy(), t.copy()
        if n is not INF:
            t.fact(lt(ZERO, n))
        ip.loops.append((ix, n, key))
        try:
            outs = run(e, t)
        finally:
            ip.loops.pop()
        for o in outs:
            flush(o.st, entry.fresh)
        nexts = [o for o in outs if o.kind == "next"]
        exits = [o for o in outs if o.kind not in ("next", "raise")]
        for o in nexts:
            pass
        latch = None
        if nexts:
            latch = ip.merge(nexts, "next")
        changed = False
        layers = {}
        if latch is not None:
            # locals
            for v in sorted(set(latch.env.vars) | set(start_env.vars)):
                if v not in names and v not in entry_env.vars:
                    continue
                x, y = start_env.vars.get(v, UNDEF), latch.env.vars.get(v, UNDEF)
                if x is y or y is UNDEF:
                    continue
                loc = ("v", v)
                if loc not in slots:
                    slots[loc] = Slot(key, nm(loc), entry_env.vars.get(v, UNDEF))
                    changed = True
                k0 = slots[loc].sym()
                slots[loc].widen(y)
                if slots[loc].sym() is not k0:
                    changed = True
            for k, y in list(latch.st.cells.items()):
                x = start.cells.get(k)
                if x is y:
                    continue
                loc = ("c",) + k
                if x is None:
                    d = ip.get_default(entry, k)
                    if d is not None:
                        x = d
                        if d is y:
                            continue
                    elif k[0] not in entry.fresh and not known_cell(entry, k):
                        # object created by the iteration (static label only when not in a numbered loop)
                        x = UNDEF
                if loc not in slots:
                    slots[loc] = Slot(key, nm(loc), entry.cells.get(k, x if x is not None else UNDEF))
                    changed = True
                k0 = slots[loc].sym()
                slots[loc].widen(y)
                if slots[loc].sym() is not k0:
                    changed = True
            for a, m in latch.st.mems.items():
                b = start.mems.get(a, minit(a))
                if m is b:
                    continue
                if a not in vmems:
                    vmems[a] = True
                    changed = True
                    continue
                l = layers_since(m, b)
                if l is None or drop:
                    l = [((), TRUE, ANYADDR, NONE)]
                layers[a] = tuple(l)
            for a in vmems:
                layers.setdefault(a, ())
        info.muts = [x.a[0] for x in ip.events[ev0:] if x.kind == "mut"]
        info.cuts = {x.a[0] for x in ip.events[ev0:] if x.kind == "cutcall"}
        if not changed and layers == info.layers:
            break
        if npass >= MAXPASS:
            if drop:
                raise Unsupported("loop does not stabilise", node, ip.fstack[-1].where if ip.fstack else None)
            drop = True
            npass = 0
        info.layers = layers
    # ---------------------------------------------------------------- closed forms
    K = mk("sym", "K!" + key, ty="int")
    RANGE[K] = (ZERO, None if n is INF else n)
    star = mk("idx", key + "*", ty="int")
    RANGE[star] = (ZERO, sub(n, ONE) if n is not INF else None)
    nxt = {}
    if latch is not None:
        for loc, s in slots.items():
            y = latch.env.vars.get(loc[1], UNDEF) if loc[0] == "v" else latch.st.cells.get((loc[1], loc[2]), UNDEF)
            nxt[loc] = y
    sy = {loc: s.sym() for loc, s in slots.items()}
    cf = {}             # loc -> term in K
    resolve_slots(slots, sy, nxt, cf, ix, K, key)

    mcf = {}            # attr -> (lambda k: memory)
    mres = resolve_mems(info, layers if latch is not None else {}, slots, sy, cf, ix, K, star, key, n)

    def at(k):
        mp = {}
        for loc in slots:
            mp[sy[loc]] = subst(cf[loc], {K: k}) if k is not K else cf[loc]
        for a in vmems:
            mp[mk("mth", a, key)] = mres[a](k)
        return mp

    def close(t, k):
        if t is UNDEF or t is None:
            return t
        r = subst(t, at_memo(k))
        if k is not ix:
            r = subst(r, {ix: k})
        return r

    memo = {}

    def at_memo(k):
        if k not in memo:
            memo[k] = at(k)
        return memo[k]

    # events of the body
    for j in range(ev0, len(ip.events)):
        ip.events[j] = ip.events[j].mapped(lambda x: close(x, ix))
        ip.events[j].loops = tuple(ip.events[j].loops)
    res = []
    # exits
    allc = None
    m = None
    if exits:
        conds = [close(o.cond, ix) for o in exits]
        allc = or_(*conds)
        opaque = contains_op(allc, ("th", "loopval")) and mentions(allc, key) or contains_mat(allc, key)
        if allc is TRUE:
            m = ZERO
            some = lt(ZERO, n) if n is not INF else TRUE
        else:
            some = exists(n, ix, allc) if n is not INF else TRUE
            m = first(n, ix, allc)
            if m.op == "first":
                pass
        bound_events(ip.events[ev0:], ix, key, n, m, some, allc)
        for o, c in zip(exits, conds):
            cc = some if len(exits) == 1 else and_(some, assume(subst(c, {ix: m}), ()))
            if cc is FALSE:
                continue
            e2, s2 = carry(o, entry_env, entry, names, slots, vmems, lambda t: close(t, m), lambda a: mres[a](m), key, ip)
            s2.pc = entry.pc
            for l in o.st.pc:
                if l not in entry.pc:
                    s2.fact(close(l, m))
            s2.fact(cc)
            val = close(o.val, m) if o.val is not None else None
            res.append(Out(o.kind, cc, e2, s2, val))
    if n is not INF and latch is not None:
        c = TRUE if not exits else neg_b(some)
        if c is not FALSE:
            e2, s2 = entry_env.copy(), entry.copy()
            fin = at_memo(n)
            for loc, s in slots.items():
                v = fin[sy[loc]]
                if loc[0] == "v":
                    e2.vars[loc[1]] = v
                else:
                    s2.cells[(loc[1], loc[2])] = v
            for a in vmems:
                s2.mems[a] = fin[mk("mth", a, key)]
            s2.fact(c)
            res.append(Out("next", c, e2, s2))
    elif n is not INF and latch is None:
        c = neg_b(some) if exits else le(n, ZERO)
        if c is not FALSE:
            s2 = entry.copy()
            s2.fact(c)
            res.append(Out("next", c, entry_env.copy(), s2))
    if not res:
        s2 = entry.copy()
        res.append(Out("next" if n is not INF else "exh", TRUE, entry_env.copy(), s2))
        ip.ev_add("nonterm", (key,), entry, node)
    return res


def bound_events(evs, ix, key, n, m, some, allc):
    """account for the iterations that are not reached after a loop has been left early (left in iteration m)"""
    stay = lits_of(neg_b(allc))
    mono = None
    for e in evs:
        have = set(lits_of(e.guard))
        past = bool(stay) and all(l in have for l in stay)
        if n is INF:
            e.loops = tuple((i, (m if past else add(m, ONE)) if k == key else c, k) for i, c, k in e.loops)
            if past:
                e.guard = and_(*[l for l in lits_of(e.guard) if l not in stay])
            continue
        if past:
            if mono is None:
                mono = m is ZERO or all(decide(l, tuple(stay_at(stay, ix))) is TRUE for l in stay)
            if mono:
                continue
        g = le(ix, m) if some is TRUE else or_(neg_b(some), le(ix, m))
        e.guard = and_(e.guard, g)


def stay_at(stay, ix):
    """the conditions for going on, one iteration later"""
    return [subst(l, {ix: add(ix, ONE)}) for l in stay]


def known_cell(st, k):
    return any(a is k[0] for a, _ in st.cells)


def mentions(t, key):
    return any(x.op in ("th",) and x.a[0] == key for x in free_atoms(t))


def contains_mat(t, key):
    return False


def flush(st, fresh0):
    """objects allocated by the iteration: their fields become memory writes"""
    mine = [k for k in st.cells if k[0] in st.fresh and k[0] not in fresh0]
    for k in sorted(mine, key=lambda z: (z[0].id, z[1])):
        v = st.cells.pop(k)
        a, attr = k
        m = st.mems.get(attr)
        st.mems[attr] = mupd(m if m is not None else minit(attr), a, v)
    st.fresh = fresh0


def carry(o, env0, st0, names, slots, vmems, f, mem, key, ip):
    """state at a loop exit with the loop-carried symbols replaced"""
    e2 = o.env.copy()
    for v, x in list(e2.vars.items()):
        if isinstance(x, T) and x is not env0.vars.get(v):
            e2.vars[v] = f(x)
    s2 = o.st.copy()
    for k, x in list(s2.cells.items()):
        if x is not st0.cells.get(k):
            s2.cells[k] = f(x)
    for a, x in list(s2.mems.items()):
        if x is not st0.mems.get(a):
            s2.mems[a] = fmem(x, f, key, mem)
    return e2, s2


def fmem(m, f, key, mem):
    """apply a value substitution to a memory term"""
    if m.op == "mth" and m.a[1] == key:
        return mem(m.a[0])
    if m.op == "mupd":
        return mupd(fmem(m.a[0], f, key, mem), f(m.a[1]), f(m.a[2]))
    if m.op == "mite":
        return mite(f(m.a[0]), fmem(m.a[1], f, key, mem), fmem(m.a[2], f, key, mem))
    if m.op == "mbulk":
        return mbulk(fmem(m.a[0], f, key, mem), _rb_tuple_f(m.a[1], f))
    return m


def _rb_tuple_f(x, f):
    return tuple(f(y) if isinstance(y, T) else (_rb_tuple_f(y, f) if isinstance(y, tuple) else y) for y in x)


# ---------------------------------------------------------------- recurrences
def resolve_slots(slots, sy, nxt, cf, ix, K, key):
    left = [loc for loc in slots if loc in nxt]
    for loc in slots:
        if loc not in nxt:
            cf[loc] = slots[loc].init
    allsy = {sy[l]: l for l in slots}
    progress = True
    parts = {}
    while left and progress:
        progress = False
        for loc in list(left):
            N = nxt[loc]
            known = {sy[l]: subst(cf[l], {K: ix}) for l in cf if sy[l] is not sy[loc] and has(N, sy[l])}
            if known:
                N = subst(N, known)
            c = guarded_append(loc, slots, sy, nxt, cf, ix, K, N)
            if c is None:
                c = closed(slots[loc].init, sy[loc], N, allsy, ix, K)
            if c is not None:
                set_ty(c, slots[loc])
                cf[loc] = c
                left.remove(loc)
                progress = True
    # mutually recursive leftovers: folds
    for loc in list(left):
        comp = [loc]
        k = 0
        bodies = {}
        while k < len(comp):
            N = nxt[comp[k]]
            known = {sy[l]: subst(cf[l], {K: ix}) for l in cf if has(N, sy[l])}
            if known:
                N = subst(N, known)
            bodies[comp[k]] = N
            for s in sorted((x for x in free_atoms(N) if x in allsy), key=lambda z: z.id):
                if allsy[s] not in comp and allsy[s] not in cf:
                    comp.append(allsy[s])
            k += 1
        # order by first occurrence in the term of loc, not by name
        cf_loc = foldv(0, [slots[l].init for l in comp], [bodies[l] for l in comp], [sy[l] for l in comp], K, ix)
        set_ty(cf_loc, slots[loc])
        parts[loc] = cf_loc
    cf.update(parts)


def set_ty(t, slot):
    if t.ty is None and slot.ty is not None:
        t.ty = slot.ty
    if slot.ety is not None and t.op in ("foldv", "loopval", "distinctby", "distinct") and t not in TM.ELEM_TY:
        TM.ELEM_TY[t] = slot.ety


def foldv(j, inits, nexts, syms, n, ix):
    lvl = 1 + max([0] + [x.a[0] for N in nexts for x in free_atoms(N) if x.op == "fv"])
    mp = {s: mk("fv", lvl, i, s.a[2], ty=s.ty) for i, s in enumerate(syms)}
    for s, v in mp.items():
        if s in TM.ELEM_TY:
            TM.ELEM_TY[v] = TM.ELEM_TY[s]
    lam = binder("lam", n, ix, [tup(*[subst(N, mp) for N in nexts])])
    t = mk("foldv", j, tuple(inits), lam)
    return t


def suffix(N, th):
    """N = th ++ s under every branch -> s"""
    if N is th:
        return seq()
    if N.op == "cat" and N.a[0] is th:
        return cat(*N.a[1:]) if len(N.a) > 2 else N.a[1]
    if N.op == "ite":
        a, b = suffix(N.a[1], th), suffix(N.a[2], th)
        if a is None or b is None:
            return None
        return ite(N.a[0], a, b)
    return None


def prefix(N, th):
    if N.op == "cat" and N.a[-1] is th:
        return cat(*N.a[:-1]) if len(N.a) > 2 else N.a[0]
    return None


def set_suffix(N, th):
    if N is th:
        return seq()
    if N.op == "setof":
        x = N.a[0]
        if x.op == "cat" and x.a[0].op == "aslist" and x.a[0].a[0] is th:
            return cat(*x.a[1:]) if len(x.a) > 2 else x.a[1]
        if x.op == "aslist" and x.a[0] is th:
            return seq()
        if x.op == "ite":
            a, b = set_suffix(setof(x.a[1]), th), set_suffix(setof(x.a[2]), th)
            if a is not None and b is not None:
                return ite(x.a[0], a, b)
    if N.op == "ite":
        a, b = set_suffix(N.a[1], th), set_suffix(N.a[2], th)
        if a is None or b is None:
            return None
        return ite(N.a[0], a, b)
    return None


def increment(N, th):
    if N is th:
        return ZERO
    if N.op == "ite":
        a, b = increment(N.a[1], th), increment(N.a[2], th)
        if a is None or b is None:
            return None
        return ite(N.a[0], a, b)
    if is_numeric(N):
        d = sub(N, th)
        if not has(d, th):
            return d
    return None


def updates(N, th):
    """N = th with conditional index updates -> [(binders, cond, i, v)]"""
    if N is th:
        return []
    if N.op == "upd":
        r = updates(N.a[0], th)
        return None if r is None else r + [((), TRUE, N.a[1], N.a[2])]
    if N.op == "bupd":
        r = updates(N.a[0], th)
        return None if r is None else r + list(N.a[1])
    if N.op == "ite":
        a, b = updates(N.a[1], th), updates(N.a[2], th)
        if a is None or b is None:
            return None
        c = N.a[0]
        return [(bb, and_(c, cc), i, v) for bb, cc, i, v in a] + [(bb, and_(neg_b(c), cc), i, v) for bb, cc, i, v in b]
    return None


def free_of(t, allsy):
    return not (free_atoms(t) & set(allsy))


def closed(I, th, N, allsy, ix, K):
    if N is th:
        return I
    if N is I and I is not UNDEF:
        return I
    if free_of(N, allsy):
        last = subst(N, {ix: sub(K, ONE)})
        if I is UNDEF:
            return last
        if not has(N, ix):
            return ite(lt(ZERO, K), N, I)
        return ite(lt(ZERO, K), last, I)
    others = [x for x in allsy if x is not th]
    if any(has(N, x) for x in others):
        return None
    if I is UNDEF:
        return None
    if is_boolish(N) or th.ty == "bool":
        r = flag(I, th, N, ix, K)
        if r is not None:
            return r
    if is_numeric(N) and (is_numeric(I)):
        d = increment(N, th)
        if d is not None and not has(d, th):
            return add(I, summ(K, ix, d))
    if th.ty == "set" or I.op == "setof":
        s = set_suffix(N, th)
        if s is not None:
            s = drop_member_guard(s, th)
            if s is not None and not has(s, th):
                base = I.a[0] if I.op == "setof" else aslist(I)
                return setof(cat(base, flatt(K, ix, s)))
    if I.op == "dict" and not I.a:
        return grouped(th, N, ix, K)
    s = suffix(N, th)
    if s is not None:
        if not has(s, th):
            return cat(I, flatt(K, ix, s))
        x = guard_member(s, th)
        if x is not None and not has(x, th):
            return distinct_from(I, K, ix, x)
    p = prefix(N, th)
    if p is not None and not has(p, th) and p.op == "seq" and len(p.a) == 1:
        from .interp import rev
        return cat(rev(mapt(K, ix, p.a[0])), I)
    u = updates(N, th)
    if u is not None and not any(has(z, th) for _, c, i, v in u for z in (c, i, v)):
        star = mk("idx", "u%d*" % (th.id,), ty="int")
        RANGE[star] = RANGE.get(ix, (ZERO, None))
        mp = {ix: star}
        lay = tuple((((star, K),) + tuple((bx, subst(bn, mp)) for bx, bn in bb), subst(c, mp), subst(i, mp), subst(v, mp)) for bb, c, i, v in u)
        r = mk("bupd", I, lay, ty="seq")
        e = None
        tys = {norm_ty(l[3]) for l in lay}
        if len(tys) == 1:
            TM.ELEM_TY[r] = tys.pop()
        return r
    if N.op == "ite" and N.a[2] is th and free_of(N.a[0], allsy) and free_of(N.a[1], allsy) and not has(N.a[1], ix):
        return ite(exists(K, ix, N.a[0]), N.a[1], I)
    if N.op == "ite" and N.a[1] is th and free_of(N.a[0], allsy) and free_of(N.a[2], allsy) and not has(N.a[2], ix):
        return ite(exists(K, ix, neg_b(N.a[0])), N.a[2], I)
    return None


def flag(I, th, N, ix, K):
    on = assume(N, [th])
    off = assume(N, [neg_b(th)])
    if has(on, th) or has(off, th):
        return None
    if on is TRUE:           # latch
        return or_(I, exists(K, ix, off))
    if off is FALSE:         # conjunction
        return and_(I, forall(K, ix, on))
    return None


def drop_member_guard(s, th):
    """adding an element only when it is not yet there is the same as adding it"""
    if not has(s, th):
        return s
    if s.op == "ite":
        from .interp import member
        for yes, no, c in ((s.a[1], s.a[2], s.a[0]), (s.a[2], s.a[1], neg_b(s.a[0]))):
            if no.op == "seq" and not no.a and yes.op == "seq" and len(yes.a) == 1:
                mem = member(yes.a[0], th)
                if neg_b(mem) is c:
                    return yes
                # c == rest & not member
                if c.op == "and" and neg_b(mem) in c.a:
                    rest = and_(*[z for z in c.a if z is not neg_b(mem)])
                    if not has(rest, th):
                        return ite(rest, yes, no)
        a, b = drop_member_guard(s.a[1], th), drop_member_guard(s.a[2], th)
        if a is not None and b is not None and not has(s.a[0], th):
            return ite(s.a[0], a, b)
    return None


def guard_member(s, th):
    """s = [] if x in th else [x]  -> x"""
    from .interp import member
    if s.op == "ite":
        for yes, no, c in ((s.a[1], s.a[2], s.a[0]), (s.a[2], s.a[1], neg_b(s.a[0]))):
            if no.op == "seq" and not no.a and yes.op == "seq" and len(yes.a) == 1:
                x = yes.a[0]
                if neg_b(member(x, th)) is c:
                    return x
    return None


def distinct_from(I, K, ix, x):
    if I.op == "seq" and not I.a:
        return distinct(mapt(K, ix, x))
    return distinct(cat(I, mapt(K, ix, x)))


def grouped(th, N, ix, K):
    """an empty dictionary that receives one key per pass: its keys in order of first occurrence, with the first (or last) value"""
    first, put = True, None
    if N.op == "ite":
        for yes, no, c in ((N.a[1], N.a[2], neg_b(N.a[0])), (N.a[2], N.a[1], N.a[0])):
            if yes is th and no.op == "dputx" and no.a[0] is th and c is neg_b(mk("haskey", th, no.a[1], ty="bool")):
                put = no.a[1], no.a[2]
    elif N.op == "dputx" and N.a[0] is th:
        k, v = N.a[1:]
        h = mk("haskey", th, k, ty="bool")
        if v.op == "ite" and v.a[0] is h and v.a[1] is mk("get", th, k, ty="any"):
            put = k, v.a[2]
        elif v.op == "ite" and v.a[0] is neg_b(h) and v.a[2] is mk("get", th, k, ty="any"):
            put = k, v.a[1]
        else:
            first, put = False, (k, v)
    if put is None or has(put[0], th) or has(put[1], th):
        return None
    k, v = put
    keys = distinct(mapt(K, ix, k))
    base = mapt(K, ix, v)
    return mk("dictby", keys, distinctby_of(base, K, ix, k, v) if first else mk("lastby", keys, base, ty="seq"), TM.binder("lam", K, ix, [tup(k, v)]), ty="dictval")


def guarded_append(loc, slots, sy, nxt, cf, ix, K, N):
    """append b only when key(b) was not recorded before in a companion list/set: first representatives by key"""
    from .interp import member
    th = sy[loc]
    I = slots[loc].init
    N0 = nxt[loc]
    s = suffix(N0, th)
    if s is None or s.op != "ite" or not (I.op == "seq" and not I.a):
        return None
    for yes, no, c in ((s.a[1], s.a[2], s.a[0]), (s.a[2], s.a[1], neg_b(s.a[0]))):
        if not (no.op == "seq" and not no.a and yes.op == "seq" and len(yes.a) == 1):
            continue
        b = yes.a[0]
        for l2 in slots:
            t2 = sy[l2]
            if t2 is th or not has(c, t2):
                continue
            I2 = slots[l2].init
            if not (I2.op == "seq" and not I2.a or I2.op == "setof" and I2.a[0].op == "seq" and not I2.a[0].a):
                continue
            N2 = nxt[l2]
            s2 = suffix(N2, t2) if I2.op == "seq" else set_suffix(N2, t2)
            if s2 is None:
                continue
            # the companion receives key x whenever it is absent (or always, for a set)
            cand = None
            if s2.op == "ite":
                for y2, n2, c2 in ((s2.a[1], s2.a[2], s2.a[0]), (s2.a[2], s2.a[1], neg_b(s2.a[0]))):
                    if n2.op == "seq" and not n2.a and y2.op == "seq" and len(y2.a) == 1 and neg_b(member(y2.a[0], t2)) is c2:
                        cand = y2.a[0]
            elif s2.op == "seq" and len(s2.a) == 1:
                cand = s2.a[0]
            if cand is None:
                continue
            if c is neg_b(member(cand, t2)) and not any(has(cand, z) or has(b, z) for z in sy.values()):
                base = mapt(K, ix, b)
                return distinctby_of(base, K, ix, cand, b)
    return None


def distinctby_of(base, K, ix, key, b):
    n = length(base)
    e = elem(base, ix)
    return mk("distinctby", base, binder("lam", n, ix, [key]), ty="seq")


# ---------------------------------------------------------------- memories
class _Acc(tuple):
    pass


ACC = _Acc()      # stands for 'no binders, the value is (old content, what one iteration adds)'


def resolve_mems(info, layers, slots, sy, cf, ix, K, star, key, n):
    res = {}
    done = {}

    def opaque(a):
        return lambda k: mk("maft", a, key, k)

    attrs = list(layers)
    allth = {sy[l] for l in slots}
    pend = list(attrs)
    base = {sy[l]: subst(cf[l], {K: ix}) for l in slots}
    progress = True

    def mkat(a, lay):
        init = info.init[a]

        def f(k):
            out = []
            for binders, c, w, v in lay:
                mp = {ix: star}
                if binders is ACC:
                    # items are only ever added to the list at this address, by this statement
                    w2, c2 = subst(w, mp), subst(c, mp)
                    out.append(((), TRUE, w2, cat(subst(v[0], mp), TM.flatt(k, star, ite(c2, subst(v[1], mp), seq())))))
                    continue
                w2, c2, v2 = subst(w, mp), subst(c, mp), subst(v, mp)
                bb = tuple((bx, subst(bn, mp)) for bx, bn in binders)
                if not has(w2, star) and not has(v2, star) and not any(has(bn, star) for _, bn in bb):
                    ex = exists(k, star, c2) if k is not INF else TRUE
                    out.append((bb, ex, w2, v2))
                elif not has(w2, star) and not bb and k is not INF and unique_index(k, star, c2):
                    ex, at = unique_index(k, star, c2)
                    out.append((bb, ex, w2, subst(v2, {star: at})))
                else:
                    out.append((((star, k),) + bb, c2, w2, v2))
            m = init
            run = []
            for l in out:
                if not l[0]:
                    if run:
                        m = mbulk(m, run)
                        run = []
                    m = mite(l[1], mupd(m, l[2], l[3]), m)
                else:
                    run.append(l)
            return mbulk(m, run) if run else m
        return f

    def split(v, old):
        """v = old content followed by X"""
        if v.op == "cat" and v.a[0] is old:
            return cat(*v.a[1:])
        return None

    def accumulated(a):
        """a list at a fixed address that every iteration only adds to: its closed form needs no memory of the loop"""
        out = []
        for l in layers[a]:
            binders, c, w, v = l
            me = mk("mth", a, key)
            if w is ANYADDR or binders or has(w, ix) or not has(v, me) or any(has(w, s) for s in allth) or contains_mat(w, key) \
                    or any(x.op == "mth" and x.a[1] == key for x in free_atoms(w)):
                out.append(l)
                continue
            X = split(v, H.read(me, w))
            if X is None or X.op != "ite" and has(X, me) or has(X, me) or has(c, me):
                out.append(l)
                continue
            if any(l2 is not l and (l2[2] is ANYADDR or H.alias(w, l2[2]) is not FALSE and and_(H.alias(w, l2[2]), l2[1]) is not FALSE) for l2 in layers[a]):
                out.append(l)
                continue
            out.append((ACC, c, w, (H.read(info.init[a], w), X)))
        return tuple(out)

    def pieces(v):
        return v if isinstance(v, tuple) else (v,)

    for a in attrs:
        layers[a] = accumulated(a)

    while pend and progress:
        progress = False
        for a in list(pend):
            lay = layers[a]
            if any(l[2] is ANYADDR for l in lay):
                continue
            lay2 = []
            ok = True
            for binders, c, w, v in lay:
                mp = dict(base)
                need = set()
                for z in (c, w) + pieces(v) + tuple(bn for _, bn in binders):
                    need |= {x for x in free_atoms(z) if x.op == "mth" and x.a[1] == key}
                for x in need:
                    if x.a[0] in done:
                        mp[x] = done[x.a[0]](ix)
                    else:
                        ok = False
                if not ok:
                    break
                f = lambda z: subst(z, mp) if not isinstance(z, tuple) else tuple(subst(y, mp) for y in z)
                lay2.append((binders if binders is ACC else tuple((bx, f(bn)) for bx, bn in binders), f(c), f(w), f(v)))
            if not ok:
                continue
            done[a] = mkat(a, tuple(lay2))
            pend.remove(a)
            progress = True
    # layers that still refer to the memory of the loop: keep the shape, with the memory of that iteration opaque
    for a in pend:
        lay = layers[a]
        if any(l[2] is ANYADDR for l in lay):
            done[a] = opaque(a)
            continue
        mp = dict(base)
        lay2 = []
        okshape = True
        for binders, c, w, v in lay:
            for z in (c, w) + pieces(v) + tuple(bn for _, bn in binders):
                for x in free_atoms(z):
                    if x.op == "mth" and x.a[1] == key:
                        mp[x] = done[x.a[0]](ix) if x.a[0] in done else mk("maft", x.a[0], key, ix)
            f = lambda z: subst(z, mp) if not isinstance(z, tuple) else tuple(subst(y, mp) for y in z)
            lay2.append((binders if binders is ACC else tuple((bx, f(bn)) for bx, bn in binders), f(c), f(w), f(v)))
        done[a] = mkat(a, tuple(lay2))
    for a in info.init:
        if a not in done:
            done[a] = (lambda a: (lambda k: info.init[a]))(a)
    return done
