"""Abstract heap: memories (one per attribute) as terms, read-over-write simplification, aliasing."""
from .terms import *
from . import terms as TM

LABELS = {}          # label -> dict(cls=..., node=..., phase=int)
FTYPES = {}          # (class name, attr) -> type used for opaque reads
OWNED = {}           # (class name, attr) -> True if the cell owns a list of its own
LOOPINFO = {}        # loop key -> LoopInfo
FAMILY = set()       # sequences whose elements are pairwise distinct objects
PHASE = [0]
CONTENT_TY = {}      # home -> element type
DEFAULTS = {}        # contents of default-value containers
REWRITES = []        # f(kind, ...) hooks: regime invariants


class LoopInfo:
    def __init__(self, key, ix, n):
        self.key, self.ix, self.n = key, ix, n
        self.init = {}       # attr -> mem at loop entry
        self.layers = {}     # attr -> layers written by one iteration (previous pass)
        self.pc = ()
        self.muts = []       # lists changed directly by one pass
        self.cuts = set()    # operations one pass stands in for


def new(label, *args):
    return mk("new", label, *args)


def cls_of(addr):
    """class (loader.Class, 'list', 'set', 'dict' or None) of a reference term"""
    if addr.op == "new":
        return LABELS[addr.a[0]]["cls"]
    if addr.op == "own":
        return "list"
    ty = addr.ty
    if addr.op == "ite":
        a, b = cls_of(addr.a[1]), cls_of(addr.a[2])
        if a is b:
            return a
        if addr.a[1] is NONE:
            return b
        if addr.a[2] is NONE:
            return a
        return None
    if isinstance(ty, tuple):
        if ty[0] == "opt":
            ty = ty[1]
        if isinstance(ty, tuple) and ty[0] == "ref":
            return ty[1]
    if ty in ("list", "dict", "setref"):
        return {"list": "list", "dict": "dict", "setref": "set"}[ty]
    return None


def cname(addr):
    c = cls_of(addr)
    return c if isinstance(c, str) or c is None else c.name


def phase_of(addr):
    if addr.op == "new":
        return LABELS[addr.a[0]]["phase"]
    return None


CTOR_PHASE = [None]
TAG_OWN = {}         # tag of a memory after a summarised operation -> owners of the lists it may have changed
NOTOWN = {}          # state symbol of a list cell whose list no other cell or object ever holds -> list the constructor put there
_of_state = {}


def of_state(t):
    """the reference is read from the state before an operation (contains nothing an operation made or left unknown)"""
    r = _of_state.get(t)
    if r is None:
        r = _of_state[t] = not contains_op(t, ("new", "hv", "mth", "maft", "mupd", "mbulk", "mite", "res", "ext", "call", "fv", "foldv", "ite", "bv")) \
            and not any(x.op == "minit" and x.a[1] != "" for x in TM.subterms(t))
    return r


def whole(xs, ys):
    """the pairs to compare, quotient and remainder of one number taken together: (z//b, z%b) = (q, r) iff z = b*q + r"""
    ps = list(zip(xs, ys))
    for i, (x, y) in enumerate(ps):
        for z, o, side in ((x, y, 0), (y, x, 1)):
            if z.op != "div" or not TM.positive(z.a[1]):
                continue
            b = z.a[1]
            m = TM.mod(z.a[0], b)
            for j, p in enumerate(ps):
                if j != i and p[side] is m and (p[1 - side].op == "mod" and p[1 - side].a[1] is b
                                                or TM.nonneg(p[1 - side]) and TM.nonneg(sub(sub(b, p[1 - side]), ONE))):
                    rest = [q for k, q in enumerate(ps) if k not in (i, j)]
                    return [(z.a[0], add(TM.mul(b, o), p[1 - side]))] + rest
    return ps


_holding = set()


def held(x):
    """an attribute read during or after a loop: what it held before or one of the values the loop stores in it"""
    attr, key = x.a[0].a[0], x.a[0].a[1]
    info = LOOPINFO.get(key)
    if info is None or attr not in info.init or key in _holding:
        return None
    _holding.add(key)
    try:
        out = [read(info.init[attr], x.a[1])]
        for l in info.layers.get(attr) or ():
            if l[2].op == "anyaddr" or not isinstance(l[3], T):
                return None
            out.append(l[3])
    finally:
        _holding.discard(key)
    # only values whose identity is plain
    if all(o.op in ("new", "own") for o in out):
        return out
    return None


def alias(a, b):
    """term: do the two references denote the same object"""
    if a is b:
        return TRUE
    if a.op == "ite":
        return ite(a.a[0], alias(a.a[1], b), alias(a.a[2], b))
    if b.op == "ite":
        return ite(b.a[0], alias(a, b.a[1]), alias(a, b.a[2]))
    if a is NONE or b is NONE:
        return FALSE
    if a.op == "new" and b.op == "new":
        if a.a[0] != b.a[0]:
            return FALSE
        return and_(*[eq(x, y) for x, y in whole(a.a[1:], b.a[1:])])
    if a.op == "own" and b.op == "own":
        if a.a[0] != b.a[0]:
            return FALSE
        return alias(a.a[1], b.a[1])
    if {a.op, b.op} == {"own", "new"}:
        n = a if a.op == "new" else b
        # an owned list cell never holds a list made elsewhere
        return FALSE
    if a in NOTOWN and b.op == "own" or b in NOTOWN and a.op == "own":
        return FALSE
    if a in NOTOWN or b in NOTOWN:
        if a in NOTOWN and b in NOTOWN:
            return FALSE
        x, y = (a, b) if a in NOTOWN else (b, a)
        if y.op == "new" and CTOR_PHASE[0] is not None and LABELS[y.a[0]]["phase"] == CTOR_PHASE[0] and y is not NOTOWN[x]:
            return FALSE
    for x, y in ((a, b), (b, a)):
        if x.op == "sel" and x.a[0].op == "maft" and x.a[0].a[0] != "$c":
            hs = held(x)
            if hs is not None and all(alias(h, y) is FALSE for h in hs):
                return FALSE
    ca, cb = cls_of(a), cls_of(b)
    if ca is not None and cb is not None and ca is not cb:
        if isinstance(ca, str) or isinstance(cb, str) or not (ca.issub(cb) or cb.issub(ca)):
            return FALSE
    if a.op == "elem" and b.op == "elem" and a.a[0] is b.a[0] and a.a[0] in FAMILY:
        return eq(a.a[1], b.a[1])
    for x, y in ((a, b), (b, a)):
        if x.op == "new" and LABELS[x.a[0]]["phase"] == PHASE[0] and not contains_op(y, ("new",)):
            return FALSE     # allocated later than everything the opaque reference can denote
        if x.op == "new" and CTOR_PHASE[0] is not None and LABELS[x.a[0]]["phase"] > CTOR_PHASE[0] and of_state(y):
            return FALSE     # made by the operation whose initial state the reference comes from
    return mk("eq", *sorted((a, b), key=lambda t: t.id), ty="bool")


def ref_eq_hook(a, b):
    if a.op in ("new", "own") or b.op in ("new", "own"):
        if is_numeric(a) or is_numeric(b):
            return FALSE
        if a.op == "c" or b.op == "c":
            return FALSE
        return alias(a, b)
    if a.op == "elem" and b.op == "elem" and a.a[0] is b.a[0] and a.a[0] in FAMILY:
        return eq(a.a[1], b.a[1])
    return None


TM.DISJOINT_HOOK[0] = ref_eq_hook


# ---------------------------------------------------------------- memories
def minit(attr, tag=""):
    return mk("minit", attr, tag)


def mupd(m, a, v):
    if a.op == "ite":
        c, x, y = a.a
        if y is NONE:
            return mupd(m, x, v)
        if x is NONE:
            return mupd(m, y, v)
        return mite(c, mupd(m, x, v), mupd(m, y, v))
    while m.op == "mupd" and m.a[1] is a:
        m = m.a[0]
    return mk("mupd", m, a, v)


def mite(c, a, b):
    if a is b or c is TRUE:
        return a
    if c is FALSE:
        return b
    if c.op == "not":
        c, a, b = c.a[0], b, a
    return mk("mite", c, a, b)


def mbulk(m, layers):
    if not layers:
        return m
    return mk("mbulk", m, tuple(layers))


def mem_attr(m):
    while m.op not in ("minit", "mth", "maft"):
        m = m.a[1] if m.op == "mite" else m.a[0]
    return m.a[0]


_rd = {}


def read(m, a, pc=()):
    if a.op == "ite":
        c = a.a[0]
        d = decide(c, pc)
        if d is TRUE:
            return read(m, a.a[1], pc)
        if d is FALSE:
            return read(m, a.a[2], pc)
        if a.a[1] is NONE:
            return read(m, a.a[2], pc)
        if a.a[2] is NONE:
            return read(m, a.a[1], pc)
        return ite(c, read(m, a.a[1], pc), read(m, a.a[2], pc))
    n = 0
    while True:
        n += 1
        op = m.op
        if op == "mupd":
            c = decide(alias(a, m.a[1]), pc)
            if c is TRUE:
                return m.a[2]
            if c is FALSE:
                m = m.a[0]
                continue
            rest = read(m.a[0], a, pc + (neg_b(c),))
            return ite(c, m.a[2], rest)
        if op == "mite":
            c = decide(m.a[0], pc)
            if c is TRUE:
                m = m.a[1]
                continue
            if c is FALSE:
                m = m.a[2]
                continue
            x = read(m.a[1], a, pc + (c,))
            y = read(m.a[2], a, pc + (neg_b(c),))
            return ite(c, x, y)
        if op == "mbulk":
            r = read_mbulk(m, a, pc)
            if r is None:
                return stuck(m, a)
            if isinstance(r, tuple):
                m = r[1]
                continue
            return r
        if op == "mth":
            info = LOOPINFO[m.a[1]]
            lay = info.layers.get(m.a[0])
            if lay is None or all(not conflict(a, l, info, pc) for l in lay):
                m = info.init[m.a[0]]
                continue
            for h in REWRITES:
                r = h("mth", m, a, info, lay, pc)
                if r is not None:
                    return r
            return stuck(m, a)
        if op == "minit" or op == "maft":
            if op == "minit" and a.op == "own" and m.a[1] in TAG_OWN and a.a[0] not in TAG_OWN[m.a[1]]:
                m = minit(m.a[0])       # a list the summarised operation never touches
                continue
            for h in REWRITES:
                r = h("init", m, a, pc)
                if r is not None:
                    return r
            return stuck(m, a)
        raise AssertionError(op)


def decide(c, pc):
    if c is TRUE or c is FALSE or not pc:
        return c
    return assume(c, pc)


def stuck(m, a):
    attr = mem_attr(m)
    cn = cname(a)
    ty = None
    if attr == "$c":
        ty = "seq"
        if cn == "set":
            ty = "set"
    else:
        ty = FTYPES.get((cn, attr))
    if m.op == "minit" and (cn, attr) in OWNED:
        return mk("own", (cn, attr), a, ty="list")
    t = mk("sel", m, a, ty=ty)
    if attr == "$c" and m.op == "minit":
        set_elem_ty(t, a)
    elif attr == "$c":
        set_elem_ty(t, a)
    return t


def home(addr):
    if addr.op == "new":
        return addr.a[0]
    if addr.op == "own":
        return addr.a[0]
    return None


def set_elem_ty(t, a):
    h = home(a)
    if h is not None and h in CONTENT_TY:
        e = CONTENT_TY[h]
        TM.ELEM_TY[t] = e
        if isinstance(e, tuple) and e[0] == "ref" and t.op == "sel" and t.a[0].op == "minit":
            FAMILY.add(t)


def read_mbulk(m, a, pc):
    """value, (None, lower memory) when no layer applies, or None when undecided"""
    base, layers = m.a
    cands = []
    for l in layers:
        binders, cond, w, v = l
        r = match_addr(binders, w, a, pc, cond)
        if r is False:
            continue
        cands.append((l, r))
    if not cands:
        return (None, base)
    conds = []
    for (binders, cond, w, v), r in cands:
        if r is None:
            return None
        mp, inr = r
        cc = decide(and_(inr, subst(cond, mp)), pc)
        if cc is FALSE:
            continue
        conds.append((cc, subst(v, mp)))
    if not conds:
        return (None, base)
    for x in range(len(conds)):
        for y in range(x + 1, len(conds)):
            if and_(conds[x][0], conds[y][0]) is not FALSE:
                # several writers may hit the address: only fine when they store the same value
                if conds[x][1] is not conds[y][1]:
                    return None
    allc = or_(*[c for c, _ in conds])
    if decide(allc, pc) is TRUE:
        r = conds[-1][1]
        for c, v in conds[:-1]:
            r = ite(c, v, r)
        return r
    r = read(base, a, pc + (neg_b(allc),))
    for c, v in conds:
        r = ite(c, v, r)
    return r


def match_addr(binders, w, a, pc, cond):
    """solve w(binders) == a"""
    if w.op == "new" and a.op == "new":
        return TM.match_index(binders, w, a)
    if w.op == "own" and a.op == "own":
        if w.a[0] != a.a[0]:
            return False
        return match_addr(binders, w.a[1], a.a[1], pc, cond)
    if w.op == "elem" and a.op == "elem" and w.a[0] is a.a[0] and w.a[0] in FAMILY:
        r = TM.match_index(binders, w.a[1], a.a[1])
        if r is not None:
            return r
    # can they alias at all?
    c = alias(w, a)
    if c is FALSE:
        return False
    if and_(c, cond) is FALSE or decide(and_(c, cond), pc) is FALSE:
        return False
    for h in REWRITES:
        r = h("match", binders, w, a, pc, cond)
        if r is not None:
            return r
    if not any(has(w, b[0]) for b in binders):
        # address fixed: written by any iteration satisfying cond
        return None
    return None


def conflict(a, layer, info, pc):
    """may an earlier iteration of the loop have written address a through this layer?"""
    if _inconf.get(info.key, 0) >= 1:
        return True
    _inconf[info.key] = _inconf.get(info.key, 0) + 1
    try:
        return conflict_(a, layer, info, pc)
    finally:
        _inconf[info.key] -= 1


_inconf = {}


def conflict_(a, layer, info, pc):
    binders, cond, w, v = layer
    ix = info.ix
    mp = {}
    ix2 = mk("idx", ix.a[0] + "'", ty="int")
    RANGE[ix2] = (ZERO, sub(ix, ONE))
    mp[ix] = ix2
    for bx, bn in binders:
        b2 = mk("idx", bx.a[0] + "'", ty="int")
        RANGE[b2] = (ZERO, sub(subst(bn, mp), ONE) if bn is not INF else None)
        mp[bx] = b2
    for at in info.init:
        mp[mk("mth", at, info.key)] = mk("maft", at, info.key, ix2)
    w2 = subst(w, mp)
    c = alias(a, w2)
    if c is FALSE:
        return False
    c2 = and_(c, subst(cond, mp))
    if c2 is FALSE or decide(c2, pc) is FALSE:
        return False
    # two equations with a common side, one known, one of the earlier iteration: the difference must be possible
    known = [l.a[0] for p in pc for l in lits_of(p) if l.op == "eq0"]
    if known:
        for l in lits_of(c2):
            if l.op == "eq0":
                for k in known:
                    if TM.eq0(sub(l.a[0], k)) is FALSE or TM.eq0(TM.add(l.a[0], k)) is FALSE:
                        return False
    for h in REWRITES:
        r = h("conflict", a, w2, subst(cond, mp), info, mp, pc)
        if r is False:
            return False
    return True


CONS["sel"] = lambda m, a: read(m, a)
CONS["mite"] = mite
CONS["mupd"] = mupd
CONS["own"] = lambda h, a: mk("own", h, a, ty="list")


# ---------------------------------------------------------------- chains
def chain(m):
    out = [m]
    while m.op in ("mupd", "mbulk", "mite"):
        if m.op == "mite":
            m = common(m.a[1], m.a[2])
        else:
            m = m.a[0]
        out.append(m)
    return out


def common(a, b):
    sa = chain(a)
    sb = set(chain(b))
    for x in sa:
        if x in sb:
            return x
    return None


def layers_since(m, base):
    """layers written on top of base, oldest first: (binders, cond, addr, value)"""
    if m is base:
        return []
    if m.op == "mupd":
        r = layers_since(m.a[0], base)
        if r is None:
            return None
        v = m.a[2]
        if v.op == "ite":
            # one side keeps what was there: a conditional write
            old = read(m.a[0], m.a[1])
            if v.a[2] is old or v.a[2] is assume(old, [neg_b(v.a[0])]):
                return r + [((), v.a[0], m.a[1], v.a[1])]
            if v.a[1] is old or v.a[1] is assume(old, lits_of(v.a[0])):
                return r + [((), neg_b(v.a[0]), m.a[1], v.a[2])]
        return r + [((), TRUE, m.a[1], v)]
    if m.op == "mbulk":
        r = layers_since(m.a[0], base)
        return None if r is None else r + list(m.a[1])
    if m.op == "mite":
        d = common(m.a[1], m.a[2])
        if d is None:
            return None
        c = m.a[0]
        r = layers_since(d, base)
        x = layers_since(m.a[1], d)
        y = layers_since(m.a[2], d)
        if r is None or x is None or y is None:
            return None
        r = list(r)
        # the same address written on both sides: one layer with a conditional value
        used = set()
        for (b, cc, w, v) in x:
            mate = None
            for j, (b2, cc2, w2, v2) in enumerate(y):
                if j not in used and not b and not b2 and w is w2 and cc is TRUE and cc2 is TRUE:
                    mate = j
                    break
            if mate is not None:
                used.add(mate)
                r.append(((), TRUE, w, ite(c, v, y[mate][3])))
            else:
                r.append((b, and_(c, cc), w, assume(v, lits_of(c))))
        for j, (b, cc, w, v) in enumerate(y):
            if j not in used:
                r.append((b, and_(neg_b(c), cc), w, assume(v, [neg_b(c)])))
        return r
    return None
