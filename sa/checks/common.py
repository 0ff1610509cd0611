"""helpers shared by the checks"""
import ast
from ..model import *
from ..model import NODE
from ..loader import Missing, Unsupported
from ..interp import St, is_static
from .. import heap as H
from .. import terms as TM


def site_syms():
    r = sym("row", "int", lo=ZERO, hi=sub(L, ONE))
    c = sym("col", "int", lo=ZERO, hi=sub(L, ONE))
    return r, c, add(mul(L, r), c)


class Probe:
    """calls methods of abstract objects in (a copy of) a given state"""

    def __init__(self, reg, st):
        self.reg = reg
        self.st = st.copy()
        self.ip = reg.interp()

    def attr(self, o, name):
        v = self.ip.get(self.st, o, name)
        if v is UNDEF:
            raise Missing("attribute %s" % name)
        return v

    def call(self, o, name, *args, **kw):
        c = cls_of(o)
        if not isinstance(c, Class):
            raise Unsupported("object of unknown class for %s()" % name, None, show(o)[:80])
        f = c.find(name)
        if f is None:
            raise Missing("%s.%s" % (c.name, name))
        return self.ip.call_func(f, [o] + list(args), kw, fresh_node(), self.st)

    def items(self, v):
        """content of a list / tuple value as a sequence term"""
        if v.op in ("seq", "cat", "map", "fmap", "range"):
            return v
        if v.op == "ite":
            return ite(v.a[0], self.items(v.a[1]), self.items(v.a[2]))
        c = cls_of(v)
        if c in ("list", "set", "dict"):
            return self.ip.get(self.st, v, "$c")
        return v

    def made(self, mod, name, *args, **kw):
        return self.ip.instantiate(self.reg.p.get_class(mod, name), list(args), kw, fresh_node(), self.st)


_KEEP = []


def fresh_node():
    n = ast.parse("0").body[0]
    _KEEP.append(n)      # labels are keyed by node identity
    return n


def as_list(t):
    """elements of a sequence of known length, or None"""
    n = length(t)
    if not (is_num(n) and 0 <= n.a[0] <= 8):
        return None
    return [elem(t, C(i)) for i in range(n.a[0])]


def sh(x, n=160):
    if x is None:
        return "None"
    s = show(x) if isinstance(x, T) else str(x)
    return s if len(s) <= n else s[:n] + "..."


def other_events(ip, kinds=("badcall", "missing", "noreturn", "nonterm")):
    return [e for e in ip.events if e.kind in kinds]


def implied(facts, goal, depth=10):
    """goal follows from the conjunction of facts: propositional case analysis over the atoms, each case simplified"""
    f = and_(*facts)
    if f is FALSE:
        return True
    g = TM.assume(goal, (f,)) if f is not TRUE else goal
    if g is TRUE:
        return True
    if depth == 0:
        return False
    at = None
    for t in (g, f):
        for x in TM.subterms(t):
            if x.ty == "bool" and x.op not in ("and", "or", "not", "ite", "c") and not TM.loose(x):
                if TM.assume(t, (x,)) is not t:
                    at = x
                    break
        if at is not None:
            break
    if at is None:
        return False
    for lit in (at, neg_b(at)):
        ff = and_(*[TM.assume(x, (lit,)) for x in facts])
        if ff is FALSE:
            continue
        if not implied([ff, lit] if ff is not TRUE else [lit], TM.assume(goal, (lit,)), depth - 1):
            return False
    return True


def replaced(lits, *ts):
    """the terms with the equalities among the literals used as replacements (one atom of each by the rest of it)"""
    mp = {}
    for l in lits:
        if l.op != "eq0":
            continue
        p = TM.to_poly(l.a[0])
        if mp:
            p = TM.to_poly(TM.subst(l.a[0], mp))
        for m, c in sorted(p.items(), key=lambda mc: -max([a.id for a, _ in mc[0]], default=-1)):
            if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and m[0][0] is not L:
                at = m[0][0]
                rest = sub(l.a[0] if not mp else TM.subst(l.a[0], mp), TM.scale(at, c))
                if at in set(TM.subterms(rest)):
                    continue
                val = TM.scale(rest, -c)
                mp = {k: TM.subst(v, {at: val}) for k, v in mp.items()}
                mp[at] = val
                break
    return [TM.subst(t, mp) for t in ts] if mp else list(ts)


def equal_under(facts, x, y, depth=8):
    """x and y are the same value whenever the facts hold: case analysis over the conditions inside them"""
    f = and_(*facts)
    if f is FALSE:
        return True
    lits = TM.lits_of(f)
    x, y = TM.assume(x, lits), TM.assume(y, lits)
    if x is y:
        return True
    a, b = replaced(lits, x, y)
    if a is b:
        return True
    if depth == 0:
        return False
    for t in (x, y, f):
        for c in TM.subterms(t):
            if c.ty == "bool" and c.op not in ("and", "or", "not", "ite", "c") and not TM.loose(c) and c not in lits and neg_b(c) not in lits:
                if any(TM.assume(z, (l,)) is not z for z in (x, y, f) for l in (c, neg_b(c))):
                    return all(equal_under([TM.assume(f, (l,)), l], x, y, depth - 1) for l in (c, neg_b(c)))
    return False


def quantified(t):
    """comparisons with the largest / smallest item of a (nonempty) sequence as quantified comparisons of its items"""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            r = memo[x] = one(x)
        return r

    def one(x):
        if x.op == "le0":
            p = x.a[0]
            for m, c in TM.to_poly(p).items():
                if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "best" and m[0][0].a[2] in (NONE, None):
                    b = m[0][0]
                    s = b.a[1]
                    i = tmpidx(length(s))
                    q = go(le0(add(sub(p, TM.scale(b, c)), TM.scale(elem(s, i), c))))
                    n = length(s)
                    if (c > 0) == (b.a[0] == "max"):
                        return neg_b(exists(n, i, neg_b(q)))
                    return exists(n, i, q)
        return TM.rebuild(x, go)
    return go(t)
