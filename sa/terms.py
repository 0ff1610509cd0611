"""Hash-consed value terms with normalising constructors (global value numbering domain).

Everything the analyser knows about a run-time value is one interned term; two program
expressions are considered equal when their normal forms are the same object.
"""
import time
from math import gcd
from fractions import Fraction

_TAB = {}


def isn(v):
    """exact number (integers are int, other rationals Fraction; never bool)"""
    return type(v) is int or type(v) is Fraction


def Q(v):
    return v.numerator if type(v) is Fraction and v.denominator == 1 else v


def qdiv(a, b):
    if type(a) is int and type(b) is int and a % b == 0:
        return a // b
    return Q(Fraction(a) / b)


class T:
    __slots__ = ("op", "a", "id", "_h", "_fr", "ty", "__weakref__")

    def __hash__(self):
        return self.id

    def __repr__(self):
        return show(self)


class Budget(BaseException):
    """the normal forms of an object class grew beyond the budget of the analysis"""


TERM_LIMIT = 4000000
TIME_LIMIT = 600
_t0 = [time.monotonic()]
_n0 = [0]


def restart_budget():
    _t0[0], _n0[0] = time.monotonic(), len(_TAB)


def over_budget():
    raise Budget("%d terms in %d s" % (len(_TAB) - _n0[0], time.monotonic() - _t0[0]))


def mk(op, *a, ty=None):
    key = (op,) + a
    for x in a:
        if type(x) is bool or type(x) is float:
            key = (op,) + tuple((type(x).__name__, x) if not isinstance(x, T) else x for x in a)
            break
    t = _TAB.get(key)
    if t is None:
        t = T()
        n = len(_TAB)
        t.op, t.a, t.id = op, a, n
        if n & 1023 == 0 and (n - _n0[0] > TERM_LIMIT or time.monotonic() - _t0[0] > TIME_LIMIT):
            over_budget()
        t._h = t._fr = None
        t.ty = ty
        _TAB[key] = t
    elif ty is not None and t.ty is None:
        t.ty = ty
    return t


# ---------------------------------------------------------------- constants / symbols
def C(v):
    if isinstance(v, bool):
        return mk("c", v, ty="bool")
    if isinstance(v, int):
        return mk("c", int(v), ty="int")
    if isinstance(v, float):
        if v != v or abs(v) > 1e300:
            return mk("c", str(v), "float", ty="float")
        v = Fraction(str(v))
    if isinstance(v, Fraction):
        return mk("c", Q(v), ty="int" if v.denominator == 1 else "float")
    if v is None:
        return mk("c", None, ty="none")
    if isinstance(v, str):
        return mk("c", v, ty="str")
    return mk("c", v, ty=type(v).__name__)


TRUE, FALSE, NONE = C(True), C(False), C(None)
ZERO, ONE = C(0), C(1)
INF = mk("inf", ty="int")
UNDEF = mk("undef", ty="undef")

RANGE = {}          # atom -> (lo term or None, hi term or None)
RANGE_HOOKS = []    # f(atom) -> (lo, hi) or None
_fresh = [0]


def sym(name, ty=None, lo=None, hi=None):
    t = mk("sym", name, ty=ty)
    if lo is not None or hi is not None:
        RANGE[t] = (num(lo) if lo is not None else None, num(hi) if hi is not None else None)
    return t


def idx(name, n):
    """loop index in [0,n)"""
    t = mk("idx", name, ty="int")
    RANGE[t] = (ZERO, sub(n, ONE) if n is not INF else None)
    return t


def tmpidx(n=None):
    _fresh[0] += 1
    t = mk("idx", "~%d" % _fresh[0], ty="int")
    RANGE[t] = (ZERO, sub(n, ONE) if n is not None and n is not INF else None)
    return t


def num(v):
    return v if isinstance(v, T) else C(v)


def is_c(t):
    return t.op == "c"


def is_num(t):
    return t.op == "c" and isn(t.a[0])


def cval(t):
    v = t.a[0]
    return v


NUMERIC_OPS = {"poly", "len", "div", "mod", "abs", "min", "max", "sum", "sumset", "idx", "inv", "first",
               "int", "log", "powf", "round", "randint", "count"}


def is_numeric(t):
    if t.op == "c":
        return (isn(t.a[0]) or isinstance(t.a[0], bool))
    if t.op == "ite":
        return is_numeric(t.a[1]) and is_numeric(t.a[2])
    return t.op in NUMERIC_OPS or t.ty in ("int", "float", "num", "bool")


def is_int(t):
    op = t.op
    if op == "c":
        return isinstance(t.a[0], int)
    if op == "poly":
        return all(c.denominator == 1 and all(p > 0 and is_int(at) for at, p in m) for m, c in t.a[0])
    if op in ("idx", "len", "div", "mod", "first", "int", "randint", "count"):
        return op not in ("div", "mod") or (is_int(t.a[0]) and is_int(t.a[1]))
    if op == "abs":
        return is_int(t.a[0])
    if op in ("min", "max"):
        return all(is_int(x) for x in t.a)
    if op == "ite":
        return is_int(t.a[1]) and is_int(t.a[2])
    if op == "sum":
        return is_int(t.a[1])
    if op == "sumset":
        return is_int(t.a[1])
    return t.ty in ("int", "bool")


# ---------------------------------------------------------------- polynomials
def to_poly(t):
    if t.op == "c":
        v = t.a[0]
        if isinstance(v, bool):
            v = int(v)
        if not isn(v):
            return {((t, 1),): 1}
        return {(): v} if v else {}
    if t.op == "poly":
        return dict(t.a[0])
    return {((t, 1),): 1}


def _mono_mul(m1, m2):
    d = {}
    for at, p in m1 + m2:
        d[at] = d.get(at, 0) + p
    return tuple(sorted(((at, p) for at, p in d.items() if p), key=lambda x: x[0].id))


def _pkey(kv):
    return tuple([(at.id, p) for at, p in kv[0]])


def from_poly(d):
    d = {m: (c if type(c) is int else Q(c)) for m, c in d.items() if c}
    if len(d) > 1:
        for m in d:
            if any([at.op == "mod" for at, _ in m]):
                d = _join_divmod(d)
                break
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return C(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
        return mk("poly", ((m, c),))
    return mk("poly", tuple(sorted(d.items(), key=_pkey)))


def _join_divmod(d):
    """b*div(x,b)*c + mod(x,b)*c -> x*c"""
    changed = True
    while changed:
        changed = False
        for m, c in list(d.items()):
            for at, p in m:
                if at.op == "mod" and p == 1:
                    x, b = at.a
                    rest = tuple(z for z in m if z[0] is not at)
                    dv = div_raw(x, b)
                    want = pmul(pmul({rest: c}, to_poly(b)), to_poly(dv))
                    if len(want) >= 1 and all(d.get(k) == v for k, v in want.items()):
                        for k in want:
                            del d[k]
                        del d[m]
                        for k, v in pmul({rest: c}, to_poly(x)).items():
                            d[k] = d.get(k, 0) + v
                            if not d[k]:
                                del d[k]
                        changed = True
                        break
            if changed:
                break
    return d


def pmul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mono_mul(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    return {m: c for m, c in r.items() if c}


def _lift(f, *args):
    """push an arithmetic operator inside the branches of an ite operand"""
    for i, t in enumerate(args):
        if t.op == "ite":
            c, x, y = t.a
            return ite(c, f(*args[:i], x, *args[i + 1:]), f(*args[:i], y, *args[i + 1:]))
    return None


def add(*ts):
    if any(t is INF for t in ts):
        return INF
    r = _lift(add, *ts)
    if r is not None:
        return r
    r = _memo.get(ts)
    if r is not None:
        return r
    d = {}
    for t in ts:
        for m, c in to_poly(t).items():
            d[m] = d.get(m, 0) + c
    r = from_poly(d)
    _memo[ts] = r
    return r


_memo = {}


def scale(t, k):
    r = _lift(lambda x: scale(x, k), t)
    if r is not None:
        return r
    key = (t, k)
    r = _memo.get(key)
    if r is None:
        r = from_poly({m: c * k for m, c in to_poly(t).items()})
        _memo[key] = r
    return r


def neg(t):
    return scale(t, -1)


def sub(a, b):
    if a is INF:
        return INF
    return add(a, neg(b))


def mul(a, b):
    r = _lift(mul, a, b)
    if r is not None:
        return r
    key = ("*", a, b)
    r = _memo.get(key)
    if r is None:
        r = from_poly(pmul(to_poly(a), to_poly(b)))
        _memo[key] = r
    return r


def powt(a, n):
    if is_num(n) and n.a[0].denominator == 1:
        k = int(n.a[0])
        if 0 <= k <= 8:
            r = ONE
            for _ in range(k):
                r = mul(r, a)
            return r
        if k < 0:
            return tdiv(ONE, powt(a, C(-k)))
    r = _lift(powt, a, n)
    return r if r is not None else mk("powf", a, n)


def tdiv(a, b):
    r = _lift(tdiv, a, b)
    if r is not None:
        return r
    pb = to_poly(b)
    if len(pb) == 1:
        (m, c), = pb.items()
        inv = {tuple((at, -p) for at, p in m): qdiv(1, c)}
        return from_poly(pmul(to_poly(a), inv))
    if a is b:
        return ONE
    return mul(a, mk("inv", b))


def _divisible(m, bm):
    d = dict(m)
    for at, p in bm:
        if d.get(at, 0) < p:
            return None
        d[at] -= p
    return tuple(sorted(((at, p) for at, p in d.items() if p), key=lambda x: x[0].id))


def _split(a, b):
    """a = b*q + r with r free of monomials divisible by the (monomial) b"""
    pb = to_poly(b)
    if len(pb) != 1:
        # exact multiple?
        pa = to_poly(a)
        if pb and pa:
            m0 = max(pb, key=lambda m: (sum(p for _, p in m), tuple((x.id, p) for x, p in m)))
            if m0 in pa:
                k = qdiv(pa[m0], pb[m0])
                if all(pa.get(m) == k * c for m, c in pb.items()) and len(pa) == len(pb) and k.denominator == 1:
                    return C(k), ZERO
        return ZERO, a
    (bm, bc), = pb.items()
    q, r = {}, {}
    for m, c in to_poly(a).items():
        mm = _divisible(m, bm)
        if mm is not None and all(is_int(at) and p > 0 for at, p in mm):
            k = qdiv(c, bc)
            fl = k.numerator // k.denominator
            if k.denominator == 1:
                q[mm] = q.get(mm, 0) + k
                continue
            if mm == ():
                if fl:
                    q[mm] = q.get(mm, 0) + fl
                if k - fl:
                    r[m] = r.get(m, 0) + (k - fl) * bc
                continue
        r[m] = r.get(m, 0) + c
    return from_poly(q), from_poly(r)


def _common_factor(a, b):
    """largest monomial atom f (power 1) dividing b; split a = f*x + y with 0<=y<f"""
    pb = to_poly(b)
    if len(pb) != 1:
        return None
    (bm, bc), = pb.items()
    for at, p in bm:
        if p >= 1 and (len(bm) > 1 or p > 1 or bc > 1):
            x, y = _split(a, at)
            if x is not ZERO and nonneg(y) and nonneg(sub(sub(at, y), ONE)):
                return at, x, y, tdiv(b, at)
    if bc > 1 and bm:
        f = C(bc)
        x, y = _split(a, f)
        if x is not ZERO and nonneg(y) and nonneg(sub(sub(f, y), ONE)):
            return f, x, y, tdiv(b, f)
    return None


def div_raw(a, b):
    return mk("div", a, b)


def fdiv(a, b):
    r = _lift(fdiv, a, b)
    if r is not None:
        return r
    if is_num(a) and is_num(b) and b.a[0]:
        return C(a.a[0] // b.a[0])
    if b is ONE:
        return a if is_int(a) else mk("div", a, b)
    q, rr = _split(a, b)
    if rr is ZERO:
        return q
    if positive(b):
        if nonneg(rr) and nonneg(sub(sub(b, rr), ONE)):
            return q
        if nonneg(sub(neg(rr), ONE)) and nonneg(add(b, rr)):
            return sub(q, ONE)
        cf = _common_factor(rr, b)
        if cf:
            return add(q, fdiv(cf[1], cf[3]))
        return add(q, div_raw(rr, b))
    return mk("div", a, b)


def mod(a, b):
    r = _lift(mod, a, b)
    if r is not None:
        return r
    if is_num(a) and is_num(b) and b.a[0]:
        q = a.a[0] // b.a[0]
        return C(a.a[0] - q * b.a[0])
    q, rr = _split(a, b)
    if rr is ZERO:
        return ZERO
    if positive(b):
        if nonneg(rr) and nonneg(sub(sub(b, rr), ONE)):
            return rr
        if nonneg(sub(neg(rr), ONE)) and nonneg(add(b, rr)):
            return add(b, rr)
        cf = _common_factor(rr, b)
        if cf:
            return add(mul(cf[0], mod(cf[1], cf[3])), cf[2])
        # mod(mod(x,b)+c, b)
        d = to_poly(rr)
        for m, c in list(d.items()):
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "mod" and m[0][0].a[1] is b and c.denominator == 1:
                rest = dict(d)
                del rest[m]
                return mod(add(scale(m[0][0].a[0], c), from_poly(rest)), b)
        return mk("mod", rr, b)
    return mk("mod", a, b)


def absn(a):
    r = _lift(absn, a)
    if r is not None:
        return r
    if nonneg(a):
        return a
    if nonneg(neg(a)):
        return neg(a)
    n = neg(a)
    return mk("abs", a if _lead(a) > 0 else n)


def _lead(a):
    p = to_poly(a)
    m = max(p, key=lambda m: tuple((x.id, q) for x, q in m))
    return p[m]


def minmax(op, args):
    if op == "max" and len(args) == 2:
        # max(a, b) with an ite operand
        r = _lift(lambda *z: minmax(op, list(z)), *args)
        if r is not None:
            return r
    out = []
    for x in args:
        if x.op == op:
            out += list(x.a)
        else:
            out.append(x)
    keep = []
    out = list(dict.fromkeys(out))
    for i, x in enumerate(out):
        dom = False
        for j, y in enumerate(out):
            if i == j:
                continue
            d = sub(y, x) if op == "max" else sub(x, y)
            if nonneg(d) and not (d is ZERO and j > i):
                dom = True
                break
        if not dom:
            keep.append(x)
    if len(keep) == 1:
        return keep[0]
    return mk(op, *sorted(keep, key=lambda t: t.id))


# ---------------------------------------------------------------- ranges
def range_of(at):
    if at in RANGE:
        return RANGE[at]
    op = at.op
    if op == "mod" and positive(at.a[1]):
        return (ZERO, sub(at.a[1], ONE))
    if op == "div" and positive(at.a[1]) and nonneg(at.a[0]):
        hi = None
        if at.a[0] in RANGE and RANGE[at.a[0]][1] is not None:
            hi = fdiv(RANGE[at.a[0]][1], at.a[1])
        return (ZERO, hi)
    if op == "len":
        s = at.a[0]
        for h in RANGE_HOOKS:
            r = h(at)
            if r:
                return r
        return (ZERO, None)
    if op in ("abs", "count", "first"):
        hi = None
        if op == "first" and at.a[0] is not INF:
            hi = at.a[0]
        return (ZERO, hi)
    if op == "sum":
        if nonneg(at.a[1]):
            return (ZERO, None)
    if op == "randint":
        return (at.a[0], at.a[1])
    if op == "min":
        # upper bound: any argument
        return (None, at.a[0])
    if op == "max":
        return (at.a[0], None)
    for h in RANGE_HOOKS:
        r = h(at)
        if r:
            return r
    return (None, None)


_nn_memo = {}
_nn_depth = [0, 0]   # current depth, how often it was cut off


def positive(t):
    return nonneg(sub(t, ONE)) if is_int(t) else False


def nonneg(t):
    """sound, incomplete proof of t >= 0"""
    if t.op == "c":
        v = t.a[0]
        return (isn(v) or isinstance(v, bool)) and v >= 0
    if t is INF:
        return True
    if t.op == "ite":
        return nonneg(t.a[1]) and nonneg(t.a[2])
    r = _nn_memo.get(t)
    if r is not None:
        return r
    if _nn_depth[0] > 14:
        _nn_depth[1] += 1
        return False
    _nn_depth[0] += 1
    cut = _nn_depth[1]
    try:
        r = _nonneg(t)
    finally:
        _nn_depth[0] -= 1
    if r or _nn_depth[0] == 0 or _nn_depth[1] == cut:
        _nn_memo[t] = r
    return r


def _nonneg(t):
    p = to_poly(t)
    if len(p) == 1 and all(c > 0 for c in p.values()) is False and () in p:
        return False
    # all monomials are obviously >= 0 ?
    ok = True
    for m, c in p.items():
        if c < 0:
            ok = False
            break
        for at, pw in m:
            if pw % 2 and not _atom_nonneg(at):
                ok = False
                break
        if not ok:
            break
    if ok:
        return True
    # eliminate ranged atoms that occur linearly
    atoms = sorted({at for m in p for at, _ in m}, key=_rank, reverse=True)
    for at in atoms:
        lo, hi = range_of(at)
        if lo is None and hi is None and at.op not in ("min", "max"):
            continue
        lin = {}
        rest = {}
        good = True
        for m, c in p.items():
            pw = dict(m).get(at, 0)
            if pw == 0:
                rest[m] = c
            elif pw == 1:
                lin[tuple(z for z in m if z[0] is not at)] = c
            else:
                good = False
                break
        if not good:
            if lo is not None and is_num(lo) and lo.a[0] != 0 and all(dict(m).get(at, 0) >= 0 for m in p):
                # substitute at = lo + t, t >= 0
                t2 = mk("sym", "+" + str(at.id), ty="int")
                RANGE[t2] = (ZERO, None)
                q = subst(t, {at: add(lo, t2)})
                if q is not t and nonneg(q):
                    return True
            continue
        coef = from_poly(lin)
        r = from_poly(rest)
        if at.op in ("min", "max"):
            up = nonneg(coef)
            if up or nonneg(neg(coef)):
                return (all if up == (at.op == "min") else any)(nonneg(add(r, mul(coef, x))) for x in at.a)
            continue
        if lo is not None and nonneg(coef):
            if lo is at:
                continue
            return nonneg(add(r, mul(coef, lo)))
        if hi is not None and nonneg(neg(coef)):
            return nonneg(add(r, mul(coef, hi)))
        if lo is not None and is_num(lo) and lo.a[0] != 0:
            t2 = mk("sym", "+" + str(at.id), ty="int")
            RANGE[t2] = (ZERO, None)
            q = subst(t, {at: add(lo, t2)})
            if q is not t and nonneg(q):
                return True
    return False


def _rank(at):
    # eliminate atoms whose bounds mention others before those others
    if at.op == "sym":
        d = 0
        for b in RANGE.get(at, ()):
            if b is not None and b.op != "c":
                d = max([d] + [1 + _rank(x)[0] for x in free_atoms(b) if x is not at])
        return (d, at.id)
    return (1000000 + at.id, at.id)


def _atom_nonneg(at):
    if at.op in ("min", "max"):
        return (all if at.op == "min" else any)(nonneg(x) for x in at.a)
    lo, _ = range_of(at)
    return lo is not None and lo is not at and nonneg(lo)


# ---------------------------------------------------------------- booleans
def cleared(p):
    """a positive multiple of p without denominators and without a common positive factor"""
    if p.op != "poly":
        return p
    d = to_poly(p)
    low = []
    for at in {at for m in d for at, e in m}:
        lo = min(dict(m).get(at, 0) for m in d)
        if lo and positive(at):
            low.append((at, -lo))
    if low:
        k = tuple(sorted(low, key=lambda x: x[0].id))
        d = {_mono_mul(m, k): c for m, c in d.items()}
    den = 1
    for c in d.values():
        if type(c) is not int:
            den = den * c.denominator // gcd(den, c.denominator)
    if low or den != 1:
        p = from_poly({m: c * den for m, c in d.items()})
    return p


def le0(p):
    k = p
    r = _MEMO_le0.get(k)
    if r is None:
        r = _MEMO_le0[k] = _le0_(p)
    return r


_MEMO_le0 = {}


def _le0_(p):
    if p is INF:
        return FALSE
    r = _lift(le0, p)
    if r is not None:
        return r
    if nonneg(neg(p)):
        return TRUE
    p = cleared(p)
    r = _split_extremum(p)
    if r is not None:
        return r
    if is_int(p):
        if nonneg(sub(p, ONE)):
            return FALSE
        # divide by the content
        d = to_poly(p)
        g = 0
        for m, c in d.items():
            if m != ():
                g = gcd(g, abs(c.numerator))
        if g > 1:
            d2 = {m: c // g for m, c in d.items() if m != ()}
            c0 = d.get((), 0)
            k = -((-c0) // g)  # ceil(c0/g)
            if k:
                d2[()] = k
            p = from_poly(d2)
        r = _leading_digit(p)
        if r is not None:
            return r
        return mk("le0", p, ty="bool")
    return mk("le0", p, ty="bool")


def _leading_digit(p):
    """b*q + r < 0 with 0 <= r < b depends on q alone"""
    if p.op != "poly":
        return None
    d = to_poly(p)
    for mon in d:
        if sum(e for _, e in mon) < 2 or len(mon) < 2:
            continue
        for b, _ in mon:
            if not (b.op == "sym" and positive(b)):
                continue
            q, r = _split(sub(p, ONE), b)
            if not q.a or is_num(q) or not is_int(q):
                continue
            if nonneg(r) and nonneg(sub(sub(b, r), ONE)):
                return le0(add(q, ONE))
            if nonneg(sub(neg(r), ONE)) and nonneg(add(b, r)):
                return le0(q)
    return None


def _split_extremum(p):
    """p <= 0 where p has a summand c*|x|, c*max(..) or c*min(..): the conjunction or disjunction over the alternatives"""
    if p.op != "poly" and p.op not in ("abs", "max", "min"):
        return None
    for m, c in to_poly(p).items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ("abs", "max", "min"):
            x = m[0][0]
            rest = sub(p, mul(num(c), x))
            alts = [x.a[0], neg(x.a[0])] if x.op == "abs" else list(x.a)
            parts = [le0(add(rest, mul(num(c), a))) for a in alts]
            return and_(*parts) if (c > 0) == (x.op != "min") else or_(*parts)
    return None


def lt0(p):
    """p < 0 (real valued unless integer)"""
    r = _lift(lt0, p)
    if r is not None:
        return r
    if is_int(p):
        return le0(add(p, ONE))
    if is_num(p):
        return TRUE if p.a[0] < 0 else FALSE
    return neg_b(le0(neg(p)))


def le(a, b):
    if b is INF:
        return TRUE
    if a is INF:
        return FALSE
    return le0(sub(a, b))


def lt(a, b):
    if b is INF:
        return TRUE
    if a is INF:
        return FALSE
    return lt0(sub(a, b))


DISJOINT_HOOK = [None]   # f(a,b) -> bool term or None for references


REPEAT_HOOKS = []


def no_repeats(s):
    if any(h(s) for h in REPEAT_HOOKS):
        return True
    return s.op == "distinct" or s.op == "aslist" and s.a[0].op == "setof"


def eq(a, b):
    if a is b:
        return TRUE
    r = _lift(eq, a, b)
    if r is not None:
        return r
    if a.op == "c" and b.op == "c":
        av, bv = a.a[0], b.a[0]
        if isinstance(av, (int, Fraction)) and isinstance(bv, (int, Fraction)):
            return C(av == bv)
        return C(type(av) == type(bv) and av == bv)
    if a is NONE or b is NONE:
        o = b if a is NONE else a
        if not maybe_none(o):
            return FALSE
        return mk("eq", *sorted((a, b), key=lambda t: t.id), ty="bool")
    if a.ty == "bool" and b.op == "c" and isinstance(b.a[0], bool):
        return a if b.a[0] else neg_b(a)
    if b.ty == "bool" and a.op == "c" and isinstance(a.a[0], bool):
        return b if a.a[0] else neg_b(b)
    if is_numeric(a) and is_numeric(b):
        if a.op == "elem" and b.op == "elem" and a.a[0] is b.a[0] and no_repeats(a.a[0]):
            return eq(a.a[1], b.a[1])
        return eq0(sub(a, b))
    if DISJOINT_HOOK[0]:
        r = DISJOINT_HOOK[0](a, b)
        if r is not None:
            return r
    if a.op == "tuple" and b.op == "tuple":
        if len(a.a) != len(b.a):
            return FALSE
        return and_(*[eq(x, y) for x, y in zip(a.a, b.a)])
    if a.op == "setof" and b.op == "setof":
        for x, y in ((a.a[0], b.a[0]), (b.a[0], a.a[0])):
            if x.op == "map" and y.op == "seq" and len(y.a) == 1 and nonneg(sub(x.a[0], ONE)):
                # the set of the entries has one given member: all entries are equal to it
                j = tmpidx(x.a[0])
                return neg_b(exists(x.a[0], j, neg_b(eq(elem(x, j), y.a[0]))))
    return mk("eq", *sorted((a, b), key=lambda t: t.id), ty="bool")


def eq0(p):
    if p is ZERO:
        return TRUE
    if is_num(p):
        return C(p.a[0] == 0)
    p = cleared(p)
    if is_num(p):
        return C(p.a[0] == 0)
    if is_int(p):
        if nonneg(sub(p, ONE)) or nonneg(sub(neg(p), ONE)):
            return FALSE
        if _mod_nonzero(p):
            return FALSE
        r = _digits_zero(p)
        if r is not None:
            return r
    q = to_poly(p)
    if len(q) == 2:
        (m1, c1), (m2, c2) = q.items()
        if c1 == -c2 and len(m1) == 1 and len(m2) == 1 and m1[0][1] == 1 and m2[0][1] == 1:
            x, y = m1[0][0], m2[0][0]
            if x.op == "elem" and y.op == "elem" and x.a[0] is y.a[0] and no_repeats(x.a[0]):
                return eq(x.a[1], y.a[1])
    if len(q) in (1, 2):
        r = _all_counted(p, q)
        if r is not None:
            return r
    if _lead(p) < 0:
        p = neg(p)
    return mk("eq0", p, ty="bool")


def _all_counted(p, q):
    """the number of places in [0, n) with a condition is n: there is none without it; is 0: there is none with it"""
    for m, c in q.items():
        x = m[0][0] if len(m) == 1 and m[0][1] == 1 else None
        if x is None or x.op != "sum" or abs(c) != 1:
            continue
        n = x.a[0]
        rest = scale(sub(p, scale(x, c)), -c)        # x == rest
        if rest is not ZERO and rest is not n:
            continue
        j = tmpidx(n)
        b, = opened(x, j)
        if b.op != "ite" or not is_num(b.a[1]) or not is_num(b.a[2]) or {int(b.a[1].a[0]), int(b.a[2].a[0])} != {0, 1}:
            continue
        cond = b.a[0] if b.a[1] is ONE else neg_b(b.a[0])
        return neg_b(exists(n, j, cond if rest is ZERO else neg_b(cond)))
    return None


def _digits_zero(p):
    """b*q + r == 0 with |r| < b: both are zero"""
    if p.op != "poly":
        return None
    for mon in to_poly(p):
        if len(mon) < 2:
            continue
        for b, _ in mon:
            if not (b.op == "sym" and positive(b)):
                continue
            q, r = _split(p, b)
            if is_num(q) or r is ZERO or not is_int(q):
                continue
            if nonneg(sub(sub(b, r), ONE)) and nonneg(sub(add(b, r), ONE)):
                return and_(eq0(r), eq0(q))
    return None


def _mod_nonzero(p):
    """p contains mod(x, n) linearly; p is congruent to p[mod(x,n) := x] modulo n, so a residue strictly between -n and n
    other than zero rules out p == 0"""
    d = to_poly(p)
    for m, c in d.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "mod" and c in (1, -1):
            at = m[0][0]
            x, n = at.a
            q = add(sub(p, scale(at, c) if c != 1 else at), scale(x, c) if c != 1 else x)
            if (nonneg(sub(q, ONE)) or nonneg(sub(neg(q), ONE))) and nonneg(sub(sub(n, q), ONE)) and nonneg(sub(add(n, q), ONE)):
                return True
    return False


NONEABLE = {}       # term -> bool override


def maybe_none(t):
    if t.op == "c":
        return t.a[0] is None
    if t.op == "ite":
        return maybe_none(t.a[1]) or maybe_none(t.a[2])
    if t.op in ("undef",):
        return True
    if t.ty is not None:
        if isinstance(t.ty, tuple):
            return t.ty[0] == "opt"
        return t.ty in ("any", "none")
    return t.op in ("sym", "elem", "sel", "res", "attr", "opaque", "fold", "get", "th", "fv", "foldv", "loopval", "hv")


def neg_b(t):
    k = t
    r = _MEMO_neg_b.get(k)
    if r is None:
        r = _MEMO_neg_b[k] = _neg_b_(t)
    return r


_MEMO_neg_b = {}


def _neg_b_(t):
    op = t.op
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if op == "not":
        return t.a[0]
    if op == "and":
        return or_(*[neg_b(x) for x in t.a])
    if op == "or":
        return and_(*[neg_b(x) for x in t.a])
    if op == "le0" and is_int(t.a[0]):
        return le0(sub(ONE, t.a[0]))
    if op == "ite":
        return ite(t.a[0], neg_b(t.a[1]), neg_b(t.a[2]))
    return mk("not", t, ty="bool")


def and_(*ts):
    k = ts
    r = _MEMO_and_.get(k)
    if r is None:
        r = _MEMO_and_[k] = _and__(*ts)
    return r


_MEMO_and_ = {}


def _and__(*ts):
    out = []
    st = list(ts)
    while st:
        x = st.pop(0)
        if x is TRUE:
            continue
        if x is FALSE:
            return FALSE
        if x.op == "and":
            st = list(x.a) + st
        elif x.op == "ite" and x.ty == "bool" or x.op == "ite":
            out.append(ite_bool(x))
            if out[-1].op == "and":
                st = list(out.pop().a) + st
        else:
            out.append(x)
    out = list(dict.fromkeys(out))
    lits = set(out)
    for x in out:
        if neg_b(x) in lits:
            return FALSE
    # unit propagation into disjunctions
    res = []
    for x in out:
        if x.op == "or":
            parts = []
            sat = False
            for y in x.a:
                if y in lits:
                    sat = True
                    break
                if neg_b(y) in lits or any(contradict(z, y) for z in out if z.op != "or"):
                    continue
                parts.append(y)
            if sat:
                continue
            if len(parts) != len(x.a):
                return and_(*[z for z in out if z is not x], or_(*parts))
        res.append(x)
    # numeric subsumption / contradiction
    nums = [x for x in res if x.op in ("le0", "eq0")]
    drop = set()
    for i, x in enumerate(nums):
        for y in nums[:i]:
            if contradict(x, y):
                return FALSE
        for y in nums:
            if y is x or y in drop:
                continue
            if x.op == "le0" and implies1(y, x) and x not in drop:
                if not (implies1(x, y) and x.id < y.id):
                    drop.add(x)
    res = [x for x in res if x not in drop]
    for x in res:
        if x.op == "not" and x.a[0].op == "eq0":
            for y in nums:
                if y.op == "le0" and y not in drop:
                    pass
    # le0(p) and not eq0(p)  -> le0(p+1)
    for x in list(res):
        if x.op == "not" and x.a[0].op == "eq0":
            p = x.a[0].a[0]
            for q in (p, neg(p)):
                l = le0(q)
                if l in res and is_int(q):
                    return and_(*[z for z in res if z is not x and z is not l], le0(add(q, ONE)))
    if not res:
        return TRUE
    if len(res) == 1:
        return res[0]
    return mk("and", *sorted(res, key=lambda t: t.id), ty="bool")


def contradict(x, y):
    k = (x, y)
    r = _MEMO_contradict.get(k)
    if r is None:
        r = _MEMO_contradict[k] = _contradict_(x, y)
    return r


_MEMO_contradict = {}


def _contradict_(x, y):
    if neg_b(x) is y:
        return True
    if x.op == "le0" and y.op == "le0":
        return is_int(x.a[0]) and is_int(y.a[0]) and nonneg(sub(add(x.a[0], y.a[0]), ONE))
    if x.op == "eq0" and y.op == "eq0":
        a, b = x.a[0], y.a[0]
        return eq0(sub(a, b)) is FALSE and _lin_rel(a, b) or eq0(add(a, b)) is FALSE
    if x.op == "eq0" and y.op == "le0":
        x, y = y, x
    if x.op == "le0" and y.op == "eq0":
        p, e = x.a[0], y.a[0]
        if is_int(p) and is_int(e):
            return nonneg(sub(sub(p, e), ONE)) or nonneg(sub(add(p, e), ONE))
    return False


def _lin_rel(a, b):
    return True


def implies1(x, y):
    """literal x implies literal y"""
    if x is y:
        return True
    k = (x, y)
    r = _MEMO_implies1.get(k)
    if r is None:
        r = _MEMO_implies1[k] = _implies1_(x, y)
    return r


_MEMO_implies1 = {}


def _implies1_(x, y):
    if y.op == "le0":
        q = y.a[0]
        if x.op == "le0":
            return nonneg(sub(x.a[0], q))
        if x.op == "eq0":
            e = x.a[0]
            return nonneg(sub(e, q)) or nonneg(sub(neg(e), q))
    if y.op == "not" and y.a[0].op == "eq0":
        e = y.a[0].a[0]
        if x.op == "le0" and is_int(e) and is_int(x.a[0]):
            return nonneg(sub(add(x.a[0], e), ONE)) or nonneg(sub(sub(x.a[0], e), ONE))
        if x.op == "eq0":
            return contradict(x, y.a[0])
    return False


def or_(*ts):
    k = ts
    r = _MEMO_or_.get(k)
    if r is None:
        r = _MEMO_or_[k] = _or__(*ts)
    return r


_MEMO_or_ = {}


def _or__(*ts):
    out = []
    st = list(ts)
    while st:
        x = st.pop(0)
        if x is FALSE:
            continue
        if x is TRUE:
            return TRUE
        if x.op == "or":
            st = list(x.a) + st
        elif x.op == "ite":
            out.append(ite_bool(x))
            if out[-1].op == "or":
                st = list(out.pop().a) + st
        else:
            out.append(x)
    out = list(dict.fromkeys(out))
    lits = set(out)
    for x in out:
        if neg_b(x) in lits:
            return TRUE
    nums = [x for x in out if x.op == "le0"]
    drop = set()
    for x in nums:
        for y in nums:
            if y is x or y in drop or x in drop:
                continue
            if implies1(x, y) and not (implies1(y, x) and x.id < y.id):
                drop.add(x)
            elif is_int(x.a[0]) and is_int(y.a[0]) and implies1(neg_b(x), y):
                return TRUE
    out = [x for x in out if x not in drop]
    # absorption and unit propagation
    res = []
    for x in out:
        if x.op == "and":
            if any(y in lits for y in x.a):
                continue
            parts = [y for y in x.a if neg_b(y) not in lits]
            if len(parts) != len(x.a):
                return or_(*[z for z in out if z is not x], and_(*parts))
        res.append(x)
    # common factor extraction: (a&b)|(a&c) -> a&(b|c)
    if len(res) > 1:
        common = None
        for x in res:
            s = set(x.a) if x.op == "and" else {x}
            common = s if common is None else common & s
        if common:
            rest = []
            for x in res:
                s = [y for y in (x.a if x.op == "and" else (x,)) if y not in common]
                rest.append(and_(*s))
            return and_(*sorted(common, key=lambda t: t.id), or_(*rest))
    if not res:
        return FALSE
    if len(res) == 1:
        return res[0]
    return mk("or", *sorted(res, key=lambda t: t.id), ty="bool")


def ite_bool(t):
    """ite over booleans as a formula"""
    if t.op != "ite":
        return t
    c, a, b = t.a
    return or_(and_(c, a), and_(neg_b(c), b))


def is_boolish(t):
    return t.ty == "bool" or t.op in ("and", "or", "not", "le0", "eq0", "eq", "exists") or t in (TRUE, FALSE) or \
        (t.op == "ite" and is_boolish(t.a[1]) and is_boolish(t.a[2]))


def lits_of(c):
    return list(c.a) if c.op == "and" else [c]


def ite(c, a, b):
    k = (c, a, b)
    r = _MEMO_ite.get(k)
    if r is None:
        r = _MEMO_ite[k] = _ite_(c, a, b)
    return r


_MEMO_ite = {}


def _ite_(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        c, a, b = c.a[0], b, a
    if c.op == "or" or (c.op == "le0" and neg_b(c).id < c.id and neg_b(c).op == "le0"):
        n = neg_b(c)
        if n.op in ("and", "le0") or n.id < c.id:
            c, a, b = n, b, a
    if c.op == "ite":
        c = ite_bool(c)
    a = assume(a, lits_of(c))
    b = assume(b, [neg_b(c)])
    if a is b:
        return a
    if PAIR_HOOKS and c.op in ("eq0", "eq") and a.op == "elem" and b.op == "elem" and a.a[0] is b.a[0] and {a.a[1], b.a[1]} == {ZERO, ONE}:
        for h in PAIR_HOOKS:
            x = h(a.a[0])
            if x is not None and eq(x, b) is c:
                return elem(remove(a.a[0], x), ZERO)
    if is_boolish(a) and is_boolish(b):
        return or_(and_(c, a), and_(neg_b(c), b))
    # both branches equal modulo the condition being an equality
    if c.op == "eq0" and is_numeric(a) and is_numeric(b):
        if eq0(sub(a, b)) is c and False:
            return b
    # ite(c, ite(d, x, y), y) -> ite(c&d, x, y)
    if a.op == "ite" and a.a[2] is b:
        return ite(and_(c, a.a[0]), a.a[1], b)
    if a.op == "ite" and a.a[1] is b:
        return ite(and_(c, neg_b(a.a[0])), a.a[2], b)
    if b.op == "ite" and b.a[1] is a:
        return ite(or_(c, b.a[0]), a, b.a[2])
    if b.op == "ite" and b.a[2] is a:
        return ite(or_(c, neg_b(b.a[0])), a, b.a[1])
    # max/min recognition: c == (b <= a) etc.
    if c.op == "le0" and is_numeric(a) and is_numeric(b):
        d = c.a[0]          # d <= 0 selects a
        if is_int(d):
            for e in (ZERO, ONE):
                if sub(sub(b, a), sub(d, e)) is ZERO:     # b - a + (0|1) <= 0
                    return minmax("max", [a, b])
                if sub(sub(a, b), sub(d, e)) is ZERO:
                    return minmax("min", [a, b])
        elif sub(sub(b, a), d) is ZERO:
            return minmax("max", [a, b])
        elif sub(sub(a, b), d) is ZERO:
            return minmax("min", [a, b])
    if c.op in ("eq0", "le0") and is_numeric(a) and is_numeric(b) and a is not b:
        r = wraparound(c, a, b)
        if r is not None:
            return r
    ty = a.ty if a.ty == b.ty else None
    if ty is None:
        ta, tb = a.ty, b.ty
        if ta == "none" and tb is not None:
            ty = tb if isinstance(tb, tuple) and tb[0] == "opt" else ("opt", tb)
        elif tb == "none" and ta is not None:
            ty = ta if isinstance(ta, tuple) and ta[0] == "opt" else ("opt", ta)
    t = mk("ite", c, a, b)
    if t.ty is None:
        t.ty = ty
    return t


def span(i):
    """m with 0 <= i < m known"""
    if i.op == "mod" and positive(i.a[1]):
        return i.a[1]
    r = RANGE.get(i)
    if r is not None and r[0] is ZERO and r[1] is not None:
        return add(r[1], ONE)
    return None


def wraparound(c, a, b):
    """a neighbour position written as a special case for the first or last place of 0..m-1, as modular arithmetic:
    {i<t ? y+q*m : y} = y - q*(i-t) + q*mod(i-t, m) and {i>=m-t ? y-q*m : y} = y - q*(i+t) + q*mod(i+t, m),
    taken when no i remains outside the remainder"""
    p = to_poly(c.a[0])
    for mon, k in p.items():
        if len(mon) != 1 or mon[0][1] != 1 or k not in (1, -1):
            continue
        i = mon[0][0]
        m = span(i)
        if m is None or is_num(m):
            continue
        v = sub(i, scale(c.a[0], k))        # the condition compares i with v: k*(i - v)
        if c.op == "eq0":
            alts = [(-1, ONE, a, b)] if v is ZERO else [(1, ONE, a, b)] if v is sub(m, ONE) else []
        else:
            # the branch of the lower places, the branch of the upper ones, how many lower ones
            lo, hi, t = (a, b, add(v, ONE)) if k == 1 else (b, a, v)
            if not (nonneg(t) and nonneg(sub(m, t))):
                continue
            alts = [(-1, t, lo, hi), (1, sub(m, t), hi, lo)]
        for s, t, x, y in alts:
            d = subst(sub(x, y), {i: ZERO if s < 0 else sub(m, ONE)}) if t is ONE else sub(x, y)
            q, r = _split(d, m)
            if r is not ZERO or q is ZERO:
                continue
            q = scale(q, -s)                    # x = y - s*q*m
            nxt = add(i, scale(t, s))
            rest = sub(y, mul(q, nxt))
            if has(rest, i):
                continue
            return add(rest, mul(q, mod(nxt, m)))
    return None


_as_memo = {}


def clear_memos():
    """bounds known about symbols may have changed"""
    for m in (_as_memo, _nn_memo, _MEMO_neg_b, _MEMO_and_, _MEMO_or_, _MEMO_le0, _MEMO_ite):
        m.clear()


def assume(t, lits):
    """rewrite t using literals known to be true"""
    lits = [l for l in lits if l is not TRUE]
    if not lits or t.op in ("c", "idx") or t.op == "sym" and t.ty != "bool":
        return t
    flat = []
    for l in lits:
        flat += lits_of(l)
    key = (t, frozenset(flat))
    r = _as_memo.get(key)
    if r is None:
        memo = {}
        r = _assume(t, flat, set(flat), memo)
        _as_memo[key] = r
    return r


def decided(b, lits, litset):
    if b in litset:
        return TRUE
    nb = neg_b(b)
    if nb in litset:
        return FALSE
    if b.op in ("le0", "eq0"):
        for l in lits:
            if l.op in ("le0", "eq0") or l.op == "not" and l.a[0].op == "eq0":
                if implies1(l, b):
                    return TRUE
                if contradict(l, b) if l.op != "not" else False:
                    return FALSE
        # combination of two facts
        les = [l for l in lits if l.op == "le0"]
        if b.op == "le0" and len(les) <= 12:
            for i, x in enumerate(les):
                for y in les[i + 1:]:
                    s = add(x.a[0], y.a[0])
                    if nonneg(sub(s, b.a[0])):
                        return TRUE
                    if is_int(b.a[0]) and nonneg(sub(add(s, b.a[0]), ONE)):
                        return FALSE
    if b.op == "exists":
        for l in lits:
            if l.op == "exists" and exists_implies(l, b):
                return TRUE
    if b.op == "eq":
        # x==None decided by other facts about x
        for l in lits:
            if l.op == "eq" and l is not b:
                if l.a[0] in b.a or l.a[1] in b.a:
                    cl = [z for z in l.a if z.op == "c"]
                    cb = [z for z in b.a if z.op == "c"]
                    sh = [z for z in l.a if z.op != "c" and z in b.a]
                    if cl and cb and sh and cl[0] is not cb[0]:
                        return FALSE
    return None


def exists_implies(l, b):
    return False


_HB = {}


def has_bool(t):
    """does any conditional or truth value occur in t"""
    r = _HB.get(t)
    if r is None:
        if t.op == "ite" or is_boolish(t):
            r = t.op != "c"
        else:
            r = False
            for x in t.a:
                if isinstance(x, T) and has_bool(x) or isinstance(x, tuple) and any(has_bool(y) for y in _tuple_terms(x)):
                    r = True
                    break
        _HB[t] = r
    return r


def _assume(t, lits, litset, memo):
    r = memo.get(t)
    if r is not None:
        return r
    if t.op in ("c", "idx", "bv", "obj") or t.op == "sym" and t.ty != "bool" or not has_bool(t):
        return t
    if is_boolish(t) and t.op not in ("and", "or", "ite"):
        d = decided(t, lits, litset)
        if d is not None:
            memo[t] = d
            return d
    if t.op in ("and", "or"):
        if t in litset:
            return TRUE
        if neg_b(t) in litset:
            return FALSE
    if t.op == "ite":
        c = _assume(t.a[0], lits, litset, memo)
        if c is TRUE:
            r = _assume(t.a[1], lits, litset, memo)
        elif c is FALSE:
            r = _assume(t.a[2], lits, litset, memo)
        else:
            x, y = (_assume(z, lits, litset, memo) for z in t.a[1:])
            if c is t.a[0] and x is t.a[1] and y is t.a[2]:
                r = t
            else:
                r = ite(c, x, y)
        memo[t] = r
        return r
    r = rebuild(t, lambda x: _assume(x, lits, litset, memo))
    if r is not t and is_boolish(r) and r.op not in ("c", "and", "or", "ite"):
        d = decided(r, lits, litset)
        if d is not None:
            r = d
    memo[t] = r
    return r


# ---------------------------------------------------------------- binders
def height(t):
    if t._h is None:
        h = 0
        if t.op in BINDERS:
            h = t.a[-1] if False else 0
        for x in t.a:
            if isinstance(x, T):
                h = max(h, height(x))
            elif isinstance(x, tuple):
                for y in _tuple_terms(x):
                    h = max(h, height(y))
        if t.op == "bv":
            h = t.a[0]
        t._h = h
    return t._h


def _tuple_terms(x):
    for y in x:
        if isinstance(y, T):
            yield y
        elif isinstance(y, tuple):
            yield from _tuple_terms(y)


def free_atoms(t):
    """all sym/idx/bv/th leaves below t (as a frozenset)"""
    if t._fr is None:
        if t.op in ("sym", "idx", "bv", "th", "mth", "fv"):
            s = frozenset([t])
        else:
            s = frozenset()
            for x in t.a:
                if isinstance(x, T):
                    s = s | free_atoms(x)
                elif isinstance(x, tuple):
                    for y in _tuple_terms(x):
                        s = s | free_atoms(y)
        t._fr = s
    return t._fr


def has(t, x):
    return x in free_atoms(t)


_heads = {}


def contains_op(t, ops):
    """does any subterm have one of these ops"""
    key = (t, ops)
    r = _heads.get(key)
    if r is None:
        r = t.op in ops
        if not r:
            for x in t.a:
                if isinstance(x, T):
                    r = contains_op(x, ops)
                elif isinstance(x, tuple):
                    r = any(contains_op(y, ops) for y in _tuple_terms(x))
                if r:
                    break
        _heads[key] = r
    return r


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    if t in seen:
        return
    seen.add(t)
    yield t
    for x in t.a:
        if isinstance(x, T):
            yield from subterms(x, seen)
        elif isinstance(x, tuple):
            for y in _tuple_terms(x):
                yield from subterms(y, seen)


# binder ops: (n, body...) with one bound index; constructor registered below
BINDERS = {}


def bind_close(ix, *bodies):
    h = 1 + max([0] + [height(b) for b in bodies])
    v = mk("bv", h, ty="int")
    return v, [subst(b, {ix: v}) for b in bodies]


def mkb(op, n, ix, *bodies, ty=None):
    """binder term op(n, bodies) with bound index ix"""
    v, bs = bind_close(ix, *bodies)
    return mk(op, n, *bs, ty=ty)


def bvar(t):
    """the bound variable of a binder term"""
    h = 0
    for b in t.a[1:]:
        if isinstance(b, T):
            h = max(h, height(b))
    return mk("bv", h, ty="int")


def opened(t, x):
    """bodies of the binder term with the bound index replaced by x.

    The bound variable of a binder is the highest bv occurring in its bodies, unless the
    bodies do not use it at all; a marker level keeps that unambiguous."""
    h = t_level(t)
    v = mk("bv", h, ty="int")
    return [subst(b, {v: x}) for b in t.a[1:]]


_LEVEL = {}


def t_level(t):
    return _LEVEL[t]


def binder(op, n, ix, bodies, ty=None):
    h = 1 + max([0] + [height(b) for b in bodies])
    v = mk("bv", h, ty="int")
    bs = [subst(b, {ix: v}) for b in bodies]
    t = mk(op, n, *bs, ty=ty)
    _LEVEL[t] = h
    # the level is part of the height even when unused
    if t._h is None:
        t._h = max([h, height(n)] + [height(b) for b in bs])
    return t


_LOOSE = {}


def loose(t):
    """levels of the bound variables of t that are not bound inside t"""
    r = _LOOSE.get(t)
    if r is None:
        if t.op == "bv":
            r = frozenset((t.a[0],))
        else:
            r = frozenset()
            lv = _LEVEL.get(t)
            for k, x in enumerate(t.a):
                y = frozenset()
                if isinstance(x, T):
                    y = loose(x)
                elif isinstance(x, tuple):
                    for z in _tuple_terms(x):
                        y |= loose(z)
                if lv is not None and k:
                    y -= {lv}
                r |= y
        _LOOSE[t] = r
    return r


def rebuild(t, f):
    """rebuild t with f applied to children through the smart constructors"""
    op = t.op
    if op in ("c", "sym", "idx", "bv", "obj", "th", "fv", "inf", "undef", "mth", "minit", "cls", "func", "ext", "mod_"):
        return t
    if op == "poly":
        new = None
        for m, c in t.a[0]:
            for at, p in m:
                y = f(at)
                if y is not at:
                    new = new or {}
                    new[at] = y
        if not new:
            return t
        acc = []
        for m, c in t.a[0]:
            x = C(c)
            for at, p in m:
                y = new.get(at, at)
                if p >= 0:
                    x = mul(x, powt(y, C(p)))
                else:
                    x = tdiv(x, powt(y, C(-p)))
            acc.append(x)
        return add(*acc) if acc else ZERO
    if op in BINDERS:
        n = f(t.a[0])
        h = t_level(t)
        v = mk("bv", h, ty="int")
        tmp = tmpidx(n)
        opened_ = [subst(b, {v: tmp}) for b in t.a[1:]]
        bs = [f(b) for b in opened_]
        if n is t.a[0] and all(x is y for x, y in zip(bs, opened_)):
            return t
        return BINDERS[op](n, tmp, *bs)
    args = []
    ch = False
    for x in t.a:
        if isinstance(x, T):
            y = f(x)
        elif isinstance(x, tuple):
            y = _rb_tuple(x, f)
        else:
            y = x
        if y is not x:
            ch = True
        args.append(y)
    if not ch:
        return t
    cons = CONS.get(op)
    if cons:
        return cons(*args)
    if op == "call":
        r = _call(*args)
        if r is not None:
            return r
    return mk(op, *args, ty=t.ty)


def _rb_tuple(x, f):
    out = []
    ch = False
    for y in x:
        if isinstance(y, T):
            z = f(y)
        elif isinstance(y, tuple):
            z = _rb_tuple(y, f)
        else:
            z = y
        if z is not y:
            ch = True
        out.append(z)
    return tuple(out) if ch else x


def subst(t, mp):
    memo = dict(mp)
    keys = frozenset(mp)
    leaf = all(k.op in ("sym", "idx", "bv", "th", "mth", "fv") for k in keys)

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if leaf and not (free_atoms(x) & keys):
            memo[x] = x
            return x
        r = rebuild(x, go)
        memo[x] = r
        return r
    return go(t)


CONS = {}
CONS.update({"div": fdiv, "mod": mod, "abs": absn, "le0": le0, "eq0": eq0, "eq": eq, "not": neg_b,
             "and": and_, "or": or_, "ite": ite, "powf": powt,
             "min": lambda *a: minmax("min", list(a)), "max": lambda *a: minmax("max", list(a))})


# ---------------------------------------------------------------- sequences
def seq(*xs):
    return mk("seq", *xs, ty="seq")


def cat(*ss):
    out = []
    for s in ss:
        for x in (s.a if s.op == "cat" else (s,)):
            if x.op == "seq" and not x.a:
                continue
            if out and out[-1].op == "seq" and x.op == "seq":
                out[-1] = seq(*(out[-1].a + x.a))
            else:
                out.append(x)
    if not out:
        return seq()
    if len(out) == 1:
        return out[0]
    r = _lift_seq(lambda *z: cat(*z), *out)
    if r is not None:
        return r
    return mk("cat", *out, ty="seq")


def _lift_seq(f, *args):
    n = sum(1 for t in args if t.op == "ite")
    if n and n <= 2:
        return _lift(f, *args)
    return None


LEN = {}


NAMING = [False]


def named(t):
    """while NAMING: a choice between numbers that involves the outcome of a loop is kept as one opaque value"""
    if NAMING[0] and t.op == "ite" and is_numeric(t) and is_int(t) and contains_op(t, ("foldv", "best", "fv")):
        return mk("nm", t, ty="int")
    return t


_ARITH = ("poly", "ite", "abs", "div", "mod", "max", "min", "fdiv")


def choices(t, cap=3):
    """number of conditionals that arithmetic on t would be distributed over"""
    n = 0
    todo = [t]
    while todo and n < cap:
        x = todo.pop()
        if x.op == "ite":
            n += 1
            todo += [x.a[1], x.a[2]]
        elif x.op in _ARITH:
            if x.op == "poly":
                todo += [at for m in to_poly(x) for at, e in m if at is not x]
            else:
                todo += [y for y in x.a if isinstance(y, T)]
    return n


def named_field(t):
    """while NAMING: a number with several cases, about to be stored in a field, is kept as one opaque value"""
    if NAMING[0] and t.op not in ("c", "sym", "idx", "nm") and is_numeric(t) and is_int(t) and choices(t) >= 2:
        return mk("nm", t, ty="int")
    return t


def unnamed(t):
    """the definitions put back (rebuilding can expose a name again, so until nothing changes)"""
    for _ in range(4):
        u = rebuild_with(t, lambda x: x.a[0] if x.op == "nm" else None)
        if u is t:
            break
        t = u
    return t


def rebuild_with(t, f):
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            y = f(x)
            r = memo[x] = rebuild(x, go) if y is None else go(y)
        return r
    return go(t)


def length(s):
    op = s.op
    if s in LEN:
        return LEN[s]
    if op == "seq":
        return C(len(s.a))
    if op == "ite":
        return ite(s.a[0], length(s.a[1]), length(s.a[2]))
    if op == "cat":
        return add(*[length(x) for x in s.a])
    if op == "map":
        return s.a[0]
    if op in ("perm", "upd", "rev", "bupd"):
        return length(s.a[0])
    if op == "fmap":
        t = tmpidx(s.a[0])
        c, b = opened(s, t)
        return summ(s.a[0], t, ite(c, ONE, ZERO))
    if op == "remove":
        return sub(length(s.a[0]), ONE)
    if op == "rep":
        return mul(length(s.a[0]), minmax("max", [s.a[1], ZERO]))
    if op == "c" and isinstance(s.a[0], str):
        return C(len(s.a[0]))
    if op == "tuple":
        return C(len(s.a))
    if op == "flat":
        t = tmpidx(s.a[0])
        b, = opened(s, t)
        return summ(s.a[0], t, length(b))
    if op in ("distinct",):
        return mk("len", mk("setof", s.a[0], ty="set"), ty="int")
    if op == "distinctby":
        t = tmpidx(length(s.a[0]))
        k, = opened(s.a[1], t)
        return mk("len", mk("setof", mapt(length(s.a[0]), t, k), ty="set"), ty="int")
    if op == "aslist":
        return length(s.a[0])
    if op == "zipl":
        return minmax("min", [length(x) for x in s.a])
    return mk("len", s, ty="int")


def _call(nm, *a):
    if nm == "int" and len(a) == 1 and is_int(a[0]):
        return a[0]
    return None


CONS["len"] = length
CONS["cat"] = cat


def mapt(n, ix, body):
    """sequence of body(ix) for ix in [0,n)"""
    if is_num(n) and n.a[0] <= 8:
        return seq(*[subst(body, {ix: C(i)}) for i in range(max(0, int(n.a[0])))])
    # identity map over an opaque sequence
    if body.op == "elem" and body.a[1] is ix and not has(body.a[0], ix) and length(body.a[0]) is n:
        return body.a[0]
    f = by_position(n, ix, body)
    if f is not None:
        return fmapt(f[0], f[1], f[2], f[3])
    return binder("map", n, ix, [body], ty="seq")


PAIR_HOOKS = []      # f(list) -> x when the list holds exactly x and one other item


def fmapt(n, ix, cond, body):
    cond = assume(cond, [])
    if PAIR_HOOKS and body.op == "elem" and body.a[1] is ix and cond.op == "not" and not has(body.a[0], ix) and n is length(body.a[0]):
        for h in PAIR_HOOKS:
            x = h(body.a[0])
            if x is not None and neg_b(eq(x, body)) is cond:
                return remove(body.a[0], x)
    if cond is TRUE:
        return mapt(n, ix, body)
    if cond is FALSE:
        return seq()
    if is_num(n) and n.a[0] <= 8:
        parts = []
        for i in range(max(0, int(n.a[0]))):
            c = subst(cond, {ix: C(i)})
            b = subst(body, {ix: C(i)})
            parts.append(ite(c, seq(b), seq()))
        return cat(*parts) if parts else seq()
    if not has(cond, ix):
        return ite(cond, mapt(n, ix, body), seq())
    u = unique_index(n, ix, cond)
    if u is not None:
        c, k = u
        return ite(c, seq(subst(body, {ix: k})), seq())
    return binder("fmap", n, ix, [cond, body], ty="seq")


def flatt(n, ix, body):
    if body.op == "seq" and len(body.a) == 1:
        return mapt(n, ix, body.a[0])
    if body.op == "ite" and body.a[2].op == "seq" and not body.a[2].a and body.a[1].op == "seq" and len(body.a[1].a) == 1:
        return fmapt(n, ix, body.a[0], body.a[1].a[0])
    if body.op == "ite" and body.a[1].op == "seq" and not body.a[1].a and body.a[2].op == "seq" and len(body.a[2].a) == 1:
        return fmapt(n, ix, neg_b(body.a[0]), body.a[2].a[0])
    if body.op == "seq" and not body.a:
        return seq()
    if is_num(n) and n.a[0] <= 8:
        return cat(*[subst(body, {ix: C(i)}) for i in range(max(0, int(n.a[0])))])
    if not has(body, ix) and False:
        pass
    # flatten rectangular nests: flat(n, map(m, f)) with m independent of ix
    if body.op == "map" and not has(body.a[0], ix) and n is not INF and positive(body.a[0]):
        m = body.a[0]
        t = tmpidx(mul(n, m))
        b, = opened(body, mod(t, m))
        return mapt(mul(n, m), t, subst(b, {ix: fdiv(t, m)}))
    if body.op == "ite" and body.a[1].op == "seq" and not body.a[1].a:
        body = ite(neg_b(body.a[0]), body.a[2], body.a[1]) if False else body
    u = None
    if body.op == "ite":
        c = body.a[0]
        if body.a[2].op == "seq" and not body.a[2].a:
            u = unique_index(n, ix, c)
            if u is not None:
                return ite(u[0], subst(body.a[1], {ix: u[1]}), seq())
        if body.a[1].op == "seq" and not body.a[1].a:
            u = unique_index(n, ix, neg_b(c))
            if u is not None:
                return ite(u[0], subst(body.a[2], {ix: u[1]}), seq())
    return binder("flat", n, ix, [body], ty="seq")


UNIQUE_HOOKS = []


MEMBER = [None]


def posof(S, x):
    """position of x in the duplicate-free list S (only used where x is known or tested to be in it)"""
    if x.op == "elem" and x.a[0] is S:
        return x.a[1]
    return mk("posof", S, x, ty="int")


CONS["posof"] = posof


def pinned(p, ix):
    """p == 0 says: the item ix of a duplicate-free list is x -> (list, x)"""
    q = to_poly(p)
    it = None
    for m, c in q.items():
        for at, e in m:
            if has(at, ix):
                if at.op == "elem" and at.a[1] is ix and not has(at.a[0], ix) and no_repeats(at.a[0]) and len(m) == 1 and e == 1 and abs(c) == 1 and it is None:
                    it = (at, c)
                else:
                    return None
    if it is None:
        return None
    return it[0].a[0], scale(sub(p, scale(it[0], it[1])), qdiv(-1, it[1]))


def unique_index(n, ix, cond):
    """cond pins ix to at most one value: return (condition, index term) or None"""
    lits = lits_of(cond)
    for l in lits:
        if l.op == "eq0":
            p = to_poly(l.a[0])
            coef = None
            ok = True
            for m, c in p.items():
                d = dict(m)
                if ix in d:
                    if len(m) == 1 and d[ix] == 1:
                        coef = c
                    else:
                        ok = False
                elif any(has(at, ix) for at in d):
                    ok = False
            if ok and coef is not None and abs(coef) == 1:
                k = scale(sub(l.a[0], scale(ix, coef)), qdiv(-1, coef))
                inr = and_(le(ZERO, k), lt(k, n))
                rest = and_(*[subst(x, {ix: k}) for x in lits if x is not l])
                return and_(inr, rest), k
    for l in lits:
        if l.op == "eq0":
            z = pinned(l.a[0], ix)
            if z is not None:
                S, x = z
                k = posof(S, x)
                rest = and_(*[subst(y, {ix: k}) for y in lits if y is not l])
                return and_(MEMBER[0](x, S), rest), k
    for h in UNIQUE_HOOKS:
        r = h(n, ix, cond, lits)
        if r is not None:
            return r
    return None


ELEM_TY = {}


def elem_ty(s):
    """type of the elements of a sequence term"""
    f = ELEM_TY.get(s)
    if f:
        return f
    op = s.op
    if op in ("seq", "tuple"):
        tys = {x.ty if x.op != "poly" else "int" for x in s.a}
        return tys.pop() if len(tys) == 1 else None
    if op == "map":
        b = s.a[1]
        return "int" if is_int(b) else b.ty
    if op == "fmap":
        b = s.a[2]
        return "int" if is_int(b) else b.ty
    if op in ("perm", "distinct", "distinctby", "remove", "rev", "slice", "setof", "aslist", "upd", "sorted", "setfilter"):
        return elem_ty(s.a[0])
    if op in ("cat",):
        tys = {elem_ty(x) for x in s.a}
        return tys.pop() if len(tys) == 1 else None
    if op == "flat":
        return elem_ty(s.a[1])
    if op == "ite":
        a, b = elem_ty(s.a[1]), elem_ty(s.a[2])
        if s.a[1].op == "seq" and not s.a[1].a:
            return b
        if s.a[2].op == "seq" and not s.a[2].a:
            return a
        return a if a == b else None
    if isinstance(s.ty, tuple) and s.ty[0] == "seqof":
        return s.ty[1]
    return None


def elem(s, i):
    if i.op == "posof" and i.a[0] is s:
        return i.a[1]
    if PAIR_HOOKS and i.op == "poly":
        # the other place of two
        for h in PAIR_HOOKS:
            x = h(s)
            if x is None:
                continue
            o = sub(ONE, i)
            if o.op == "first":
                j = tmpidx(length(s))
                if o is first(length(s), j, eq(elem(s, j), x)):
                    return elem(remove(s, x), ZERO)
            if o is posof(s, x):
                return elem(remove(s, x), ZERO)
    op = s.op
    if i.op == "ite":
        return ite(i.a[0], elem(s, i.a[1]), elem(s, i.a[2]))
    if op in ("seq", "tuple"):
        if is_num(i):
            k = int(i.a[0])
            if -len(s.a) <= k < len(s.a):
                return s.a[k]
            return mk("opaque", "index-error", s, i)
        if op == "tuple" or len(s.a) <= 4 and len(s.a) > 0:
            pass
    if op == "ite":
        return ite(s.a[0], elem(s.a[1], i), elem(s.a[2], i))
    if is_num(i) and i.a[0] < 0:
        n = length(s)
        i2 = add(n, i)
        if op == "cat":
            last = s.a[-1]
            if last.op == "seq" and len(last.a) >= -int(i.a[0]):
                return last.a[int(i.a[0])]
        if nonneg(i2):
            i = i2
    if op == "map":
        b, = opened(s, i)
        return b
    if op == "rep" and s.a[0].op == "seq" and len(s.a[0].a) == 1:
        return s.a[0].a[0]
    if op == "cat":
        off = ZERO
        for x in s.a:
            n = length(x)
            if nonneg(sub(i, off)) and nonneg(sub(sub(add(off, n), i), ONE)):
                return elem(x, sub(i, off))
            if not nonneg(sub(i, add(off, n))):
                break
            off = add(off, n)
        if len(s.a) == 2 and nonneg(i) and all(x.op == "map" and not has(x.a[1], mk("bv", t_level(x), ty="int")) for x in s.a):
            # two runs of equal entries
            n = length(s.a[0])
            return ite(lt(i, n), elem(s.a[0], i), elem(s.a[1], sub(i, n)))
    if op == "upd":
        e = eq(s.a[1], i)
        return ite(e, s.a[2], elem(s.a[0], i))
    if op == "bupd":
        r = read_bulk(s, i)
        if r is not None:
            return r
    if op == "rev":
        return elem(s.a[0], sub(sub(length(s.a[0]), ONE), i))
    if op == "zipl":
        return tup(*[elem(x, i) for x in s.a])
    if op == "aslist" and False:
        pass
    t = mk("elem", s, i, ty=elem_ty(s))
    if t.ty is None:
        t.ty = elem_ty(s)
    return t


CONS["elem"] = elem


def tup(*xs):
    return mk("tuple", *xs, ty="tuple")


CONS["tuple"] = tup
CONS["seq"] = seq


def upd(s, i, v):
    if s.op == "seq" and is_num(i):
        k = int(i.a[0])
        l = list(s.a)
        if -len(l) <= k < len(l):
            l[k] = v
            return seq(*l)
    if s.op == "upd" and s.a[1] is i:
        return upd(s.a[0], i, v)
    if v.op == "elem" and v.a[0] is s and v.a[1] is i:
        return s
    return mk("upd", s, i, v, ty="seq")


CONS["upd"] = upd


def bupd(s, n, ix, cond, i, v):
    """for ix in [0,n): if cond: s[i] = v    (sequence with bulk index updates)

    nested bulk updates inside i/v are represented with tuple binders in `bulk`"""
    return mk("bupd", s, ((((ix, n),), cond, i, v),), ty="seq")


def read_bulk(s, i):
    """element i of s = bupd(base, layers); layers = ((binders, cond, index, value), ...) last writer wins"""
    base, layers = s.a
    cands = []
    for binders, cond, w, v in layers:
        m = match_index(binders, w, i)
        if m is False:
            continue
        cands.append((binders, cond, w, v, m))
    if not cands:
        return elem(base, i)
    # peel from the last layer; only sound when the layers are written in one group and at most one matches
    if len(cands) == 1:
        binders, cond, w, v, m = cands[0]
        if m is None:
            return None
        mp, inr = m
        c = and_(inr, subst(cond, mp))
        return ite(c, subst(v, mp), elem(base, i))
    # several candidate layers: decide by disjoint conditions
    conds = []
    for binders, cond, w, v, m in cands:
        if m is None:
            return None
        conds.append((and_(m[1], subst(cond, m[0])), subst(v, m[0])))
    for x in range(len(conds)):
        for y in range(x + 1, len(conds)):
            if and_(conds[x][0], conds[y][0]) is not FALSE:
                return None
    r = elem(base, i)
    for c, v in conds:
        r = ite(c, v, r)
    return r


def digit(t, op):
    """t = op(e, d) + off with op in div / mod: (e, d, off)"""
    p = dict(to_poly(t))
    hit = [m for m in p if len(m) == 1 and m[0][1] == 1 and m[0][0].op == op and p[m] == 1]
    if len(hit) != 1:
        return None
    x = hit[0][0][0]
    return x.a[0], x.a[1], sub(t, x)


def join_digits(binders, ws, vs):
    """components div(e, d) + p == i, mod(e, d) + q == j say e == d * (i - p) + (j - q) when 0 <= j - q < d"""
    if len(ws) != 2 or len(vs) != 2 or not all(is_numeric(x) for x in ws + vs):
        return None
    for h, l in ((0, 1), (1, 0)):
        a, b = digit(ws[h], "div"), digit(ws[l], "mod")
        if a is None or b is None or a[0] is not b[0] or a[1] is not b[1]:
            continue
        e, d = a[0], a[1]
        bs = [x for x, _ in binders]
        if not any(has(e, x) for x in bs) or any(has(y, x) for y in (d, a[2], b[2]) for x in bs):
            continue
        lo = sub(vs[l], b[2])
        return e, add(mul(d, sub(vs[h], a[2])), lo), and_(le0(neg(lo)), le0(add(sub(lo, d), ONE)))
    return None


def match_index(binders, w, i):
    """solve w(binders) == i for the bound indices.
    False: impossible; None: unknown; (mapping, range condition) when unique"""
    if w.op == "new" or i.op == "new":
        if w.op != "new" or i.op != "new" or w.a[0] != i.a[0]:
            if w.op == i.op == "new":
                return False
            return None if "elem" in (w.op, i.op) or "sel" in (w.op, i.op) else False
        mp = {}
        j = join_digits(binders, w.a[1:], i.a[1:])
        if j is not None:
            e, v, ok = j
            m = match_index(binders, e, v)
            if m is False or m is None:
                return m
            inr = and_(ok, m[1])
            return False if inr is FALSE else (m[0], inr)
        for (wa, ia) in zip(w.a[1:], i.a[1:]):
            wa2 = subst(wa, mp) if mp else wa
            m = match_index([b for b in binders if b[0] not in mp], wa2, ia)
            if m is False:
                return False
            if m is None:
                return None
            mp.update(m[0])
        inr = range_cond(binders, mp)
        if inr is FALSE:
            return False
        if any(b[0] not in mp for b in binders):
            return None
        return mp, inr
    if not is_numeric(w) or not is_numeric(i):
        return None
    mine = [b for b in binders if has(w, b[0])]
    if not mine:
        e = eq(w, i)
        if e is FALSE:
            return False
        if [b for b in binders]:
            return ({}, e) if not binders else None
        return {}, e
    p = to_poly(w)
    # mixed radix: one binder with coefficient 1 and range [0,n1), another with coefficient n1, ...
    rest = i
    coefs = []
    const = dict(p)
    for bx, bn in mine:
        cf = {}
        for m, c in list(const.items()):
            d = dict(m)
            if bx in d:
                if d[bx] != 1:
                    return None
                cf[tuple(z for z in m if z[0] is not bx)] = c
                del const[m]
            elif any(has(at, bx) for at in d):
                return None
        coefs.append((bx, bn, from_poly(cf)))
    off = from_poly(const)
    if any(has(off, b[0]) for b in binders):
        return None
    rest = sub(i, off)
    # sort: coefficient 1 first
    mp = {}
    order = []
    cur = ONE
    left = list(coefs)
    while left:
        nxt = [z for z in left if z[2] is cur]
        if not nxt:
            return None
        z = nxt[0]
        left.remove(z)
        order.append(z)
        cur = mul(cur, z[1]) if z[1] is not INF else INF
    total = cur
    x = rest
    inr = TRUE
    for j, (bx, bn, cf) in enumerate(order):
        if j + 1 < len(order):
            mp[bx] = mod(x, bn)
            x = fdiv(x, bn)
        else:
            mp[bx] = x
    inr = and_(le(ZERO, rest), lt(rest, total))
    if inr is FALSE:
        return False
    return mp, inr


def range_cond(binders, mp):
    r = TRUE
    for bx, bn in binders:
        if bx in mp:
            k = mp[bx]
            r = and_(r, le(ZERO, k), lt(k, subst(bn, mp)))        # the number of inner rounds may depend on the outer index
    return r


def remove(s, x):
    if s.op == "seq":
        for j, y in enumerate(s.a):
            e = eq(x, y)
            if e is TRUE:
                return seq(*(s.a[:j] + s.a[j + 1:]))
            if e is not FALSE:
                break
    return mk("remove", s, x, ty="seq")


CONS["remove"] = remove


def setof(s):
    while s.op in ("perm", "distinct", "aslist", "rev", "sorted"):
        s = s.a[0]
    if s.op == "setof":
        return s
    if s.op == "seq":
        s = seq(*sorted(set(s.a), key=lambda t: t.id))
    # the image of a key over a sequence made distinct by that key is the image over the whole sequence
    d = None
    if s.op == "map" and contains_op(s.a[1], ("distinctby",)):
        t = tmpidx()
        b, = opened(s, t)
        d = next((x.a[0] for x in subterms(b) if x.op == "elem" and x.a[1] is t and x.a[0].op == "distinctby" and length(x.a[0]) is s.a[0]), None)
    if d is not None:
        key, = opened_key(d, elem(d, t))
        b2 = replace(b, key, mk("sym", "~key"))
        if not has(b2, t):
            base = d.a[0]
            n = length(base)
            t2 = tmpidx(n)
            k2, = opened_key(d, elem(base, t2))
            return setof(mapt(n, t2, subst(b2, {mk("sym", "~key"): k2})))
    return mk("setof", s, ty="set")


CONS["setof"] = setof


def distinct(s):
    if s.op in ("distinct",):
        return s
    if s.op == "aslist":
        return s
    return mk("distinct", s, ty="seq")


CONS["distinct"] = distinct


def distinctby(s, n, ix, key):
    """elements of s (opaque sequence) whose key did not occur before"""
    v = binder("lam", n, ix, [key])
    return mk("distinctby", s, v, ty="seq")


def opened_key(d, x):
    """key of distinctby term d applied to element x (key is a function of the element)"""
    lam = d.a[1]
    t = tmpidx()
    b, = opened(lam, t)
    e = elem(d.a[0], t)
    r = replace(b, e, x)
    return [r]


def aslist(s):
    """a list holding the elements of a set in some fixed order"""
    if s.op == "seq":
        return s
    if s.op == "setof" and s.a[0].op == "seq" and len(s.a[0].a) <= 1:
        return s.a[0]
    return mk("aslist", s, ty="seq")


CONS["aslist"] = aslist


def replace(t, old, new):
    memo = {old: new}

    def go(x):
        r = memo.get(x)
        if r is None:
            r = rebuild(x, go)
            if r is old:
                r = new
            memo[x] = r
        return r
    return go(t)


EXISTS_HOOKS = []


def exists(n, ix, c):
    if c is FALSE:
        return FALSE
    if c is TRUE:
        return lt(ZERO, n)
    if not has(c, ix):
        return and_(c, lt(ZERO, n))
    if c.op == "or":
        return or_(*[exists(n, ix, x) for x in c.a])
    if c.op == "ite":
        return exists(n, ix, ite_bool(c))
    if c.op == "and":
        inv = [x for x in c.a if not has(x, ix)]
        if inv:
            return and_(*inv, exists(n, ix, and_(*[x for x in c.a if has(x, ix)])))
        alts = [x for x in c.a if x.op == "or"]
        if len(alts) == 1 and len(alts[0].a) <= 6:
            # one alternative at a time
            rest = [x for x in c.a if x is not alts[0]]
            return or_(*[exists(n, ix, and_(*rest, x)) for x in alts[0].a])
    if is_num(n) and n.a[0] <= 8:
        return or_(*[subst(c, {ix: C(i)}) for i in range(max(0, int(n.a[0])))])
    if c.op == "le0":
        # monotone in the index: the extreme index decides
        k = to_poly(c.a[0]).get(((ix, 1),))
        if k is not None and is_num(n) or k is not None and n is not INF:
            if not has(sub(c.a[0], scale(ix, k)), ix):
                return and_(lt(ZERO, n), subst(c, {ix: sub(n, ONE) if k < 0 else ZERO}))
    u = unique_index(n, ix, c)
    if u is not None and not contains_op(u[1], ("find",)):
        return u[0]
    f = by_position(n, ix, c)
    if f is not None:
        return exists(f[0], f[1], and_(f[2], f[3]))
    # elements of a set/distinct listing: quantify over the underlying sequence
    r = exists_over_set(n, ix, c)
    if r is not None:
        return r
    for h in EXISTS_HOOKS:
        r = h(n, ix, c)
        if r is not None:
            return r
    return binder("exists", n, ix, [c], ty="bool")


def by_position(n, ix, body):
    """ix runs over the positions of a filtered listing and is only used to read its entries:
    (underlying count, fresh index, filter, body over the underlying index)"""
    if n.op != "sum":
        return None
    fs = []
    for z in subterms(body):
        if z.op == "elem" and z.a[1] is ix and z.a[0].op == "fmap" and not has(z.a[0], ix) and length(z.a[0]) is n:
            fs.append(z)
    if not fs:
        return None
    m = fs[0].a[0].a[0]
    t = tmpidx(m)
    guard = opened(fs[0].a[0], t)[0]
    b = body
    for z in fs:
        if z.a[0].a[0] is not m:
            return None
        g, v = opened(z.a[0], t)
        if g is not guard:
            return None
        b = replace(b, z, v)
    if has(b, ix):
        return None
    return m, t, guard, b


def exists_over_set(n, ix, c):
    src = listing_of(n)
    if src is None:
        return None
    S, base = src
    b2 = replace(c, elem(S, ix), mk("sym", "~el"))
    if has(b2, ix) and S.op == "aslist":
        # another duplicate-free listing of the same set
        for z in subterms(b2):
            if z.op == "elem" and z.a[1] is ix and z.a[0].op == "distinct" and setof(z.a[0]) is S.a[0]:
                b3 = replace(c, z, mk("sym", "~el"))
                if not has(b3, ix):
                    b2 = b3
                    break
    if has(b2, ix):
        if S.op == "distinctby":
            key, = opened_key(S, elem(S, ix))
            b2 = replace(c, key, mk("sym", "~el"))
            if has(b2, ix):
                return None
            m = length(base)
            t = tmpidx(m)
            k2, = opened_key(S, elem(base, t))
            return exists(m, t, subst(b2, {mk("sym", "~el"): k2}))
        return None
    if S.op == "distinctby":
        return None
    m = length(base)
    t = tmpidx(m)
    return exists(m, t, subst(b2, {mk("sym", "~el"): elem(base, t)}))


def listing_of(n):
    """n = len of a duplicate-free listing -> (listing, underlying sequence)"""
    if n.op == "len":
        s = n.a[0]
        if s.op == "setof":
            # listings of this set
            return aslist(s), s.a[0]
        if s.op == "distinctby":
            return s, s.a[0]
    return None


def forall(n, ix, c):
    return neg_b(exists(n, ix, neg_b(c)))


def first(n, ix, c):
    """smallest ix in [0,n) with c, n if none"""
    if c is TRUE:
        return ZERO
    if c is FALSE:
        return n
    if not has(c, ix):
        return ite(c, ZERO, n)
    if c.op == "and":
        inv = [x for x in c.a if not has(x, ix)]
        if inv and n is not INF:
            return ite(and_(*inv), first(n, ix, and_(*[x for x in c.a if has(x, ix)])), n)
    if c.op == "le0":
        p = to_poly(c.a[0])
        k = p.get(((ix, 1),))
        if k == -1:
            r = add(c.a[0], ix)
            if not has(r, ix):
                # ix >= r
                m = minmax("max", [r, ZERO])
                return m if n is INF else minmax("min", [m, n])
    if c.op == "eq0":
        u = unique_index(n if n is not INF else INF, ix, c)
        if u is not None and n is INF:
            if u[0] is TRUE or nonneg(u[1]):
                return u[1]
    return binder("first", n, ix, [c], ty="int")


def summ(n, ix, body):
    if body is ZERO:
        return ZERO
    if not has(body, ix):
        return mul(minmax("max", [n, ZERO]) if not nonneg(n) else n, body)
    if is_num(n) and n.a[0] <= 8:
        return add(ZERO, *[subst(body, {ix: C(i)}) for i in range(max(0, int(n.a[0])))])
    if body.op == "ite":
        c = body.a[0]
        for cc, tt, ee in ((c, body.a[1], body.a[2]), (neg_b(c), body.a[2], body.a[1])):
            if ee is ZERO:
                u = unique_index(n, ix, cc)
                if u is not None:
                    return ite(u[0], subst(tt, {ix: u[1]}), ZERO)
    if body.op == "ite":
        # sum over a duplicate-free listing
        pass
    else:
        p = to_poly(body)
        if len(p) > 1:
            return add(*[summ(n, ix, from_poly({m: c})) for m, c in p.items()])
        (m, c), = p.items()
        out = [z for z in m if not has(z[0], ix)]
        if out or c != 1:
            inner = from_poly({tuple(z for z in m if has(z[0], ix)): 1})
            return mul(from_poly({tuple(out): c}), summ(n, ix, inner))
    f = by_position(n, ix, body)
    if f is not None:
        return summ(f[0], f[1], ite(f[2], f[3], ZERO))
    src = listing_of(n)
    if src is not None:
        S, base = src
        ev = mk("sym", "~el")
        b2 = replace(body, elem(S, ix), ev)
        st = setof(base)
        if has(b2, ix) and S.op == "distinctby":
            key, = opened_key(S, elem(S, ix))
            b2 = replace(body, key, ev)
            m = length(base)
            t = tmpidx(m)
            k2, = opened_key(S, elem(base, t))
            st = setof(mapt(m, t, k2))
        elif S.op == "distinctby":
            b2 = body
        if not has(b2, ix):
            v = tmpidx()
            return sumset(st, v, subst(b2, {ev: v}))
    return binder("sum", n, ix, [body], ty=None)


def sumset(st, ix, body):
    """sum of body over the distinct elements of the set"""
    if body is ZERO:
        return ZERO
    if st.op == "setof" and st.a[0].op == "seq" and len(st.a[0].a) <= 1:
        return subst(body, {ix: st.a[0].a[0]}) if st.a[0].a else ZERO
    if body.op != "ite":
        p = to_poly(body)
        if len(p) > 1:
            return add(*[sumset(st, ix, from_poly({m: c})) for m, c in p.items()])
        (m, c), = p.items()
        out = [z for z in m if not has(z[0], ix)]
        if (out or c != 1):
            inner = from_poly({tuple(z for z in m if has(z[0], ix)): 1})
            if inner is ONE:
                return mul(from_poly({tuple(out): c}), mk("len", st, ty="int"))
            return mul(from_poly({tuple(out): c}), sumset(st, ix, inner))
    return binder("sumset", st, ix, [body])


BINDERS.update({"map": mapt, "fmap": fmapt, "flat": flatt, "exists": exists, "first": first, "sum": summ,
                "sumset": sumset, "lam": lambda n, ix, b: binder("lam", n, ix, [b])})


# ---------------------------------------------------------------- strings
def strcat(*ps):
    out = []
    for p in ps:
        for x in (p.a if p.op == "strcat" else (p,)):
            if x.op == "c" and x.a[0] == "":
                continue
            if out and out[-1].op == "c" and x.op == "c" and isinstance(x.a[0], str) and isinstance(out[-1].a[0], str):
                out[-1] = C(out[-1].a[0] + x.a[0])
            else:
                out.append(x)
    if not out:
        return C("")
    if len(out) == 1:
        return out[0]
    r = _lift_seq(lambda *z: strcat(*z), *out)
    if r is not None:
        return r
    return mk("strcat", *out, ty="str")


CONS["strcat"] = strcat


def strof(x, spec=""):
    if x.ty == "str" and spec == "":
        return x
    if x.op == "c" and spec == "":
        v = cval(x)
        return C(str(v)) if not isn(v) else mk("strof", x, spec, ty="str")
    r = _lift(lambda z: strof(z, spec), x)
    if r is not None:
        return r
    return mk("strof", x, spec, ty="str")


CONS["strof"] = strof


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if d > 12:
        return "..."
    op = t.op
    s = lambda x: show(x, d + 1) if isinstance(x, T) else ("(" + ",".join(s(y) for y in x) + ")" if isinstance(x, tuple) else str(x))
    if op == "c":
        v = cval(t)
        return repr(v) if isinstance(v, str) else str(v)
    if op in ("sym", "idx", "obj"):
        return str(t.a[0])
    if op == "bv":
        return "#%d" % t.a[0]
    if op == "poly":
        parts = []
        for m, c in t.a[0]:
            f = "*".join(s(at) + ("" if p == 1 else "^%d" % p) for at, p in m)
            if not f:
                parts.append(str(c))
            elif c == 1:
                parts.append(f)
            elif c == -1:
                parts.append("-" + f)
            else:
                parts.append("%s*%s" % (c, f))
        return "(" + "+".join(parts).replace("+-", "-") + ")"
    if op == "le0":
        return "[%s<=0]" % s(t.a[0])
    if op == "eq0":
        return "[%s==0]" % s(t.a[0])
    if op == "eq":
        return "[%s==%s]" % (s(t.a[0]), s(t.a[1]))
    if op == "not":
        return "!" + s(t.a[0])
    if op == "and":
        return "(" + " & ".join(map(s, t.a)) + ")"
    if op == "or":
        return "(" + " | ".join(map(s, t.a)) + ")"
    if op == "ite":
        return "{%s ? %s : %s}" % tuple(map(s, t.a))
    if op == "elem":
        return "%s[%s]" % (s(t.a[0]), s(t.a[1]))
    if op == "seq":
        return "[" + ", ".join(map(s, t.a)) + "]"
    if op == "strcat":
        return "<" + "+".join(map(s, t.a)) + ">"
    return op + "(" + ", ".join(s(x) for x in t.a) + ")"
