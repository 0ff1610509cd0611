"""Normal form of numpy array expressions: spelling variants of the same array value become one term."""
from .terms import *
from . import terms as TM

SIG = {"linspace": ("start", "stop", "num"), "full": ("shape", "fill_value"), "ones": ("shape",), "zeros": ("shape",), "diff": ("a",),
       "argmax": ("a",), "sign": ("x",), "repeat": ("a", "repeats"), "tile": ("A", "reps"), "absolute": ("x",), "abs": ("x",)}
DEFAULTS = {"linspace": {"num": 50}}


def call_parts(t):
    """(name, positional args, keyword dict) of an external call term"""
    if t.op != "call":
        return None
    nm = t.a[0]
    nm = nm.a[0] if isinstance(nm, T) else nm
    pos, kw = [], {}
    for x in t.a[1:]:
        if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str):
            kw[x[0]] = x[1]
        elif isinstance(x, T) and x.op == "tuple" and len(x.a) == 2 and x.a[0].op == "c" and isinstance(x.a[0].a[0], str):
            kw[x.a[0].a[0]] = x.a[1]
        else:
            pos.append(x)
    return nm, pos, kw


def norm(t, memo=None):
    if memo is None:
        memo = {}
    if not isinstance(t, T):
        return t
    r = memo.get(t)
    if r is None:
        r = rebuild(t, lambda x: norm(x, memo))
        r = step(r)
        memo[t] = r
    return r


def ones(n):
    return mk("call", "numpy.ones", n)


def arg(nm, pos, kw, k):
    names = SIG[nm]
    i = names.index(k)
    if i < len(pos):
        return pos[i]
    return kw.get(k, C(DEFAULTS[nm][k]) if k in DEFAULTS.get(nm, {}) else None)


def step(t):
    if t.op == "res" and isinstance(t.a[1], str) and t.a[1] in ("argmax", "__abs__", "sum", "copy") and not t.a[2]:
        t = mk("call", "numpy." + {"__abs__": "abs"}.get(t.a[1], t.a[1]), t.a[0])
    cp = call_parts(t)
    if cp is not None:
        nm, pos, kw = cp
        if nm == "int" and pos and call_parts(pos[0]) and call_parts(pos[0])[0] == "numpy.argmax":
            return pos[0]
        if not isinstance(nm, str) or not nm.startswith("numpy."):
            return t
        f = nm[6:]
        if f in ("subtract", "add", "multiply", "negative") and not kw:
            if f == "subtract" and len(pos) == 2:
                return sub(*pos)
            if f == "add" and len(pos) == 2:
                return add(*pos)
            if f == "multiply" and len(pos) == 2:
                return mul(*pos)
            if f == "negative" and len(pos) == 1:
                return neg(pos[0])
        if f in ("full", "ones", "zeros", "linspace") and "dtype" in kw and is_float_type(kw["dtype"]):
            kw = {k: v for k, v in kw.items() if k != "dtype"}
        if f in ("full_like", "ones_like", "zeros_like") and pos and not kw:
            # shaped like an array of floats of known length
            q = call_parts(pos[0])
            n = arg(q[0][6:], q[1], q[2], "num" if q[0] == "numpy.linspace" else "shape") if q and q[0] in ("numpy.linspace", "numpy.ones", "numpy.zeros") else None
            if n is not None and len(pos) == (2 if f == "full_like" else 1):
                return mul(pos[1], ones(n)) if f == "full_like" else ones(n) if f == "ones_like" else mk("call", "numpy.zeros", n)
        if f not in SIG or any(k not in SIG[f] for k in kw):
            return t
        a = [arg(f, pos, kw, k) for k in SIG[f]]
        if any(x is None for x in a):
            return t
        if f in ("abs", "absolute"):
            return absn(a[0])
        if f == "full":
            return mul(a[1], ones(a[0]))
        if f in ("repeat", "tile"):
            return mul(a[0], ones(a[1]))
        if f == "diff":
            return sub(get(a[0], 1, None), get(a[0], None, -1))
        if f == "sign":
            x = a[0]
            if TM._lead(x) < 0:
                return neg(mk("call", "numpy.sign", neg(x)))
            return mk("call", "numpy.sign", x)
        return mk("call", nm, *a)
    if t.op == "get" and isinstance(t.a[1], T) and t.a[1].op == "sl":
        # a slice of the negated array is the negated slice
        p = to_poly(t.a[0])
        if len(p) == 1 and next(iter(p.values())) == -1:
            return neg(mk("get", neg(t.a[0]), t.a[1]))
    if t.op == "poly" or (t.op not in ("c", "sym") and not t.op == "call"):
        zs = [x for x in free_calls(t) if x.a[0] == "numpy.zeros"]
        if t.op == "poly" and len(zs) == 1:
            z = zs[0]
            rest = sub(t, z)
            if not contains_op(rest, ("call",)):
                return mul(rest, ones(z.a[1]))
    return t


def is_float_type(t):
    return t.op in ("ext", "c") and str(t.a[0]) in ("builtins.float", "float", "numpy.float64", "numpy.float_", "float64")


def get(x, lo, hi):
    return step(mk("get", x, mk("sl", C(lo) if lo is not None else NONE, C(hi) if hi is not None else NONE, NONE)))


def free_calls(t):
    return [x for m in to_poly(t) for x, _ in m if x.op == "call"] if t.op == "poly" else []


def unwrap_list(t):
    while t.op == "L" and len(t.a) == 1 and isinstance(t.a[0], T):
        t = t.a[0]
    if t.op == "call" and t.a[0] in ("numpy.array", "numpy.asarray") and len(t.a) == 2:
        return unwrap_list(t.a[1])
    return t


def parts(t):
    t = unwrap_list(t)
    return [unwrap_list(x) for x in t.a] if t.op in ("tuple", "seq") else None


def columns(t, P=None):
    """columns of a two dimensional array term, or None"""
    cp = call_parts(t)
    if cp is not None:
        nm, pos, kw = cp
        if nm in ("numpy.c_[]", "numpy.column_stack") and len(pos) == 1 and not kw:
            return parts(pos[0])
        if nm == "numpy.transpose" and len(pos) == 1 and not kw:
            return rows(pos[0])
        if nm == "numpy.stack" and len(pos) == 1 and (kw.get("axis") is ONE or kw.get("axis") is C(-1)):
            return parts(pos[0])
        if nm == "numpy.array" and len(pos) == 1:
            m = unwrap_list(pos[0])
            if m.op == "map":
                i = idx("row", m.a[0])
                row = parts(elem_(m, i))
                if row is not None and all(x.op == "elem" and x.a[1] is i for x in row):
                    return [x.a[0] for x in row]
        return None
    if t.op == "attr" and t.a[1] == "T":
        return rows(t.a[0])
    if t.op == "res" and t.a[1] == "transpose" and not t.a[2]:
        return rows(t.a[0])
    return None


def elem_(m, i):
    return TM.elem(m, i)


def rows(t):
    cp = call_parts(t)
    if cp is not None:
        nm, pos, kw = cp
        if nm in ("numpy.array", "numpy.asarray", "numpy.vstack", "numpy.stack", "numpy.r_[]") and len(pos) == 1 and (not kw or kw.get("axis") is ZERO):
            return parts(pos[0])
        return None
    return parts(t)
