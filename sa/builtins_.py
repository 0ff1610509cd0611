"""Models of the Python built-ins and library calls the repository (or a rewrite of it) may use."""
from .terms import *
from . import terms as TM
from .heap import *
from . import heap as H
from .loader import Class, Unsupported


def _imp():
    from . import interp
    return interp


# ---------------------------------------------------------------- methods of built-in types
def call_method(ip, o, name, args, kw, node, st):
    I = _imp()
    if o.op == "ite":
        return ip.fork(o.a[0], lambda t: call_method(ip, o.a[1], name, args, kw, node, t),
                       lambda t: call_method(ip, o.a[2], name, args, kw, node, t), None, st)
    c = cls_of(o)
    if c == "list":
        return list_method(ip, o, name, args, kw, node, st)
    if c == "set":
        return set_method(ip, o, name, args, kw, node, st)
    if c == "dict" or o.op in ("frozendict",):
        return dict_method(ip, o, name, args, kw, node, st)
    if o.op == "dkeys":
        return set_method(ip, o, name, args, kw, node, st)
    if I.is_str(o):
        return str_method(ip, o, name, args, kw, node, st)
    if I.is_seqval(o) or o.op == "tuple":
        if name == "index":
            return first_index(o, args[0], ip, st)
        if name == "count":
            n = length(o)
            t = tmpidx(n)
            return summ(n, t, ite(eq(elem(o, t), args[0]), ONE, ZERO))
    return ip.opaque_call(o, name, args, kw, node, st)


def first_index(s, x, ip, st):
    n = length(s)
    t = tmpidx(n)
    return first(n, t, ip.equal(elem(s, t), x, st, None))


def list_method(ip, o, name, args, kw, node, st):
    s = ip.get(st, o, "$c")
    if name == "append":
        ip.mutate(st, o, cat(s, seq(args[0])), "append", args, node)
        return NONE
    if name == "extend":
        v = ip.as_seq(args[0], st, node)
        ip.mutate(st, o, cat(s, v), "extend", (args[0], v), node)
        return NONE
    if name == "insert":
        i, x = args
        if i is ZERO:
            ip.mutate(st, o, cat(seq(x), s), "insert", (i, x), node)
        else:
            ip.mutate(st, o, cat(ip.slice(s, ZERO, i), seq(x), ip.slice(s, i, length(s))), "insert", (i, x), node)
        return NONE
    if name == "remove":
        ip.mutate(st, o, remove(s, args[0]), "remove", (args[0],), node)
        return NONE
    if name == "pop":
        i = args[0] if args else C(-1)
        n = length(s)
        if is_num(i) and i.a[0] < 0:
            v = elem(s, i)
            i = add(n, i)
        else:
            v = elem(s, i)
        ip.mutate(st, o, ip.del_index(s, i), "pop", (i, v), node)
        return v
    if name == "clear":
        ip.mutate(st, o, seq(), "clear", (), node)
        return NONE
    if name == "copy":
        return ip.new_list(s, node, st)
    if name == "index":
        return first_index(s, args[0], ip, st)
    if name == "count":
        n = length(s)
        t = tmpidx(n)
        return summ(n, t, ite(eq(elem(s, t), args[0]), ONE, ZERO))
    if name == "sort":
        ip.mutate(st, o, sorted_(ip, s, kw, st, node), "sort", (), node)
        return NONE
    if name == "reverse":
        I = _imp()
        ip.mutate(st, o, I.rev(s), "reverse", (), node)
        return NONE
    if name == "__len__":
        return length(s)
    if name == "__contains__":
        return ip.contains(args[0], o, st, node)
    if name == "__getitem__":
        return ip.getitem(o, args[0], st, node)
    raise ip.err("list method %s" % name, node)


def set_method(ip, o, name, args, kw, node, st):
    I = _imp()
    s = setof(I.dkeys(o.a[0])) if o.op == "dkeys" else ip.get(st, o, "$c")
    if name == "add":
        ip.mutate(st, o, ip.set_union(s, seq(args[0])), "add", args, node)
        return NONE
    if name == "update":
        for a in args:
            s = ip.get(st, o, "$c")
            ip.mutate(st, o, ip.set_union(s, ip.as_seq(a, st, node)), "update", (a,), node)
        return NONE
    if name in ("discard", "remove"):
        ip.mutate(st, o, ip.set_diff(s, seq(args[0])), "remove", args, node)
        return NONE
    if name == "clear":
        ip.mutate(st, o, setof(seq()), "clear", (), node)
        return NONE
    if name == "copy":
        return ip.new_list(s, node, st, cls="set")
    if name == "union":
        for a in args:
            s = ip.set_union(s, ip.as_seq(a, st, node))
        return ip.new_list(s, node, st, cls="set")
    if name == "difference":
        for a in args:
            s = ip.set_diff(s, ip.as_seq(a, st, node))
        return ip.new_list(s, node, st, cls="set")
    if name == "intersection":
        for a in args:
            s = ip.set_inter(s, ip.as_seq(a, st, node))
        return ip.new_list(s, node, st, cls="set")
    if name in ("issubset", "issuperset", "isdisjoint"):
        q = ip.as_seq(args[0], st, node)
        a, b = (aslist(s), q) if name != "issuperset" else (q, aslist(s))
        n = length(a)
        t = tmpidx(n)
        m = I.member(elem(a, t), b)
        return forall(n, t, neg_b(m) if name == "isdisjoint" else m)
    if name == "pop":
        v = elem(aslist(s), ZERO)
        ip.mutate(st, o, ip.set_diff(s, seq(v)), "pop", (v,), node)
        return v
    if name == "__len__":
        return length(aslist(s))
    raise ip.err("set method %s" % name, node)


def dict_method(ip, o, name, args, kw, node, st):
    I = _imp()
    d = ip.dict_term(o, st, node)
    if name == "keys":
        return mk("dkeys", d, ty="seq")
    if name == "values":
        return I.dvalues(d)
    if name == "items":
        return I.ditems(d)
    if name == "get":
        df = args[1] if len(args) > 1 else kw.get("default", NONE)
        h = I.dhas(d, args[0])
        if h is TRUE:
            return I.dget(d, args[0])
        if h is FALSE:
            return df
        return ite(h, I.dget(d, args[0]), df)
    if name == "__contains__":
        return I.dhas(d, args[0])
    if name == "copy":
        a = ip.alloc("dict", node, st)
        ip.put(st, a, "$d", d)
        return a
    if name == "update":
        for a in args:
            od = ip.dict_term(a, st, node) if cls_of(a) == "dict" else None
            if od is None or od.op != "dict":
                d = mk("dupdate", d, a)
                continue
            for k, v in od.a:
                d = I.dput(d, k, v)
        for k, v in kw.items():
            d = I.dput(d, C(k), v)
        ip.mutate_d(st, o, d, "update", tuple(args), node)
        return NONE
    if name == "setdefault":
        h = I.dhas(d, args[0])
        v = ite(h, I.dget(d, args[0]), args[1]) if h not in (TRUE, FALSE) else (I.dget(d, args[0]) if h is TRUE else args[1])
        ip.mutate_d(st, o, I.dput(d, args[0], v), "setdefault", tuple(args), node)
        return v
    if name == "pop":
        df = args[1] if len(args) > 1 else None
        h = I.dhas(d, args[0])
        v = I.dget(d, args[0]) if h is TRUE or df is None else (df if h is FALSE else ite(h, I.dget(d, args[0]), df))
        if d.op == "dict" and args[0].op == "c":
            nd = mk("dict", *[z for z in d.a if z[0] is not args[0]])
        else:
            nd = mk("ddel", d, args[0])
        ip.mutate_d(st, o, nd, "pop", tuple(args), node)
        return v
    if name == "__str__" or name == "__repr__":
        return mk("strof", d, "", ty="str")
    if name == "__len__":
        return C(len(d.a)) if d.op == "dict" else length(d.a[0]) if d.op == "dictby" else mk("dlen", d, ty="int")
    if name == "clear":
        ip.mutate_d(st, o, mk("dict"), "clear", (), node)
        return NONE
    raise ip.err("dict method %s" % name, node)


def str_method(ip, o, name, args, kw, node, st):
    if name == "format":
        return fmt(ip, o, args, kw, st, node)
    if name == "join":
        s = ip.as_seq(args[0], st, node)
        if s.op in ("seq", "tuple"):
            out = []
            for i, x in enumerate(s.a):
                if i:
                    out.append(o)
                out.append(x)
            return strcat(*out) if out else C("")
        return mk("strjoin", o, s, ty="str")
    if o.op == "c" and all(a.op == "c" for a in args) and name in ("upper", "lower", "strip", "replace", "lstrip", "rstrip", "title", "capitalize",
                                                                     "startswith", "endswith", "zfill", "find", "count", "isdigit"):
        try:
            return C(getattr(o.a[0], name)(*[cval(a) for a in args]))
        except Exception:
            pass
    if name in ("startswith", "endswith", "isdigit", "isalpha", "__contains__"):
        return mk("strm", name, o, *args, ty="bool")
    if name in ("find", "count", "index", "__len__"):
        return mk("strm", name, o, *args, ty="int")
    if name in ("split", "splitlines", "partition"):
        if o.op == "c" and all(a.op == "c" for a in args):
            return ip.new_list(seq(*[C(x) for x in o.a[0].split(*[a.a[0] for a in args])]), node, st)
        return ip.new_list(mk("strm", name, o, *args, ty="seq"), node, st)
    if name == "__str__":
        return o
    return mk("strm", name, o, *args, ty="str")


def fmt(ip, o, args, kw, st, node):
    if o.op != "c":
        return mk("strm", "format", o, *[ip.deep(a, st) for a in args], ty="str")
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(o.a[0]):
        if lit:
            out.append(C(lit))
        if field is None:
            continue
        if field == "":
            x = args[auto]
            auto += 1
        elif field.isdigit():
            x = args[int(field)]
        elif field in kw:
            x = kw[field]
        else:
            x = mk("opaque", "fmt", field)
        out.append(strof(x, spec) if spec else ip.to_str(x, st, node))
    return strcat(*out)


def sorted_(ip, s, kw, st, node):
    rv = kw.get("reverse", FALSE)
    key = kw.get("key", NONE)
    k = NONE
    if key is not NONE:
        n = length(s)
        t = tmpidx(n)
        k = binder("lam", n, t, [ip.call(key, [elem(s, t)], {}, node, st)])
    if k is NONE and s.op == "seq" and all(is_num(x) for x in s.a):
        xs = sorted(s.a, key=lambda x: x.a[0], reverse=bool(rv is TRUE))
        return seq(*xs)
    return mk("sorted", s, k, rv, ty="seq")


# ---------------------------------------------------------------- builtins
def call_ext(ip, dotted, args, kw, node, st, env):
    I = _imp()
    if dotted.startswith("builtins."):
        return builtin(ip, dotted[9:], args, kw, node, st, env)
    d = canon(dotted)
    if d in EXACT:
        return EXACT[d](ip, args, kw, node, st)
    if any(d.startswith(x) for x in I.IGNORED_EXT) and d not in ("logging.basicConfig", "logging.FileHandler"):
        return NONE
    if d.startswith("random."):
        return rng(ip, d, args, kw, node, st)
    if d.startswith("numpy.random"):
        ip.ev_add("rng", (d, tuple(args)), st, node)
        return mk("rngval", d, ip.lkey(node), *[l[0] for l in ip.loops], ty="any")
    if d.startswith(AMBIENT):
        ip.ev_add("ambient", (d, tuple(args)), st, node)
        stamp = () if d.startswith(STEADY) else (mk("at", ip.lkey(node), *[l[0] for l in ip.loops], ty="any"),)     # each reading differs
        return mk("call", d, *[ip.deep(a, st) for a in args], *stamp, ty=AMB_TY.get(d, "any"))
    if any(d.startswith(x) for x in I.PURE_EXT) and not any(d.startswith(x) for x in I.IMPURE_NP):
        return pure(ip, d, args, kw, node, st)
    # effects on the outside world
    key = [l[0] for l in ip.loops]
    dargs = tuple(ip.deep(a, st) for a in args)
    dkw = tuple(sorted((k, ip.deep(v, st)) for k, v in kw.items()))
    r = mk("ext_", d, dargs, dkw, ip.lkey(node), *key, ty="any")
    ip.ev_add("ext", (d, dargs, dkw, r, tuple(args), dict(kw)), st, node)
    return r


AMBIENT = ("time.time", "time.perf_counter", "time.monotonic", "datetime.datetime.now", "datetime.now", "datetime.datetime.today", "datetime.date.today",
           "os.getpid", "os.urandom", "uuid.", "socket.", "os.environ", "secrets.", "threading.get_ident", "os.getenv", "time.strftime", "time.process_time",
           "time.clock", "os.cpu_count", "multiprocessing.cpu_count", "time.ctime", "time.localtime")
AMB_TY = {"time.time": "float", "time.perf_counter": "float", "time.monotonic": "float", "os.getpid": "int"}
STEADY = ("os.getpid", "os.environ", "os.getenv", "os.cpu_count", "multiprocessing.cpu_count", "threading.get_ident", "socket.")
ALIASES = {"np": "numpy"}


def canon(d):
    head, _, rest = d.partition(".")
    if head in ALIASES:
        d = ALIASES[head] + "." + rest
    if d.startswith("multiprocessing.process.Process"):
        d = "multiprocessing.Process"
    if d.startswith("multiprocessing.context.Process"):
        d = "multiprocessing.Process"
    return d


def pure(ip, d, args, kw, node, st):
    if d in ("math.log", "numpy.log", "math.log1p", "math.sqrt", "math.exp", "numpy.sqrt", "numpy.exp", "math.log2", "math.log10", "numpy.log2"):
        nm = d.split(".")[1]
        if len(args) == 2 and nm == "log":
            return tdiv(mk("call", "log", args[0], ty="float"), mk("call", "log", args[1], ty="float"))
        x = args[0]
        return TM._lift(lambda z: mk("call", nm, z, ty="float"), x) or mk("call", nm, x, ty="float")
    if d in ("math.floor", "math.ceil", "math.trunc"):
        x = args[0]
        if is_int(x):
            return x
        if d == "math.floor":
            r = rational_floor(x) if float_exact(x) else None
            if r is not None:
                return r
        return mk("call", d, x, ty="int")
    if d in ("math.fabs", "numpy.abs", "numpy.absolute"):
        return absn(args[0])
    if d == "math.pow":
        return powt(args[0], args[1])
    if d in ("numpy.array", "numpy.asarray", "numpy.asanyarray"):
        return mk("call", "numpy.array", ip.deep(args[0], st), ty="any")
    if d in ("copy.copy", "copy.deepcopy"):
        x = args[0]
        if cls_of(x) == "list":
            return ip.new_list(ip.get(st, x, "$c"), node, st)
        if cls_of(x) == "set":
            return ip.new_list(ip.get(st, x, "$c"), node, st, cls="set")
        if cls_of(x) == "dict":
            a = ip.alloc("dict", node, st)
            ip.put(st, a, "$d", ip.get(st, x, "$d"))
            return a
        if cls_of(x) is None:
            return x
        raise ip.err("copy of an object", node)
    if d == "os.path.join":
        out = []
        for i, a in enumerate(args):
            if i and not (out and out[-1].op == "c" and str(out[-1].a[0]).endswith("/")):
                out.append(C("/"))
            out.append(a)
        return strcat(*out)
    if d in ("itertools.chain",):
        return cat(*[ip.as_seq(a, st, node) for a in args])
    if d in ("itertools.chain.from_iterable",):
        s = ip.as_seq(args[0], st, node)
        n = length(s)
        t = tmpidx(n)
        return flatt(n, t, ip.as_seq(elem(s, t), st, node)) if s.op != "seq" else cat(*[ip.as_seq(x, st, node) for x in s.a])
    if d == "itertools.product" and len(args) == 2 and not kw:
        a, b = ip.as_seq(args[0], st, node), ip.as_seq(args[1], st, node)
        n, m = length(a), length(b)
        t = tmpidx(n)
        u = tmpidx(m)
        return flatt(n, t, mapt(m, u, tup(elem(a, t), elem(b, u))))
    if d == "functools.partial":
        return mk("partial", args[0], tuple(args[1:]), tuple(sorted(kw.items())))
    if d == "functools.reduce":
        return reduce_(ip, args, node, st, env)
    if d in ("builtins.dict.fromkeys", "collections.OrderedDict.fromkeys"):
        a = ip.alloc("dict", node, st)
        ip.put(st, a, "$d", table_of(ip, [(ip.as_seq(args[0], st, node), args[1] if len(args) > 1 else NONE)], st, node))
        return a
    if d.startswith("operator.") and d[9:] in OPERATOR:
        import ast
        return ip.binop(OPERATOR[d[9:]], args[0], args[1], st, node) if not d[9:] in ("eq", "ne", "lt", "le", "gt", "ge") else ip.compare(OPERATOR[d[9:]], args[0], args[1], st, node)
    if d == "collections.OrderedDict" or d == "collections.defaultdict":
        a = ip.alloc("dict", node, st)
        ip.put(st, a, "$d", mk("dict"))
        return a
    if d == "collections.deque":
        return ip.new_list(ip.as_seq(args[0], st, node) if args else seq(), node, st)
    return mk("call", d, *[ip.deep(a, st) for a in args], *[tup(C(k), ip.deep(v, st)) for k, v in sorted(kw.items())], ty="any")


import ast as _ast
OPERATOR = {"add": _ast.Add(), "sub": _ast.Sub(), "mul": _ast.Mult(), "floordiv": _ast.FloorDiv(), "truediv": _ast.Div(), "mod": _ast.Mod(),
            "eq": _ast.Eq(), "ne": _ast.NotEq(), "lt": _ast.Lt(), "le": _ast.LtE(), "gt": _ast.Gt(), "ge": _ast.GtE()}


def rational_floor(x):
    """floor of a polynomial divided by a monomial"""
    p = to_poly(x)
    if not p:
        return ZERO
    den = {}
    for m, c in p.items():
        for at, pw in m:
            if pw < 0:
                den[at] = max(den.get(at, 0), -pw)
    d = ONE
    for at, pw in den.items():
        d = mul(d, powt(at, C(pw)))
    q = 1
    from math import lcm
    for c in p.values():
        q = lcm(q, c.denominator)
    nnum = scale(mul(x, d), q)
    dd = scale(d, q)
    if is_int(nnum) and is_int(dd) and positive(dd):
        return fdiv(nnum, dd)
    return None


def rng(ip, d, args, kw, node, st):
    key = (ip.lkey(node),) + tuple(l[0] for l in ip.loops)
    if d == "random.seed":
        ip.ev_add("seed", tuple(args), st, node)
        return NONE
    if d in ("random.Random", "random.SystemRandom"):
        ip.ev_add("newrng", (d,) + tuple(args), st, node)
        return mk("rngobj", d, *args, ty="any")
    e = ip.ev_add("rng", (d, tuple(args)), st, node)
    if d == "random.randint":
        return mk("randint", args[0], args[1], *key, ty="int")
    if d == "random.randrange":
        lo, hi = (ZERO, args[0]) if len(args) == 1 else args[:2]
        return mk("randint", lo, sub(hi, ONE), *key, ty="int")
    if d == "random.choice":
        s = ip.as_seq(args[0], st, node)
        return elem(s, mk("randint", ZERO, sub(length(s), ONE), *key, ty="int"))
    if d == "random.shuffle":
        s = ip.get(st, args[0], "$c")
        ip.mutate(st, args[0], mk("perm", s, *key, ty="seq"), "shuffle", (), node)
        return NONE
    if d == "random.sample":
        s = ip.as_seq(args[0], st, node)
        k = args[1] if len(args) > 1 else kw["k"]
        if k is length(s):
            return ip.new_list(mk("perm", s, *key, ty="seq"), node, st)
        return ip.new_list(mk("sample", s, k, *key, ty="seq"), node, st)
    if d in ("random.random", "random.uniform"):
        return mk("rngval", d, *key, ty="float")
    return mk("rngval", d, *key, ty="any")


def builtin(ip, name, args, kw, node, st, env):
    I = _imp()
    if name in ("print", "input", "help"):
        return NONE
    if name == "len":
        x = args[0]
        c = cls_of(x)
        if c in ("list",):
            return length(ip.get(st, x, "$c"))
        if c == "set":
            return length(aslist(ip.get(st, x, "$c")))
        if c == "dict" or x.op in ("frozendict",):
            d = ip.dict_term(x, st, node)
            return C(len(d.a)) if d.op == "dict" else length(d.a[0]) if d.op == "dictby" else mk("dlen", d, ty="int")
        if isinstance(c, Class):
            f = c.find("__len__")
            if f is None:
                raise ip.err("len of %s" % c.name, node)
            return ip.call_func(f, [x], {}, node, st)
        if x.op == "ite":
            return ite(x.a[0], builtin(ip, name, [x.a[1]], kw, node, st, env), builtin(ip, name, [x.a[2]], kw, node, st, env))
        if I.is_seqval(x) or x.op == "tuple" or I.is_str(x) and x.op == "c":
            return length(x)
        if x.op in ("sym", "res", "get", "attr", "call", "sel", "elem"):
            try:
                return length(ip.as_seq(x, st, node))
            except Unsupported:
                pass
        return mk("len", x, ty="int")
    if name == "range":
        lo, hi, step = ZERO, None, ONE
        if len(args) == 1:
            hi = args[0]
        elif len(args) >= 2:
            lo, hi = args[0], args[1]
            if len(args) == 3:
                step = args[2]
        n = sub(hi, lo)
        if step is not ONE:
            if step is C(-1):
                n = sub(lo, hi)
            elif is_num(step) and step.a[0] > 0:
                n = fdiv(add(n, sub(step, ONE)), step)
            elif is_num(step):
                n = fdiv(add(sub(lo, hi), sub(neg(step), ONE)), neg(step))
            else:
                q, r = TM._split(n, step)
                n = q if r is ZERO else mk("call", "rangelen", lo, hi, step, ty="int")
        if not nonneg(n):
            n = minmax("max", [n, ZERO])
        t = tmpidx(n)
        return mapt(n, t, add(lo, mul(t, step)))
    if name in ("int", "float"):
        if not args:
            return ZERO
        x = args[0]
        if name == "float":
            return mk("call", "float", x, ty="float") if I.is_str(x) or not is_numeric(x) else x
        return to_int(x)
    if name == "bool":
        return ip.truth(args[0], st, node) if args else FALSE
    if name == "str" or name == "repr":
        return ip.to_str(args[0], st, node) if args else C("")
    if name == "format":
        return strof(args[0], args[1].a[0] if len(args) > 1 and args[1].op == "c" else "")
    if name == "abs":
        x = args[0]
        if isinstance(cls_of(x), Class):
            return ip.call_func(cls_of(x).find("__abs__"), [x], {}, node, st)
        return absn(x)
    if name in ("max", "min"):
        return maxmin(ip, name, args, kw, node, st, env)
    if name == "sum":
        s = ip.as_seq(args[0], st, node)
        start = args[1] if len(args) > 1 else kw.get("start", ZERO)
        return add(start, sum_seq(ip, s, st, node))
    if name in ("any", "all"):
        s = ip.as_seq(args[0], st, node)
        return quant(ip, name, s, st, node)
    if name == "sorted":
        return ip.new_list(sorted_(ip, ip.as_seq(args[0], st, node), kw, st, node), node, st)
    if name == "reversed":
        return I.rev(ip.as_seq(args[0], st, node))
    if name == "enumerate":
        s = ip.as_seq(args[0], st, node)
        start = args[1] if len(args) > 1 else kw.get("start", ZERO)
        if s.op in ("seq", "tuple"):
            return seq(*[tup(add(start, C(i)), x) for i, x in enumerate(s.a)])
        n = length(s)
        t = tmpidx(n)
        return mapt(n, t, tup(add(start, t), elem(s, t)))
    if name == "zip":
        ss = [ip.as_seq(a, st, node) for a in args]
        if all(s.op in ("seq", "tuple") for s in ss):
            return seq(*[tup(*xs) for xs in zip(*[s.a for s in ss])])
        n = minmax("min", [length(s) for s in ss]) if len(ss) > 1 else length(ss[0])
        t = tmpidx(n)
        return mapt(n, t, tup(*[elem(s, t) for s in ss]))
    if name in ("map", "filter"):
        f = args[0]
        ss = [ip.as_seq(a, st, node) for a in args[1:]]
        return map_filter(ip, name, f, ss, node, st)
    if name in ("list", "tuple"):
        if not args:
            return ip.new_list(seq(), node, st) if name == "list" else tup()
        s = ip.as_seq(args[0], st, node)
        if name == "list":
            return ip.new_list(s if s.op != "tuple" else seq(*s.a), node, st)
        return tup(*s.a) if s.op == "seq" else s
    if name in ("set", "frozenset"):
        s = ip.as_seq(args[0], st, node) if args else seq()
        return ip.new_list(setof(s if s.op != "tuple" else seq(*s.a)), node, st, cls="set")
    if name == "dict":
        a = ip.alloc("dict", node, st)
        d = mk("dict")
        if args:
            if cls_of(args[0]) == "dict":
                d = ip.get(st, args[0], "$d")
            else:
                s = ip.as_seq(args[0], st, node)
                if s.op != "seq":
                    if kw:
                        raise ip.err("dict() of a computed sequence with further keys", node)
                    d = table_of(ip, [(s, None)], st, node)
                else:
                    for x in s.a:
                        k, v = ip.split(x, 2, st, node)
                        d = I.dput(d, k, v)
        for k, v in kw.items():
            d = I.dput(d, C(k), v)
        ip.put(st, a, "$d", d)
        return a
    if name == "type":
        x = args[0]
        c = cls_of(x)
        if isinstance(c, Class) and not maybe_none(x):
            return mk("cls", c)
        return mk("typeof", x)
    if name == "isinstance":
        return isinst(ip, args[0], args[1], st)
    if name == "issubclass":
        if args[0].op == "cls" and args[1].op == "cls":
            return C(args[0].a[0].issub(args[1].a[0]))
        return mk("call", "issubclass", *args, ty="bool")
    if name == "divmod":
        return tup(fdiv(args[0], args[1]), mod(args[0], args[1]))
    if name == "round":
        if is_int(args[0]):
            return args[0]
        return mk("call", "round", *args, ty="int" if len(args) == 1 else "float")
    if name == "pow":
        return powt(args[0], args[1]) if len(args) == 2 else mod(powt(args[0], args[1]), args[2])
    if name == "next":
        s = ip.as_seq(args[0], st, node)
        df = args[1] if len(args) > 1 else None
        if s.op == "fmap":
            n = s.a[0]
            t = tmpidx(n)
            c, b = opened(s, t)
            m = first(n, t, c)
            v = subst(b, {t: m})
            return ite(exists(n, t, c), v, df) if df is not None else v
        v = elem(s, ZERO)
        return ite(lt(ZERO, length(s)), v, df) if df is not None else v
    if name == "iter":
        return ip.as_seq(args[0], st, node)
    if name == "open":
        mode = args[1] if len(args) > 1 else kw.get("mode", C("r"))
        key = [l[0] for l in ip.loops]
        r = mk("ext_", "open", tuple(ip.deep(a, st) for a in args), (), ip.lkey(node), *key, ty="any")
        ip.ev_add("ext", ("open", tuple(ip.deep(a, st) for a in args), tuple(kw.items()), r, tuple(args), dict(kw)), st, node)
        return r
    if name in ("getattr", "setattr", "hasattr"):
        if args[1].op != "c":
            raise ip.err("%s with a computed name" % name, node)
        if name == "getattr":
            return ip.getattr(args[0], args[1].a[0], st, node)
        if name == "setattr":
            ip.setattr(args[0], args[1].a[0], args[2], st, node)
            return NONE
        c = cls_of(args[0])
        if isinstance(c, Class):
            if c.find(args[1].a[0]) or (args[0], args[1].a[0]) in st.cells:
                return TRUE
        return mk("call", "hasattr", args[0], args[1], ty="bool")
    if name in ("id", "hash"):
        if name == "id" or not is_numeric(args[0]):
            ip.ev_add("ambient", (name, tuple(args)), st, node)
        return mk("call", name, args[0], ty="int")
    if name == "callable":
        return mk("call", name, args[0], ty="bool")
    if name == "object" or name == "object.__init__":
        return NONE
    if name in ("exit", "quit"):
        ip.ev_add("raise", ("exit",), st, node)
        return NONE
    if name == "slice":
        return mk("sl", *(list(args) + [NONE] * (3 - len(args)) if len(args) != 1 else [NONE, args[0], NONE]))
    if name in ("ord", "chr", "dir", "vars"):
        return mk("call", name, *args, ty="any")
    if name.endswith("Error") or name in ("Exception", "StopIteration", "NotImplementedError"):
        return mk("opaque", "exception", name)
    raise ip.err("builtin %s" % name, node)


def to_int(x):
    if is_int(x):
        return x
    if x.op == "ite":
        return ite(x.a[0], to_int(x.a[1]), to_int(x.a[2]))
    if is_num(x):
        return C(int(x.a[0]))
    if x.op == "poly" and float_exact(x):
        r = rational_floor(x)
        if r is not None and (nonneg(x) or nonneg(r)):
            return r
    return mk("call", "int", x, ty="int")


def float_exact(x):
    """only divisions by powers of two: no rounding happens before the truncation"""
    for m, c in to_poly(x).items():
        d = getattr(c, "denominator", 1)
        if d & (d - 1) or any(e < 0 or not is_int(t) for t, e in m):
            return False
    return True


def sum_seq(ip, s, st, node):
    if s.op == "ite":
        return ite(s.a[0], sum_seq(ip, s.a[1], st, node), sum_seq(ip, s.a[2], st, node))
    if s.op in ("seq", "tuple"):
        return add(ZERO, *[truthnum(x) for x in s.a])
    if s.op == "cat":
        return add(*[sum_seq(ip, x, st, node) for x in s.a])
    if s.op == "fmap":
        t = tmpidx(s.a[0])
        c, b = opened(s, t)
        return summ(s.a[0], t, ite(c, truthnum(b), ZERO))
    if s.op == "flat":
        t = tmpidx(s.a[0])
        b, = opened(s, t)
        return summ(s.a[0], t, sum_seq(ip, b, st, node))
    n = length(s)
    t = tmpidx(n)
    return summ(n, t, truthnum(elem(s, t)))


def truthnum(x):
    if x.ty == "bool" and x.op != "c" or is_boolish(x) and x.op != "c":
        return ite(x, ONE, ZERO)
    if x is TRUE:
        return ONE
    if x is FALSE:
        return ZERO
    return x


def quant(ip, name, s, st, node):
    if s.op == "ite":
        return ite(s.a[0], quant(ip, name, s.a[1], st, node), quant(ip, name, s.a[2], st, node))
    if s.op in ("seq", "tuple"):
        f = or_ if name == "any" else and_
        return f(*[ip.truth(x, st, node) for x in s.a])
    if s.op == "cat":
        f = or_ if name == "any" else and_
        return f(*[quant(ip, name, x, st, node) for x in s.a])
    if s.op == "fmap":
        t = tmpidx(s.a[0])
        c, b = opened(s, t)
        p = ip.truth(b, st, node)
        return exists(s.a[0], t, and_(c, p)) if name == "any" else forall(s.a[0], t, or_(neg_b(c), p))
    if s.op == "flat":
        t = tmpidx(s.a[0])
        b, = opened(s, t)
        q = quant(ip, name, b, st, node)
        return exists(s.a[0], t, q) if name == "any" else forall(s.a[0], t, q)
    n = length(s)
    t = tmpidx(n)
    p = ip.truth(elem(s, t), st, node)
    return exists(n, t, p) if name == "any" else forall(n, t, p)


def extreme_by(ip, name, s, key, node, st, env):
    """max/min by a key as the loop it is: the first of equals wins, seen from the other end the last"""
    I = _imp()
    last = s.op == "rev"
    if last:
        s = s.a[0]
    e = I.Env(env.module, env)
    e.func = env.func
    one = elem(s, ZERO)
    e.vars["$best"] = one
    e.vars["$key"] = ip.call(key, [one], {}, node, st)

    def body(e1, t1, k, val):
        size = ip.call(key, [val], {}, node, t1)
        old = e1.vars["$key"]
        if name == "max":
            c = le(old, size) if last else lt(old, size)
        else:
            c = le(size, old) if last else lt(size, old)
        e1.vars["$best"] = ite(c, val, e1.vars["$best"])
        e1.vars["$key"] = ite(c, size, old)
        return ip.nxt(e1, t1)
    outs = ip.iterate(s, {"$best", "$key"}, body, e, st, node, "m")
    o = ip.merge([o for o in outs if o.kind == "next"], "next")
    st.become(o.st)
    return o.env.vars["$best"]


def maxmin(ip, name, args, kw, node, st, env):
    key = kw.get("key", NONE)
    if len(args) == 1:
        s = ip.as_seq(args[0], st, node)
        if s.op in ("seq", "tuple") and key is NONE and s.a:
            return minmax(name, list(s.a))
        k = NONE
        if key is not NONE and kw.get("default") is None and s.op not in ("seq", "tuple"):
            return extreme_by(ip, name, s, key, node, st, env)
        if key is not NONE:
            n = length(s)
            t = tmpidx(n)
            k = binder("lam", n, t, [ip.call(key, [elem(s, t)], {}, node, st)])
        r = mk("best", name, s, k, kw.get("default", NONE), ty=elem_ty(s))
        return r
    if key is not NONE:
        return mk("best", name, seq(*args), binder("lam", C(len(args)), (t := tmpidx(C(len(args)))), [ip.call(key, [elem(seq(*args), t)], {}, node, st)]), NONE, ty=args[0].ty)
    return minmax(name, list(args))


def table_of(ip, parts, st, node):
    """the dictionary built from a sequence of keys (with one value for all) or of pairs"""
    I = _imp()
    s, val = parts[0]
    if s.op in ("seq", "tuple"):
        d = mk("dict")
        for x in s.a:
            k, v = (x, val) if val is not None else ip.split(x, 2, st, node)
            d = I.dput(d, k, v)
        return d
    n = length(s)
    t = tmpidx(n)
    k, v = (elem(s, t), val) if val is not None else ip.split(elem(s, t), 2, st, node)
    base = mapt(n, t, v)
    keys = TM.distinct(mapt(n, t, k))
    return mk("dictby", keys, mk("lastby", keys, base, ty="seq"), binder("lam", n, t, [tup(k, v)]), ty="dictval")


def reduce_(ip, args, node, st, env):
    """functools.reduce as the loop it is"""
    I = _imp()
    f, s = args[0], ip.as_seq(args[1], st, node)
    if len(args) > 2:
        acc = args[2]
    else:
        if s.op in ("seq", "tuple"):
            acc, s = s.a[0], seq(*s.a[1:])
        else:
            n = sub(length(s), ONE)
            t = tmpidx(n)
            acc, s = elem(s, ZERO), mapt(n, t, elem(s, add(t, ONE)))
    e = I.Env(env.module, env)
    e.func = env.func
    e.vars["$acc"] = acc

    def body(e1, t1, k, val):
        e1.vars["$acc"] = ip.call(f, [e1.vars["$acc"], val], {}, node, t1, e1)
        return ip.nxt(e1, t1)
    outs = ip.iterate(s, {"$acc"}, body, e, st, node, "c")
    o = ip.merge([o for o in outs if o.kind == "next"], "next")
    st.become(o.st)
    return o.env.vars["$acc"]


def map_filter(ip, name, f, ss, node, st):
    """only for functions without side effects on the analysed state"""
    cells, mems = dict(st.cells), dict(st.mems)
    if all(s.op in ("seq", "tuple") for s in ss):
        out = []
        for xs in zip(*[s.a for s in ss]):
            if name == "map":
                out.append(seq(ip.call(f, list(xs), {}, node, st)))
            else:
                c = ip.truth(ip.call(f, list(xs), {}, node, st) if f is not NONE else xs[0], st, node)
                out.append(ite(c, seq(xs[0]), seq()))
        return cat(*out) if out else seq()
    n = minmax("min", [length(s) for s in ss]) if len(ss) > 1 else length(ss[0])
    t = tmpidx(n)
    ip.loops.append((t, n, "map%d" % id(node)))
    try:
        if name == "map":
            v = ip.call(f, [elem(s, t) for s in ss], {}, node, st)
            r = mapt(n, t, v)
        else:
            x = elem(ss[0], t)
            c = ip.truth(ip.call(f, [x], {}, node, st) if f is not NONE else x, st, node)
            r = ip.filter_seq(ss[0], lambda y: subst(c, {t: y}) if y is not x else c) if False else fmapt(n, t, c, x)
    finally:
        ip.loops.pop()
    for k, v in st.cells.items():
        if k in cells and cells[k] is not v:
            raise ip.err("side effect inside map/filter", node)
    for k, v in st.mems.items():
        if mems.get(k) is not v and not k.startswith("$"):
            if mems.get(k) is not None:
                raise ip.err("side effect inside map/filter", node)
    return r


TYNAMES = {"int": "int", "float": "float", "str": "str", "list": "list", "set": "set", "dict": "dict", "tuple": "tuple", "bool": "bool"}


def isinst(ip, x, c, st):
    if c.op in ("tuple",):
        return or_(*[isinst(ip, x, k, st) for k in c.a])
    if x.op == "ite":
        return ite(x.a[0], isinst(ip, x.a[1], c, st), isinst(ip, x.a[2], c, st))
    xc = cls_of(x)
    t = ip.types_of(x)
    if c.op == "cls":
        if isinstance(xc, Class):
            r = C(xc.issub(c.a[0]))
            if maybe_none(x):
                return and_(neg_b(eq(x, NONE)), r)
            return r
        if t is not None:
            return FALSE
        return mk("call", "isinstance", x, c, ty="bool")
    if c.op == "ext":
        nm = c.a[0].split(".")[-1]
        if isinstance(xc, Class):
            return FALSE if nm in TYNAMES else mk("call", "isinstance", x, c, ty="bool")
        if xc in ("list", "set", "dict"):
            return C(xc == nm)
        if t is not None:
            if isinstance(t, Class):
                return FALSE
            return C(t == nm or (nm == "int" and t == "bool") or (nm in ("Number", "Real") and t in ("int", "float")) or (nm == "Integral" and t == "int"))
    return mk("call", "isinstance", x, c, ty="bool")


def _makedirs(ip, args, kw, node, st):
    dargs = tuple(ip.deep(a, st) for a in args)
    dkw = tuple(sorted((k, ip.deep(v, st)) for k, v in kw.items()))
    r = NONE
    ip.ev_add("ext", ("os.makedirs", dargs, dkw, r, tuple(args), dict(kw)), st, node)
    return r


EXACT = {"os.makedirs": _makedirs}
