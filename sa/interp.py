"""Abstract interpreter: evaluates Python syntax over the value-graph domain.

Branches are joined by gated values, loops are summarised by closed forms of their transfer function,
calls are resolved per concrete class and inlined.  Nothing of the repository is executed.
"""
import ast
from fractions import Fraction
from .terms import *
from . import terms as TM
from .heap import *
from . import heap as H
from .loader import Program, Func, Class, Unsupported, Missing

MAXDEPTH = 60
UNROLL = 6
GLABELS = {}
GIDXS = {}


class EnumVal(tuple):
    __slots__ = ()

    def __repr__(self):
        return "%s.%s" % (self[0], self[1])


class Ev:
    __slots__ = ("kind", "a", "guard", "loops", "seq", "node", "fn", "cs", "st", "pos")

    def __init__(self, kind, a, guard, loops, seq, node, fn, cs):
        self.kind, self.a, self.guard, self.loops, self.seq, self.node, self.fn, self.cs = kind, a, guard, loops, seq, node, fn, cs
        self.st = None

    @property
    def line(self):
        return getattr(self.node, "lineno", 0)

    @property
    def where(self):
        return "%s:%d:%s" % (self.fn.module.rel if self.fn else "?", self.line, self.fn.qual if self.fn else "?")

    def __repr__(self):
        return "%s%r @%s if %r loops %r" % (self.kind, tuple(self.a), self.where, self.guard, [l[0] for l in self.loops])

    def mapped(self, f):
        def go(x):
            if isinstance(x, T):
                return f(x)
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            if isinstance(x, dict):
                return {k: go(v) for k, v in x.items()}
            return x
        e = Ev(self.kind, go(self.a), f(self.guard), tuple((i, f(n), k) for i, n, k in self.loops), self.seq, self.node, self.fn, self.cs)
        e.st = self.st
        return e


class St:
    __slots__ = ("cells", "mems", "pc", "fresh")

    def __init__(self, cells=None, mems=None, pc=(), fresh=frozenset()):
        self.cells = cells if cells is not None else {}
        self.mems = mems if mems is not None else {}
        self.pc = pc
        self.fresh = fresh

    def copy(self):
        return St(dict(self.cells), dict(self.mems), self.pc, self.fresh)

    def become(self, o):
        self.cells, self.mems, self.pc, self.fresh = o.cells, o.mems, o.pc, o.fresh

    def fact(self, c):
        for l in lits_of(c):
            if l is not TRUE and l not in self.pc:
                self.pc = self.pc + (l,)


class Out:
    __slots__ = ("kind", "cond", "env", "st", "val")

    def __init__(self, kind, cond, env, st, val=None):
        self.kind, self.cond, self.env, self.st, self.val = kind, cond, env, st, val


def is_static(addr):
    if addr.op == "new":
        return len(addr.a) == 1
    if addr.op == "own":
        return is_static(addr.a[1])
    return addr.op == "obj"


PURE_EXT = ("math.", "numpy.", "np.", "json.", "datetime.", "time.", "os.path.", "itertools.", "functools.", "copy.",
            "collections.", "operator.", "statistics.", "fractions.", "decimal.", "re.", "string.", "typing.", "abc.",
            "os.getpid", "os.getcwd", "os.environ", "os.cpu_count", "uuid.", "socket.", "threading.current_thread",
            "threading.get_ident", "multiprocessing.current_process", "multiprocessing.cpu_count", "scipy.", "bisect.")
IMPURE_NP = ("numpy.save", "numpy.savetxt", "numpy.savez", "numpy.random.", "numpy.copyto", "numpy.fill_diagonal", "numpy.put",
             "numpy.seterr", "json.dump", "bisect.insort", "time.sleep", "numpy.random")
IGNORED_EXT = ("logging.", "warnings.", "sys.stdout.", "sys.stderr.", "gc.", "sys.setrecursionlimit", "time.sleep", "pprint.")

BUILTINS = set("""print len range int float str bool abs min max sum any all sorted reversed enumerate zip map filter list tuple
set dict frozenset type isinstance issubclass round divmod pow next iter super open repr hasattr getattr setattr id hash
format callable object vars dir ord chr bytes property staticmethod classmethod slice input exit quit complex
Exception ValueError TypeError KeyError IndexError AssertionError RuntimeError StopIteration NotImplementedError
ZeroDivisionError OSError IOError FileNotFoundError FileExistsError AttributeError ArithmeticError LookupError NotImplemented Ellipsis __name__ __file__""".split())

TRUSTED_DECORATORS = ("staticmethod", "classmethod", "property", "lru_cache_no")


class Interp:
    def __init__(self, prog):
        self.p = prog
        self.events = []
        self.seqno = 0
        self.cs = ()
        self.depth = 0
        self.loops = []          # open loops: (ix, n, key)
        self.fstack = []
        self.labels = {}
        self.idxs = {}
        self.module_cache = {}
        self.funcs_seen = set()
        self.stmts_seen = 0
        self.steps = 0
        self.types = {}          # (class, attr) -> set of types stored
        self.stored_labels = {}  # (class, attr) -> set of list labels stored
        self.list_elems = {}     # home -> set of element types
        self.stores = []
        self.watch = None
        self.opaque_args = {}
        self.cut = {}            # Func -> handler(interp, self, args, kwargs, node, st)

    # ------------------------------------------------------------ helpers
    def err(self, msg, node=None):
        f = self.fstack[-1] if self.fstack else None
        return Unsupported(msg, node, f.where if f else None)

    def ev_add(self, kind, a, st, node):
        self.seqno += 1
        f = self.fstack[-1] if self.fstack else None
        e = Ev(kind, a, and_(*st.pc), tuple(self.loops), self.seqno, node, f, self.cs)
        self.events.append(e)
        return e

    def cs_id(self, node):
        """stable name of the current call path"""
        key = ("cs", self.cs, id(node))
        r = GIDXS.get(key)
        if r is None:
            r = GIDXS[key] = "k%d" % len(GIDXS)
        return r

    def label(self, cls, node, tag=""):
        key = (self.cs, id(node), tag, H.PHASE[0])
        l = GLABELS.get(key)
        if l is None:
            nm = cls if isinstance(cls, str) else cls.name
            l = "%s@%s#%d" % (nm, getattr(node, "lineno", "?"), len(GLABELS))
            GLABELS[key] = l
            H.LABELS[l] = dict(cls=cls, node=node, phase=H.PHASE[0], fn=self.fstack[-1] if self.fstack else None)
        return l

    def alloc(self, cls, node, st, tag=""):
        l = self.label(cls, node, tag)
        args = []
        for ix, n, k in self.loops:
            if k is not None:
                args.append(ix)
        a = new(l, *args)
        if args:
            st.fresh = st.fresh | {a}
        return a

    def new_list(self, content, node, st, tag="", cls="list"):
        a = self.alloc(cls, node, st, tag)
        self.put(st, a, "$c", content)
        h = home(a)
        et = elem_ty(content)
        if et is not None:
            self.list_elems.setdefault(h, set()).add(et)
        return a

    # ------------------------------------------------------------ memory access
    def iscell(self, st, a):
        return is_static(a) or a in st.fresh

    def get(self, st, a, attr):
        if a.op == "ite":
            c = decide(a.a[0], st.pc)
            if c is TRUE:
                return self.get(st, a.a[1], attr)
            if c is FALSE:
                return self.get(st, a.a[2], attr)
            if a.a[1] is NONE:
                return self.get(st, a.a[2], attr)
            if a.a[2] is NONE:
                return self.get(st, a.a[1], attr)
            return ite(c, self.get(st, a.a[1], attr), self.get(st, a.a[2], attr))
        v = st.cells.get((a, attr))
        if v is not None:
            return v
        if self.iscell(st, a):
            if a.op == "own" or a.op == "obj":
                m = st.mems.get(attr)
                return read(m if m is not None else minit(attr), a, st.pc)
            return H.DEFAULTS.get((a, attr), UNDEF)
        m = st.mems.get(attr)
        if m is None:
            m = minit(attr)
        return read(m, a, st.pc)

    def put(self, st, a, attr, v):
        if a.op == "ite":
            c = decide(a.a[0], st.pc)
            if c is TRUE:
                return self.put(st, a.a[1], attr, v)
            if c is FALSE:
                return self.put(st, a.a[2], attr, v)
            for x, cc in ((a.a[1], c), (a.a[2], neg_b(c))):
                if x is NONE:
                    continue
                old = self.get(st, x, attr)
                self.put(st, x, attr, ite(cc, v, old) if old is not UNDEF else v)
            return
        if self.iscell(st, a):
            st.cells[(a, attr)] = v
            return
        m = st.mems.get(attr)
        if m is None:
            m = minit(attr)
        st.mems[attr] = mupd(m, a, v)

    def set_attr(self, st, a, attr, v, node):
        """attribute store made by the program"""
        if a.op == "ite" and NONE in a.a:
            a = a.a[2] if a.a[1] is NONE else a.a[1]
        old = self.get(st, a, attr) if not (a.op == "ite") else None
        v = TM.named_field(v)
        self.record_store(a, attr, v, st)
        if old is v:
            return
        self.ev_add("write", (a, attr, v, old), st, node)
        self.put(st, a, attr, v)

    def record_store(self, a, attr, v, st):
        for cn in self.cnames(a):
            ts = self.types.setdefault((cn, attr), set())
            for ty in self.ty_alts(v):
                ts.add(ty)
            for l in self.list_refs(v):
                self.stored_labels.setdefault((cn, attr), set()).add(l)

    def cnames(self, a):
        if a.op == "ite":
            return self.cnames(a.a[1]) + self.cnames(a.a[2])
        c = cname(a)
        return [c] if c else []

    def list_refs(self, v):
        if v.op == "ite":
            return self.list_refs(v.a[1]) + self.list_refs(v.a[2])
        if cls_of(v) in ("list", "set", "dict"):
            h = home(v)
            return [h if h is not None else v]
        return []

    def ty_alts(self, v):
        if v.op == "ite":
            return self.ty_alts(v.a[1]) + self.ty_alts(v.a[2])
        c = cls_of(v)
        if c is not None:
            return [c if c in ("list", "dict", "setref") else ("ref", c)] if isinstance(c, Class) else [{"list": "list", "dict": "dict", "set": "setref"}[c]]
        if v.op == "c":
            if isinstance(v.a[0], EnumVal):
                return ["enum:" + v.a[0][0]]
            return [v.ty]
        if is_int(v):
            return ["int"]
        if is_numeric(v):
            return ["float"]
        if isinstance(v.ty, tuple) and v.ty[0] == "opt":
            return [v.ty[1], "none"]
        return [v.ty or "any"]

    # ------------------------------------------------------------ names
    def lookup(self, name, env, node):
        e = env
        while e is not None:
            if name in e.vars:
                v = e.vars[name]
                if v is UNDEF:
                    raise self.err("local %r may be undefined" % name, node)
                return v
            e = e.outer
        m = env.module
        v = m.ns.get(name)
        if v is None:
            for cand in ():
                pass
            if name in BUILTINS:
                return mk("ext", "builtins." + name)
            raise self.err("unknown name %r" % name, node)
        return self.ns_value(v, m, node)

    def ns_value(self, v, m, node):
        k = v[0]
        if k == "class":
            return mk("cls", v[1])
        if k == "func":
            return mk("func", v[1])
        if k == "module":
            return mk("mod_", v[1])
        if k == "ext":
            return mk("ext", v[1])
        if k == "from":
            mm = self.p.module(v[1])
            return self.ns_value(mm.ns[v[2]], mm, node)
        if k == "expr":
            key = id(v[1])
            if key in self.module_cache:
                return self.module_cache[key]
            s = self.p.settle(v, m)
            if s and s[0] != "expr":
                r = self.ns_value(s, m, node)
            else:
                st = St()
                save = self.loops, self.events, self.cs
                self.loops, self.events, self.cs = [], [], ("mod", m.name)
                r = self.ev(v[1], Env(m), st)
                if cls_of(r) in ("list", "dict", "set"):
                    r = self.freeze(r, st)
                self.loops, self.events, self.cs = save
            self.module_cache[key] = r
            return r
        if k == "missing":
            raise self.err("import of a name that does not exist: %s" % v[1], node)
        raise self.err("name kind %r" % (k,), node)

    def freeze(self, r, st):
        """module level container constants become immutable values"""
        c = cls_of(r)
        if c == "dict":
            return mk("frozendict", *[x for x in (self.get(st, r, "$d"),)], ty="frozendict")
        return self.get(st, r, "$c")

    # ------------------------------------------------------------ statements
    def block(self, stmts, env, st):
        cur = Out("next", TRUE, env, st)
        res = []
        for s in stmts:
            outs = self.stmt(s, cur.env, cur.st)
            nexts = []
            for o in outs:
                o.cond = and_(cur.cond, o.cond)
                if o.cond is FALSE:
                    continue
                (nexts if o.kind == "next" else res).append(o)
            if not nexts:
                return res
            cur = self.merge(nexts, "next")
        res.append(cur)
        return res

    def merge(self, outs, kind):
        if len(outs) == 1:
            return outs[0]
        conds = [o.cond for o in outs]
        allc = or_(*conds)
        # common path facts
        common = [l for l in outs[0].st.pc if all(l in o.st.pc for o in outs[1:])]
        pc = tuple(common)
        diff = or_(*[and_(*[l for l in o.st.pc if l not in common]) for o in outs])
        for l in lits_of(diff):
            if l is not TRUE and l not in pc:
                pc = pc + (l,)
        acc = outs[-1]
        cells, mems, env, val = dict(acc.st.cells), dict(acc.st.mems), acc.env.copy() if acc.env else None, acc.val
        fresh = acc.st.fresh
        for o in reversed(outs[:-1]):
            c = o.cond
            # relative condition: facts shared by all outcomes are dropped
            c = assume(c, common)
            fresh = fresh | o.st.fresh
            if c is TRUE:
                cells, mems, env, val = dict(o.st.cells), dict(o.st.mems), o.env.copy() if o.env else None, o.val
                continue
            if c is FALSE:
                continue
            oc = o.st.cells
            for k in set(cells) | set(oc):
                x, y = oc.get(k), cells.get(k)
                if x is y:
                    continue
                if x is None or x is UNDEF:
                    if k[0] not in o.st.fresh and k in cells and x is None:
                        x = self.get_default(o.st, k)
                    if x is None or x is UNDEF:
                        cells[k] = y
                        continue
                if y is None or y is UNDEF:
                    if y is None:
                        y = self.get_default(acc.st, k)
                    if y is None or y is UNDEF:
                        cells[k] = x
                        continue
                cells[k] = ite(c, x, y)
            om = o.st.mems
            for k in set(mems) | set(om):
                x, y = om.get(k, None), mems.get(k, None)
                if x is y:
                    continue
                if x is None:
                    x = minit(k)
                if y is None:
                    y = minit(k)
                mems[k] = mite(c, x, y)
            if env is not None and o.env is not None:
                for k in set(env.vars) | set(o.env.vars):
                    x, y = o.env.vars.get(k, UNDEF), env.vars.get(k, UNDEF)
                    if x is y:
                        continue
                    if x is UNDEF or y is UNDEF:
                        env.vars[k] = x if y is UNDEF else y
                        continue
                    env.vars[k] = TM.named(self.ite_val(c, x, y))
            if o.val is not val:
                val = TM.named(self.ite_val(c, o.val if o.val is not None else NONE, val if val is not None else NONE))
        return Out(kind, allc, env, St(cells, mems, pc, fresh), val)

    def get_default(self, st, k):
        a, attr = k
        if a.op in ("own", "obj"):
            m = st.mems.get(attr)
            return read(m if m is not None else minit(attr), a, st.pc)
        return H.DEFAULTS.get(k)

    def ite_val(self, c, x, y):
        return ite(c, x, y)

    def stmt(self, s, env, st):
        self.stmts_seen += 1
        self.steps += 1
        if self.steps > 4000000:
            raise self.err("analysis budget exceeded", s)
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise self.err("statement %s" % type(s).__name__, s)
        return m(s, env, st)

    def nxt(self, env, st):
        return [Out("next", TRUE, env, st)]

    def s_Pass(self, s, env, st):
        return self.nxt(env, st)

    def s_Global(self, s, env, st):
        raise self.err("global statement", s)

    s_Nonlocal = s_Global

    def s_Import(self, s, env, st):
        for a in s.names:
            if a.asname:
                v = self.p._mod(a.name)
                env.vars[a.asname] = self.ns_value(v, env.module, s)
            else:
                top = a.name.split(".")[0]
                env.vars[top] = self.ns_value(self.p._mod(top), env.module, s)
        return self.nxt(env, st)

    def s_ImportFrom(self, s, env, st):
        ns = {}
        self.p.import_from(s, env.module, ns)
        for k, v in ns.items():
            env.vars[k] = self.ns_value(v, env.module, s)
        return self.nxt(env, st)

    def s_Expr(self, s, env, st):
        if isinstance(s.value, ast.Constant):
            return self.nxt(env, st)
        self.ev(s.value, env, st)
        return self.nxt(env, st)

    def s_FunctionDef(self, s, env, st):
        f = Func(s.name, s, env.module, None)
        f.closure = env
        env.vars[s.name] = mk("func", f)
        return self.nxt(env, st)

    def s_Return(self, s, env, st):
        v = self.ev(s.value, env, st) if s.value is not None else NONE
        return [Out("ret", TRUE, env, st, v)]

    def s_Break(self, s, env, st):
        return [Out("brk", TRUE, env, st)]

    def s_Continue(self, s, env, st):
        return [Out("cont", TRUE, env, st)]

    def s_Raise(self, s, env, st):
        self.ev_add("raise", (ast.unparse(s.exc) if s.exc else "",), st, s)
        return [Out("raise", TRUE, env, st)]

    def s_Assert(self, s, env, st):
        c = self.cond(s.test, env, st)
        if c is TRUE:
            return self.nxt(env, st)
        self.ev_add("assert", (c,), st, s)
        if c is FALSE:
            return [Out("raise", TRUE, env, st)]
        st2 = st.copy()
        st.fact(c)
        return [Out("next", c, env, st), Out("raise", neg_b(c), env, st2)]

    def s_Delete(self, s, env, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, env, st)
                self.ev_add("del", (o, t.attr), st, s)
                st.cells.pop((o, t.attr), None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env, st)
                if cls_of(o) == "list":
                    sq = self.get(st, o, "$c")
                    if isinstance(t.slice, ast.Slice):
                        lo, hi, _ = self.slice_bounds(t.slice, env, st, sq)
                        self.mutate(st, o, cat(self.slice(sq, ZERO, lo), self.slice(sq, hi, length(sq))), "del", (lo, hi), s)
                    else:
                        i = self.ev(t.slice, env, st)
                        self.mutate(st, o, self.del_index(sq, i), "del", (i,), s)
                elif cls_of(o) == "dict":
                    k = self.ev(t.slice, env, st)
                    self.mutate_d(st, o, mk("ddel", self.get(st, o, "$d"), k), "del", (k,), s)
                else:
                    raise self.err("del of subscript", s)
        return self.nxt(env, st)

    def s_Assign(self, s, env, st):
        v = self.ev(s.value, env, st)
        for t in s.targets:
            self.assign(t, v, env, st)
        return self.nxt(env, st)

    def s_AnnAssign(self, s, env, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env, st), env, st)
        return self.nxt(env, st)

    def s_AugAssign(self, s, env, st):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, env, s)
            r, inplace = self.augop(s, old, env, st)
            if not inplace:
                env.vars[t.id] = r
            return self.nxt(env, st)
        if isinstance(t, ast.Attribute):
            o = self.ev(t.value, env, st)
            old = self.getattr(o, t.attr, st, t)
            r, inplace = self.augop(s, old, env, st)
            if not inplace:
                self.setattr(o, t.attr, r, st, s)
            return self.nxt(env, st)
        if isinstance(t, ast.Subscript):
            o = self.ev(t.value, env, st)
            i = self.ev(t.slice, env, st)
            old = self.getitem(o, i, st, t)
            r, inplace = self.augop(s, old, env, st)
            if not inplace:
                self.setitem(o, i, r, st, s)
            return self.nxt(env, st)
        raise self.err("augmented assignment target", s)

    def augop(self, s, old, env, st):
        v = self.ev(s.value, env, st)
        c = cls_of(old)
        if c == "list" and isinstance(s.op, ast.Add):
            self.mutate(st, old, cat(self.get(st, old, "$c"), self.as_seq(v, st, s)), "extend", (v,), s)
            return old, True
        if c == "set" and isinstance(s.op, ast.BitOr):
            self.mutate(st, old, self.set_union(self.get(st, old, "$c"), self.as_seq(v, st, s)), "update", (v,), s)
            return old, True
        if c == "set" and isinstance(s.op, ast.Sub):
            self.mutate(st, old, self.set_diff(self.get(st, old, "$c"), self.as_seq(v, st, s)), "difference_update", (v,), s)
            return old, True
        if c is None and old.ty in ("any", None) and not is_numeric(old) and old.op in ("res", "sel", "sym", "ite", "sum", "th"):
            pass
        r = self.binop(s.op, old, v, st, s)
        self.ev_add("aug", (old, r), st, s)
        return r, False

    def assign(self, t, v, env, st):
        if isinstance(t, ast.Name):
            env.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, env, st, t)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env, st)
            self.setattr(o, t.attr, v, st, t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env, st)
            if isinstance(t.slice, ast.Slice):
                self.setslice(o, t.slice, v, env, st, t)
            else:
                self.setitem(o, self.index(t.slice, env, st), v, st, t)
        elif isinstance(t, ast.Starred):
            raise self.err("starred assignment", t)
        else:
            raise self.err("assignment target", t)

    def unpack(self, elts, v, env, st, node):
        if any(isinstance(e, ast.Starred) for e in elts):
            sq = self.as_seq(v, st, node)
            k = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)][0]
            after = len(elts) - k - 1
            n = length(sq)
            for i in range(k):
                self.assign(elts[i], elem(sq, C(i)), env, st)
            mid = self.slice(sq, C(k), sub(n, C(after)))
            self.assign(elts[k].value, self.new_list(mid, node, st, "star"), env, st)
            for j in range(after):
                self.assign(elts[k + 1 + j], elem(sq, sub(n, C(after - j))), env, st)
            return
        if v.op == "ite":
            parts = None
            xs = self.split(v.a[1], len(elts), st, node)
            ys = self.split(v.a[2], len(elts), st, node)
            parts = [ite(v.a[0], x, y) for x, y in zip(xs, ys)]
        else:
            parts = self.split(v, len(elts), st, node)
        for e, x in zip(elts, parts):
            self.assign(e, x, env, st)

    def split(self, v, n, st, node):
        if v.op == "tuple":
            if len(v.a) != n:
                raise self.err("unpacking length mismatch", node)
            return list(v.a)
        if v.op == "ite":
            xs = self.split(v.a[1], n, st, node)
            ys = self.split(v.a[2], n, st, node)
            return [ite(v.a[0], x, y) for x, y in zip(xs, ys)]
        try:
            sq = self.as_seq(v, st, node)
        except Unsupported:
            return [mk("get", v, C(i), ty="any") for i in range(n)]
        return [elem(sq, C(i)) for i in range(n)]

    def setattr(self, o, attr, v, st, node):
        if o.op == "ite":
            for x, c in ((o.a[1], o.a[0]), (o.a[2], neg_b(o.a[0]))):
                if x is NONE or decide(c, st.pc) is FALSE:
                    continue
                old = self.get(st, x, attr)
                nv = v if decide(c, st.pc) is TRUE else ite(c, v, old)
                self.record_store(x, attr, v, st)
                if nv is not old:
                    pc = st.pc
                    st.fact(c)
                    self.ev_add("write", (x, attr, v, old), st, node)
                    st.pc = pc
                    self.put(st, x, attr, nv)
            return
        c = cls_of(o)
        if isinstance(c, Class):
            f = c.find(attr + "=set")
            if f:
                self.call_func(f, [o, v], {}, node, st)
                return
            self.set_attr(st, o, attr, v, node)
            return
        if o.op in ("cls", "mod_", "ext"):
            self.ev_add("gwrite", (o, attr, v), st, node)
            raise self.err("assignment to a module/class attribute", node)
        if o is NONE:
            self.ev_add("raise", ("attribute of None",), st, node)
            return
        self.ev_add("write", (o, attr, v, None), st, node)
        self.put(st, o, attr, v)

    def mutate(self, st, o, newc, opname, args, node):
        old = self.get(st, o, "$c")
        h = home(o)
        et = elem_ty(newc)
        if et is None and opname in ("append", "add", "insert"):
            t = self.ty_alts(args[-1])
            et = t[0] if len(t) == 1 else None
        self.list_elems.setdefault(h, set()).add(et)
        self.ev_add("mut", (o, opname, tuple(args), newc, old), st, node)
        self.put(st, o, "$c", newc)

    def mutate_d(self, st, o, newd, opname, args, node):
        self.ev_add("mut", (o, opname, tuple(args), newd, self.get(st, o, "$d")), st, node)
        self.put(st, o, "$d", newd)

    def del_index(self, sq, i):
        n = length(sq)
        if is_num(i) and i.a[0] < 0:
            i = add(n, i)
        return cat(self.slice(sq, ZERO, i), self.slice(sq, add(i, ONE), n))

    def slice(self, sq, lo, hi):
        n = length(sq)
        if lo is ZERO and (hi is n):
            return sq
        if sq.op in ("seq", "tuple") and is_num(lo) and is_num(hi):
            xs = list(sq.a)[cval(lo):cval(hi)]
            return seq(*xs) if sq.op == "seq" else tup(*xs)
        if sq.op == "seq" and is_num(lo) and hi is n:
            return seq(*list(sq.a)[cval(lo):])
        if lo is hi:
            return seq()
        if lo is ZERO and is_num(hi) and cval(hi) > 0 and sq.op == "remove" and any(h(sq.a[0]) is sq.a[1] for h in TM.PAIR_HOOKS):
            return seq(elem(sq, ZERO))      # one of two removed: one is left
        return mk("slice", sq, lo, hi, ty="seq")

    def slice_bounds(self, sl, env, st, sq):
        n = length(sq)
        def norm(e, d):
            if e is None:
                return d
            v = self.ev(e, env, st)
            if v is NONE:
                return d
            if is_num(v) and v.a[0] < 0:
                return add(n, v)
            if not nonneg(v):
                pass
            return v
        step = self.ev(sl.step, env, st) if sl.step is not None else ONE
        return norm(sl.lower, ZERO), norm(sl.upper, n), step

    def setslice(self, o, sl, v, env, st, node):
        if cls_of(o) != "list":
            raise self.err("slice assignment to a non-list", node)
        sq = self.get(st, o, "$c")
        lo, hi, step = self.slice_bounds(sl, env, st, sq)
        if step is not ONE:
            raise self.err("extended slice assignment", node)
        nv = cat(self.slice(sq, ZERO, lo), self.as_seq(v, st, node), self.slice(sq, hi, length(sq)))
        self.mutate(st, o, nv, "setslice", (lo, hi, v), node)

    def setitem(self, o, i, v, st, node):
        c = cls_of(o)
        if c == "list":
            sq = self.get(st, o, "$c")
            if is_num(i) and i.a[0] < 0:
                i = add(length(sq), i)
            if elem(sq, i) is v:
                return
            self.mutate(st, o, upd(sq, i, v), "setitem", (i, v), node)
            return
        if c == "dict":
            d = self.get(st, o, "$d")
            self.mutate_d(st, o, dput(d, i, v), "setitem", (i, v), node)
            return
        if isinstance(c, Class):
            f = c.find("__setitem__")
            if f:
                self.call_func(f, [o, i, v], {}, node, st)
                return
        if o.op == "ite":
            raise self.err("item assignment through a conditional reference", node)
        self.ev_add("mut", (o, "setitem", (i, v), None, None), st, node)

    def s_If(self, s, env, st):
        c = self.cond(s.test, env, st)
        return self.branch(c, lambda e, t: self.block(s.body, e, t), lambda e, t: self.block(s.orelse, e, t), env, st)

    def branch(self, c, f, g, env, st):
        c = decide(c, st.pc)
        if c is TRUE:
            return f(env, st)
        if c is FALSE:
            return g(env, st)
        e2, s2 = env.copy(), st.copy()
        st.fact(c)
        s2.fact(neg_b(c))
        self.refine(c, env)
        self.refine(neg_b(c), e2)
        a = f(env, st)
        b = g(e2, s2)
        for o in a:
            o.cond = and_(c, o.cond)
        for o in b:
            o.cond = and_(neg_b(c), o.cond)
        return [o for o in a + b if o.cond is not FALSE]

    def refine(self, c, env):
        """specialise local values that are conditional on the branch condition"""
        ls = lits_of(c)
        for k, v in list(env.vars.items()):
            if isinstance(v, T) and contains_op(v, ("ite",)):
                env.vars[k] = assume(v, ls)

    def s_With(self, s, env, st):
        for it in s.items:
            v = self.ev(it.context_expr, env, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env, st)
        return self.block(s.body, env, st)

    def s_Try(self, s, env, st):
        # exceptions from inside the body: the handler may run from any point of it
        pre_e, pre_s = env.copy(), st.copy()
        outs = self.block(s.body, env, st)
        raises = [o for o in outs if o.kind == "raise"]
        outs = [o for o in outs if o.kind != "raise"]
        nexts = [o for o in outs if o.kind == "next"]
        if s.orelse and nexts:
            n = self.merge(nexts, "next")
            outs = [o for o in outs if o.kind != "next"]
            for o in self.block(s.orelse, n.env, n.st):
                o.cond = and_(n.cond, o.cond)
                outs.append(o)
        for h in s.handlers:
            exc = mk("opaque", "exc", self.lkey(h), ty="bool")
            e2, s2 = pre_e.copy(), pre_s.copy()
            s2.fact(exc)
            if h.name:
                e2.vars[h.name] = mk("opaque", "exception", self.lkey(h), ty="any")
            hs = self.block(h.body, e2, s2)
            for o in hs:
                o.cond = and_(exc, o.cond)
            for o in outs:
                o.cond = and_(neg_b(exc), o.cond)
            outs += hs
        if s.finalbody:
            new_outs = []
            for o in outs:
                if o.kind == "next":
                    for f in self.block(s.finalbody, o.env, o.st):
                        f.cond = and_(o.cond, f.cond)
                        new_outs.append(f)
                else:
                    for f in self.block(s.finalbody, o.env, o.st):
                        f.cond = and_(o.cond, f.cond)
                        if f.kind == "next":
                            f.kind, f.val = o.kind, o.val
                        new_outs.append(f)
            outs = new_outs
        return outs + raises

    # ------------------------------------------------------------ loops
    def lkey(self, node, tag=""):
        return "%s/%s/%s" % (hash_cs(self.cs), getattr(node, "lineno", 0), getattr(node, "col_offset", 0)) + tag

    def loop_idx(self, node, n, name, tag=""):
        key = (self.cs, id(node), tag, n, H.PHASE[0])
        k = GIDXS.get(key)
        if k is None:
            k = "%s~%d" % (name, len(GIDXS))
            GIDXS[key] = k
        return idx(k, n), k

    def s_For(self, s, env, st):
        src = self.ev(s.iter, env, st)
        names = assigned_names(s.body) | target_names(s.target)

        def body(e, t, k, val):
            self.assign(s.target, val, e, t)
            return self.block(s.body, e, t)
        nm = s.target.id if isinstance(s.target, ast.Name) else "it"
        outs = self.iterate(src, names, body, env, st, s, nm)
        return self.loop_else(outs, s.orelse)

    def loop_else(self, outs, orelse):
        res = []
        for o in outs:
            if o.kind == "next" and orelse:
                for x in self.block(orelse, o.env, o.st):
                    x.cond = and_(o.cond, x.cond)
                    res.append(x)
            elif o.kind == "brk":
                o.kind = "next"
                res.append(o)
            else:
                res.append(o)
        nexts = [o for o in res if o.kind == "next"]
        if len(nexts) > 1:
            res = [o for o in res if o.kind != "next"] + [self.merge(nexts, "next")]
        return res

    def iterate(self, src, names, body, env, st, node, nm="i"):
        """body(env, st, index, value) -> outs; result kinds: next (exhausted), brk, ret, raise"""
        if src.op == "ite":
            return self.branch(src.a[0],
                               lambda e, t: self.iterate(src.a[1], names, body, e, t, node, nm),
                               lambda e, t: self.iterate(src.a[2], names, body, e, t, node, nm), env, st)
        sq = self.as_seq(src, st, node)
        sq = assume(sq, st.pc)
        if sq.op == "ite":
            return self.branch(sq.a[0],
                               lambda e, t: self.iterate(sq.a[1], names, body, e, t, node, nm),
                               lambda e, t: self.iterate(sq.a[2], names, body, e, t, node, nm), env, st)
        if sq.op in ("seq", "tuple"):
            if len(sq.a) <= 24:
                return self.unroll(sq, body, env, st, node)
        if sq.op == "cat":
            # consecutive loops over the parts
            return self.iter_parts(list(sq.a), names, body, env, st, node, nm)
        guard = None
        n = None
        if sq.op == "fmap":
            n = sq.a[0]
            ix, k = self.loop_idx(node, n, nm)
            c, b = opened(sq, ix)
            guard, val = c, b
        elif sq.op == "flat" and sq.a[1].op in ("map", "fmap", "ite", "seq", "cat", "flat"):
            # nested iteration
            n = sq.a[0]
            ix, k = self.loop_idx(node, n, nm)
            b, = opened(sq, ix)

            def inner(e, t, kk, val):
                outs = self.iterate(val, names, body, e, t, node, nm + "_")
                for o in outs:
                    if o.kind == "brk":
                        o.kind = "brk"
                return outs
            return self.loop(n, ix, k, names, lambda e, t: self.fix_cont(inner(e, t, ix, self.seqval(b))), env, st, node)
        else:
            n = length(sq)
            if is_num(n) and n.a[0] <= UNROLL:
                return self.unroll(seq(*[elem(sq, C(i)) for i in range(max(0, int(n.a[0])))]), body, env, st, node)
            ix, k = self.loop_idx(node, n, nm)
            val = elem(sq, ix)

        def run(e, t):
            if guard is not None:
                return self.branch(guard, lambda e1, t1: self.fix_cont(body(e1, t1, ix, val)), lambda e1, t1: self.nxt(e1, t1), e, t)
            return self.fix_cont(body(e, t, ix, val))
        return self.loop(n, ix, k, names, run, env, st, node)

    def seqval(self, s):
        return s

    def fix_cont(self, outs):
        for o in outs:
            if o.kind == "cont":
                o.kind = "next"
        return outs

    def iter_parts(self, parts, names, body, env, st, node, nm):
        cur = Out("next", TRUE, env, st)
        res = []
        cs = self.cs
        for j, part in enumerate(parts):
            self.cs = cs + (("part", id(node), j),)
            outs = self.iterate(part, names, body, cur.env, cur.st, node, nm)
            self.cs = cs
            nexts = []
            for o in outs:
                o.cond = and_(cur.cond, o.cond)
                (nexts if o.kind == "next" else res).append(o)
            if not nexts:
                return res
            cur = self.merge(nexts, "next")
        return res + [cur]

    def unroll(self, sq, body, env, st, node):
        cur = Out("next", TRUE, env, st)
        res = []
        cs = self.cs
        for j, x in enumerate(sq.a):
            self.cs = cs + (("u", id(node), j),)
            outs = self.fix_cont(body(cur.env, cur.st, C(j), x))
            self.cs = cs
            nexts = []
            for o in outs:
                o.cond = and_(cur.cond, o.cond)
                if o.cond is FALSE:
                    continue
                (nexts if o.kind == "next" else res).append(o)
            if not nexts:
                return res
            cur = self.merge(nexts, "next")
        return res + [cur]

    FLAGGED = {}

    def flag_loop(self, s, env):
        """`while not flag and C: B` entered with flag false is `while C: B; if flag: break; flag = False` (no continue in B, flag a local set only in B); likewise `while flag`"""
        t = s.test
        ops = list(t.values) if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And) else [t]
        x, neg = ops[0], False
        if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not):
            x, neg = x.operand, True
        if not isinstance(x, ast.Name) or s.orelse or x.id not in assigned_names(s.body) or env.vars.get(x.id) is not (FALSE if neg else TRUE):
            return s
        todo = list(s.body)
        while todo:
            y = todo.pop()
            if isinstance(y, ast.Continue):
                return s
            if isinstance(y, (ast.FunctionDef, ast.Lambda)):
                return s
            todo += [z for z in ast.iter_child_nodes(y) if not (isinstance(y, (ast.For, ast.While)) and isinstance(z, ast.Continue))]
        r = self.FLAGGED.get(s)
        if r is None:
            out = ast.If(test=x if neg else ast.UnaryOp(op=ast.Not(), operand=x), body=[ast.Break()],
                         orelse=[ast.Assign(targets=[ast.Name(id=x.id, ctx=ast.Store())], value=ast.Constant(not neg))])
            rest = ops[1:]
            test = ast.Constant(True) if not rest else rest[0] if len(rest) == 1 else ast.BoolOp(op=ast.And(), values=rest)
            r = ast.While(test=test, body=list(s.body) + [out], orelse=[])
            for y in [out, out.body[0], out.test, r, test] + list(ast.walk(out.orelse[0])):
                if not hasattr(y, "lineno"):
                    ast.copy_location(y, s)
            self.FLAGGED[s] = r
        return r

    def s_While(self, s, env, st):
        s = self.flag_loop(s, env)
        names = assigned_names(s.body) | assigned_names_expr(s.test)
        ix, k = self.loop_idx(s, INF, "w")

        def run(e, t):
            c = self.cond(s.test, e, t)
            return self.branch(c, lambda e1, t1: self.fix_cont(self.block(s.body, e1, t1)),
                               lambda e1, t1: [Out("exh", TRUE, e1, t1)], e, t)
        outs = self.loop(INF, ix, k, names, run, env, st, s)
        res = []
        for o in outs:
            if o.kind == "exh":
                o.kind = "next"
            elif o.kind == "next":
                continue       # an unbounded loop is left only through its exits
            res.append(o)
        return self.loop_else(res, s.orelse)

    def loop(self, n, ix, key, names, run, env, st, node):
        from .loops import summarise
        return summarise(self, n, ix, key, names, run, env, st, node)

    # ------------------------------------------------------------ expressions
    def cond(self, e, env, st):
        """boolean term of an expression in a test position"""
        if isinstance(e, ast.BoolOp):
            return self.boolop(e, env, st, True)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return neg_b(self.cond(e.operand, env, st))
        return decide(self.truth(self.ev(e, env, st), st, e), st.pc)

    def truth(self, v, st, node=None):
        if v.op == "c":
            return C(bool(cval(v)) if not isinstance(v.a[0], EnumVal) else True)
        if v.op == "ite":
            return ite(v.a[0], self.truth(v.a[1], st, node), self.truth(v.a[2], st, node))
        if is_boolish(v):
            return v
        c = cls_of(v)
        if c in ("list", "set"):
            t = lt(ZERO, length(self.get(st, v, "$c")))
            if isinstance(v.ty, tuple) and v.ty[0] == "opt":
                t = and_(neg_b(eq(v, NONE)), t)
            return t
        if c == "dict":
            d = self.get(st, v, "$d")
            if d.op == "dict":
                return C(bool(d.a))
            if d.op == "dictby":
                return lt(ZERO, length(d.a[0]))
            return mk("istrue", v, ty="bool")
        if isinstance(c, Class):
            if c.find("__bool__"):
                return self.truth(self.call_func(c.find("__bool__"), [v], {}, node, st), st, node)
            if c.find("__len__"):
                return lt(ZERO, self.call_func(c.find("__len__"), [v], {}, node, st))
            if maybe_none(v):
                return neg_b(eq(v, NONE))
            return TRUE
        if isinstance(v.ty, tuple) and v.ty[0] == "opt":
            base = v.ty[1]
            inner = mk("istrue", v, ty="bool")
            return and_(neg_b(eq(v, NONE)), inner)
        if is_numeric(v):
            return neg_b(eq(v, ZERO))
        if v.op in ("seq", "map", "fmap", "cat", "tuple", "range") or v.ty == "seq":
            return lt(ZERO, length(v))
        if v.op in ("func", "cls", "bound", "mod_"):
            return TRUE
        if v.ty == "str":
            return neg_b(eq(v, C("")))
        return mk("istrue", v, ty="bool")

    def ev(self, e, env, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise self.err("expression %s" % type(e).__name__, e)
        v = m(e, env, st)
        if v.op == "ite" and st.pc:
            v = assume(v, st.pc)
        return v

    def e_Constant(self, e, env, st):
        v = e.value
        if v is Ellipsis:
            return mk("opaque", "ellipsis")
        return C(v)

    def e_Name(self, e, env, st):
        return self.lookup(e.id, env, e)

    def e_NamedExpr(self, e, env, st):
        v = self.ev(e.value, env, st)
        env.vars[e.target.id] = v
        return v

    def e_Tuple(self, e, env, st):
        xs = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                sq = self.as_seq(self.ev(x.value, env, st), st, x)
                if sq.op not in ("seq", "tuple"):
                    return cat(seq(*xs), sq)
                xs += list(sq.a)
            else:
                xs.append(self.ev(x, env, st))
        return tup(*xs)

    def e_List(self, e, env, st):
        parts = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                parts.append(self.as_seq(self.ev(x.value, env, st), st, x))
            else:
                parts.append(seq(self.ev(x, env, st)))
        return self.new_list(cat(*parts) if parts else seq(), e, st)

    def e_Set(self, e, env, st):
        xs = [self.ev(x, env, st) for x in e.elts]
        return self.new_list(setof(seq(*xs)), e, st, cls="set")

    def e_Dict(self, e, env, st):
        a = self.alloc("dict", e, st)
        d = mk("dict")
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v, env, st)
                od = self.dict_term(o, st, e)
                if od.op != "dict":
                    raise self.err("dict unpacking", e)
                for kk, vv in od.a:
                    d = dput(d, kk, vv)
            else:
                d = dput(d, self.ev(k, env, st), self.ev(v, env, st))
        self.put(st, a, "$d", d)
        return a

    def dict_term(self, o, st, node):
        if o.op == "frozendict":
            return o.a[0]
        if cls_of(o) == "dict":
            return self.get(st, o, "$d")
        raise self.err("dict expected", node)

    def e_JoinedStr(self, e, env, st):
        ps = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                ps.append(C(v.value))
            else:
                x = self.ev(v.value, env, st)
                spec = ""
                if v.format_spec is not None:
                    sp = self.e_JoinedStr(v.format_spec, env, st)
                    spec = sp.a[0] if sp.op == "c" else "?"
                if v.conversion == 114:
                    spec = "!r" + spec
                ps.append(strof(self.to_str(x, st, e) if not spec else x, spec) if not spec else strof(x, spec))
        return strcat(*ps)

    def to_str(self, x, st, node):
        c = cls_of(x)
        if isinstance(c, Class):
            f = c.find("__str__")
            if f is not None:
                return self.call_func(f, [x], {}, node, st)
            return mk("strof", x, "", ty="str")
        if c in ("list", "set"):
            return mk("strof", self.get(st, x, "$c"), "", ty="str")
        return strof(x)

    def e_FormattedValue(self, e, env, st):
        return strof(self.ev(e.value, env, st))

    def e_Lambda(self, e, env, st):
        f = Func("<lambda>", e, env.module, None)
        f.closure = env
        return mk("func", f)

    def e_IfExp(self, e, env, st):
        c = self.cond(e.test, env, st)
        if c is TRUE:
            return self.ev(e.body, env, st)
        if c is FALSE:
            return self.ev(e.orelse, env, st)
        return self.fork(c, lambda t: self.ev(e.body, env, t), lambda t: self.ev(e.orelse, env, t), env, st)

    def fork(self, c, f, g, env, st):
        s2 = st.copy()
        pc = st.pc
        s1 = st.copy()
        s1.fact(c)
        s2.fact(neg_b(c))
        x = f(s1)
        y = g(s2)
        o = self.merge([Out("next", c, None, s1, x), Out("next", neg_b(c), None, s2, y)], "next")
        o.st.pc = pc
        st.become(o.st)
        return o.val

    def e_BoolOp(self, e, env, st):
        return self.boolop(e, env, st, False)

    def boolop(self, e, env, st, test):
        is_and = isinstance(e.op, ast.And)
        vals = e.values

        def go(i, s):
            if i == len(vals) - 1:
                return self.cond(vals[i], env, s) if test else self.ev(vals[i], env, s)
            if test:
                v = c = self.cond(vals[i], env, s)
            else:
                v = self.ev(vals[i], env, s)
                c = decide(self.truth(v, s, e), s.pc)
            if c is TRUE:
                return go(i + 1, s) if is_and else v
            if c is FALSE:
                return v if is_and else go(i + 1, s)
            if is_and:
                return self.fork(c, lambda t: go(i + 1, t), lambda t: FALSE if test else assume(v, [neg_b(c)]), env, s)
            return self.fork(c, lambda t: TRUE if test else assume(v, lits_of(c)), lambda t: go(i + 1, t), env, s)
        return go(0, st)

    def e_UnaryOp(self, e, env, st):
        if isinstance(e.op, ast.Not):
            return neg_b(self.cond(e.operand, env, st))
        v = self.ev(e.operand, env, st)
        if isinstance(e.op, ast.USub):
            return neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        return mk("invert", v)

    def e_BinOp(self, e, env, st):
        a = self.ev(e.left, env, st)
        b = self.ev(e.right, env, st)
        return self.binop(e.op, a, b, st, e)

    OPN = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__", ast.Div: "__truediv__", ast.FloorDiv: "__floordiv__",
           ast.Mod: "__mod__", ast.Pow: "__pow__", ast.BitOr: "__or__", ast.BitAnd: "__and__", ast.BitXor: "__xor__", ast.MatMult: "__matmul__",
           ast.LShift: "__lshift__", ast.RShift: "__rshift__"}

    def binop(self, op, a, b, st, node):
        if a.op == "ite" and (cls_of(a) is not None or a.a[1].ty == "str" or contains_ref(a)):
            return self.fork(a.a[0], lambda t: self.binop(op, assume(a.a[1], t.pc), b, t, node), lambda t: self.binop(op, assume(a.a[2], t.pc), b, t, node), None, st)
        if b.op == "ite" and contains_ref(b):
            return self.fork(b.a[0], lambda t: self.binop(op, a, b.a[1], t, node), lambda t: self.binop(op, a, b.a[2], t, node), None, st)
        ca, cb = cls_of(a), cls_of(b)
        if isinstance(ca, Class):
            f = ca.find(self.OPN[type(op)])
            if f is None:
                raise self.err("operator %s on %s" % (type(op).__name__, ca.name), node)
            return self.call_func(f, [a, b], {}, node, st)
        if isinstance(cb, Class):
            f = cb.find(self.OPN[type(op)].replace("__", "__r", 1))
            if f is None:
                raise self.err("operator on %s" % cb.name, node)
            return self.call_func(f, [b, a], {}, node, st)
        if ca == "list" or cb == "list" or (isinstance(op, (ast.Add, ast.Mult)) and (is_seqval(a) or is_seqval(b))):
            if isinstance(op, ast.Add):
                x, y = self.as_seq(a, st, node), self.as_seq(b, st, node)
                if a.op == "tuple" and b.op == "tuple":
                    return tup(*(a.a + b.a))
                return self.new_list(cat(x, y), node, st)
            if isinstance(op, ast.Mult):
                x, k = (a, b) if (ca == "list" or is_seqval(a)) else (b, a)
                s = self.as_seq(x, st, node)
                if s.op == "seq" and len(s.a) == 1:
                    t = tmpidx(k)
                    return self.new_list(mapt(k, t, s.a[0]), node, st)
                return self.new_list(mk("rep", s, k, ty="seq"), node, st)
        if ca == "set" or cb == "set":
            x = self.get(st, a, "$c") if ca == "set" else setof(self.as_seq(a, st, node))
            y = self.as_seq(b, st, node)
            if isinstance(op, ast.BitOr):
                r = self.set_union(x, y)
            elif isinstance(op, ast.Sub):
                r = self.set_diff(x, y)
            elif isinstance(op, ast.BitAnd):
                r = self.set_inter(x, y)
            else:
                raise self.err("set operator", node)
            return self.new_list(r, node, st, cls="set")
        if isinstance(op, ast.Mod) and (a.ty == "str" or a.op == "c" and isinstance(a.a[0], str)):
            return self.percent(a, b, st, node)
        if isinstance(op, ast.Add) and (is_str(a) or is_str(b)):
            return strcat(a, b)
        if isinstance(op, ast.Mult) and (is_str(a) or is_str(b)):
            if a.op == "c" and b.op == "c":
                return C(a.a[0] * cval(b)) if is_str(a) else C(b.a[0] * cval(a))
            return mk("strrep", a, b, ty="str")
        f = {ast.Add: add, ast.Sub: sub, ast.Mult: mul, ast.Div: tdiv, ast.FloorDiv: fdiv, ast.Mod: mod, ast.Pow: powt}.get(type(op))
        if f is None:
            if is_boolish(a) and is_boolish(b):
                if isinstance(op, ast.BitAnd):
                    return and_(a, b)
                if isinstance(op, ast.BitOr):
                    return or_(a, b)
            return mk("bit", type(op).__name__, a, b, ty="any")
        if a is NONE or b is NONE:
            self.ev_add("raise", ("arithmetic on None",), st, node)
            return mk("opaque", "type-error")
        # a truth value counts as 0 or 1
        a, b = (ite(x, ONE, ZERO) if is_boolish(x) else x for x in (a, b))
        r = f(a, b)
        return r

    def percent(self, a, b, st, node):
        if a.op != "c":
            return mk("strof", a, "%", ty="str")
        import re
        args = list(b.a) if b.op == "tuple" else [b]
        out, pos, k = [], 0, 0
        s = a.a[0]
        for m in re.finditer(r"%([-+ #0]*\d*(?:\.\d+)?)([sdifgeEr%])", s):
            out.append(C(s[pos:m.start()]))
            pos = m.end()
            if m.group(2) == "%":
                out.append(C("%"))
                continue
            if k >= len(args):
                break
            x = args[k]
            k += 1
            if m.group(1) == "" and m.group(2) in "sdi":
                out.append(strof(x))
            else:
                out.append(strof(x, "%" + m.group(1) + m.group(2)))
        out.append(C(s[pos:]))
        return strcat(*out)

    def e_Compare(self, e, env, st):
        left = self.ev(e.left, env, st)
        res = TRUE
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, env, st)
            res = and_(res, self.compare(op, left, right, st, e))
            left = right
        return decide(res, st.pc)

    def compare(self, op, a, b, st, node):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.identical(a, b, st)
            return neg_b(r) if isinstance(op, ast.IsNot) else r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(a, b, st, node)
            return neg_b(r) if isinstance(op, ast.NotIn) else r
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.equal(a, b, st, node)
            return neg_b(r) if isinstance(op, ast.NotEq) else r
        ca = cls_of(a)
        if isinstance(ca, Class):
            nm = {ast.Lt: "__lt__", ast.LtE: "__le__", ast.Gt: "__gt__", ast.GtE: "__ge__"}[type(op)]
            f = ca.find(nm)
            if f is None:
                raise self.err("ordering of objects", node)
            return self.truth(self.call_func(f, [a, b], {}, node, st), st, node)
        if ca in ("list", "set", "dict") or a.op == "tuple" or cls_of(b) in ("list", "set"):
            return mk("cmp", type(op).__name__, self.valterm(a, st), self.valterm(b, st), ty="bool")
        if isinstance(op, ast.Lt):
            return lt(a, b)
        if isinstance(op, ast.LtE):
            return le(a, b)
        if isinstance(op, ast.Gt):
            return lt(b, a)
        return le(b, a)

    def valterm(self, v, st):
        return self.get(st, v, "$c") if cls_of(v) in ("list", "set") else v

    def identical(self, a, b, st):
        if a.op == "ite":
            return ite(a.a[0], self.identical(a.a[1], b, st), self.identical(a.a[2], b, st))
        if b.op == "ite":
            return ite(b.a[0], self.identical(a, b.a[1], st), self.identical(a, b.a[2], st))
        if a.op == "typeof" or b.op == "typeof":
            return self.type_is(a, b)
        if a.op in ("cls", "func", "ext", "mod_") and b.op in ("cls", "func", "ext", "mod_"):
            return C(a is b)
        if a is not b and (is_numeric(a) and is_numeric(b) or a.ty == "str" or b.ty == "str"):
            # equal numbers and strings are distinct objects in general (CPython shares only small integers)
            small = [x for x in (a, b) if x.op == "c" and (isinstance(x.a[0], bool) or isinstance(x.a[0], (int, Fraction)) and x.a[0] == int(x.a[0]) and -5 <= x.a[0] <= 256 and is_int(x))]
            other = b if small and small[0] is a else a
            if not (small and (is_int(other) or other.ty == "bool")):
                return and_(eq(a, b), mk("sameobj", *sorted((a, b), key=lambda t: t.id), ty="bool"))
        return eq(a, b)

    def type_is(self, a, b):
        if b.op == "typeof" and a.op != "typeof":
            a, b = b, a
        if b.op == "typeof":
            x, y = self.types_of(a.a[0]), self.types_of(b.a[0])
            if x is not None and y is not None:
                return C(x == y)
            return mk("eq", a, b, ty="bool")
        x = self.types_of(a.a[0])
        want = b.a[0] if b.op == "cls" else (b.a[0].split(".")[-1] if b.op == "ext" else None)
        if x is None:
            return mk("eq", a, b, ty="bool")
        return C(x == want)

    def types_of(self, v):
        c = cls_of(v)
        if c is not None and not maybe_none(v):
            return c
        if v.op == "c":
            if v.a[0] is None:
                return "NoneType"
            if isinstance(v.a[0], EnumVal):
                return None
            return v.ty
        if v.op == "tuple":
            return "tuple"
        if is_boolish(v):
            return "bool"
        if v.ty == "float":
            return "float"
        if is_int(v):
            return "int"
        if v.ty in ("str", "float"):
            return v.ty
        if v.op in ("map",):
            return "range"
        if v.op == "func":
            return "function"
        if v.op == "poly":
            return "float" if not is_int(v) else "int"
        return None

    def contains(self, x, s, st, node):
        if s.op == "ite":
            return ite(s.a[0], self.contains(x, s.a[1], st, node), self.contains(x, s.a[2], st, node))
        if s.op == "dkeys" or cls_of(s) == "dict" or s.op == "frozendict":
            d = s.a[0] if s.op in ("dkeys", "frozendict") else self.get(st, s, "$d")
            return dhas(d, x)
        if is_str(s):
            if s.op == "c" and x.op == "c":
                return C(x.a[0] in s.a[0])
            return mk("substr", x, s, ty="bool")
        sq = self.as_seq(s, st, node)
        return member(x, sq)

    def equal(self, a, b, st, node):
        if a.op == "ite" and contains_ref(a):
            return ite(a.a[0], self.equal(a.a[1], b, st, node), self.equal(a.a[2], b, st, node))
        if b.op == "ite" and contains_ref(b):
            return ite(b.a[0], self.equal(a, b.a[1], st, node), self.equal(a, b.a[2], st, node))
        ca, cb = cls_of(a), cls_of(b)
        if isinstance(ca, Class):
            f = ca.find("__eq__")
            if f:
                return self.truth(self.call_func(f, [a, b], {}, node, st), st, node)
            return eq(a, b)
        if a.op == "typeof" or b.op == "typeof":
            return self.type_is(a, b)
        if ca in ("list", "set") and cb in ("list", "set"):
            x, y = self.get(st, a, "$c"), self.get(st, b, "$c")
            return seq_eq(x, y)
        if ca == "dict" and cb == "dict":
            return mk("eq", *sorted((self.get(st, a, "$d"), self.get(st, b, "$d")), key=lambda t: t.id), ty="bool")
        return eq(a, b)

    def e_Attribute(self, e, env, st):
        o = self.ev(e.value, env, st)
        return self.getattr(o, e.attr, st, e)

    def getattr(self, o, attr, st, node):
        op = o.op
        if op == "ite":
            a, b = o.a[1], o.a[2]
            if a is NONE:
                return self.getattr(b, attr, st, node)
            if b is NONE:
                return self.getattr(a, attr, st, node)
            x = self.getattr(a, attr, st, node)
            y = self.getattr(b, attr, st, node)
            if x.op == "bound" and y.op == "bound" and x is not y:
                if x.a[0] is y.a[0]:
                    return mk("bound", x.a[0], ite(o.a[0], x.a[1], y.a[1]))
            if x.op == "bmeth" and y.op == "bmeth":
                return mk("bmeth", ite(o.a[0], x.a[0], y.a[0]), attr)
            return ite(o.a[0], x, y)
        if op == "mod_":
            mm = self.p.module(o.a[0])
            v = mm.ns.get(attr)
            if v is None:
                if self.p.find_file(o.a[0] + "." + attr):
                    self.p.module(o.a[0] + "." + attr)
                    return mk("mod_", o.a[0] + "." + attr)
                self.ev_add("missing", (o.a[0], attr), st, node)
                return mk("missing", o.a[0] + "." + attr)
            return self.ns_value(v, mm, node)
        if op == "ext":
            return mk("ext", o.a[0] + "." + attr)
        if op == "cls":
            return self.class_attr(o.a[0], attr, st, node)
        if op == "super":
            cls, me = o.a
            f = cls_of(me).find(attr, after=cls) if isinstance(cls_of(me), Class) else None
            if f is None:
                if attr == "__init__":
                    return mk("ext", "builtins.object.__init__")
                raise self.err("super().%s not found" % attr, node)
            if f.kind == "staticmethod":
                return mk("func", f)
            if f.kind == "property":
                return self.call_func(f, [me], {}, node, st)
            return mk("bound", f, me)
        if op == "c" and isinstance(o.a[0], EnumVal):
            if attr == "name":
                return C(o.a[0][1])
            if attr == "value":
                return o.a[0][2]
            raise self.err("enum attribute %s" % attr, node)
        c = cls_of(o)
        if isinstance(c, Class):
            f = c.find(attr)
            if f is not None:
                inst = st.cells.get((o, attr))
                if inst is None:
                    if f.kind == "property":
                        return self.call_func(f, [o], {}, node, st)
                    if f.kind == "staticmethod":
                        return mk("func", f)
                    if f.kind == "classmethod":
                        return mk("bound", f, mk("cls", c))
                    return mk("bound", f, o)
            v = self.get(st, o, attr)
            if v is UNDEF:
                ca = c.find_attr(attr)
                if ca is not None:
                    return self.class_attr(ca[0], attr, st, node)
                if attr == "__class__":
                    return mk("cls", c)
                if attr == "__dict__":
                    raise self.err("__dict__ access", node)
                raise self.err("attribute %s of %s is never set" % (attr, c.name), node)
            if v.op == "sel" and v.a[0].op == "minit" and (c.name, attr) not in H.FTYPES:
                ca = c.find_attr(attr)
                if ca is not None:
                    return self.class_attr(ca[0], attr, st, node)
            return v
        if op == "missing":
            return mk("missing", o.a[0] + "." + attr)
        if op == "func":
            if attr == "__name__":
                return C(o.a[0].name)
        if c in ("list", "set", "dict") or is_seqval(o) or is_str(o) or op == "frozendict" or op == "dkeys":
            return mk("bmeth", o, attr)
        if op in ("bound",) and attr == "__name__":
            return C(o.a[0].name)
        # unknown receiver
        h = self.opaque_attr(o, attr, st, node)
        if h is not None:
            return h
        return mk("attr", o, attr, ty="any")

    def opaque_attr(self, o, attr, st, node):
        """untyped parameter: resolve the method by its (unique) name in the repository"""
        if o.op == "sym" and o.ty in ("param",):
            c = self.duck(attr)
            if c is not None:
                return mk("bound", c.find(attr), o)
        return None

    def duck(self, attr):
        best = None
        fs = set()
        for m in list(self.p.modules.values()):
            for v in m.ns.values():
                if v[0] == "class" and attr in v[1].methods:
                    fs.add(v[1])
        roots = [c for c in fs if not any(c is not d and d in c.mro() for d in fs)]
        if len(roots) == 1:
            return roots[0]
        return None

    def class_attr(self, c, attr, st, node):
        f = c.find(attr)
        if f is not None:
            if f.kind == "classmethod":
                return mk("bound", f, mk("cls", c))
            return mk("func", f)
        ca = c.find_attr(attr)
        if ca is not None:
            if ca[0].is_enum():
                return self.enum_member(ca[0], attr)
            key = (id(ca[1]), "cattr")
            if key not in self.module_cache:
                s = St()
                save = self.loops, self.events, self.cs
                self.loops, self.events, self.cs = [], [], ("cls", ca[0].name)
                env = Env(ca[0].module)
                for nm, ex in ca[0].attrs.items():
                    if ex is ca[1]:
                        break
                    try:
                        env.vars[nm] = self.ev(ex, env, s)
                    except Unsupported:
                        pass
                r = self.ev(ca[1], env, s)
                if cls_of(r) in ("list", "set", "dict"):
                    self.loops, self.events, self.cs = save
                    raise self.err("mutable class attribute %s.%s" % (ca[0].name, attr), node)
                self.loops, self.events, self.cs = save
                self.module_cache[key] = r
            return self.module_cache[key]
        if attr == "__name__":
            return C(c.name)
        raise self.err("class attribute %s.%s" % (c.name, attr), node)

    def enum_member(self, c, attr):
        v = c.attrs[attr]
        if isinstance(v, ast.Constant):
            val = C(v.value)
        elif isinstance(v, ast.UnaryOp) and isinstance(v.operand, ast.Constant):
            val = C(-v.operand.value)
        else:
            val = C(attr)
        return mk("c", EnumVal((c.name, attr, val)), ty="enum:" + c.name)

    def e_Subscript(self, e, env, st):
        o = self.ev(e.value, env, st)
        if isinstance(e.slice, ast.Slice):
            if cls_of(o) == "list":
                sq = self.get(st, o, "$c")
                lo, hi, step = self.slice_bounds(e.slice, env, st, sq)
                if step is ONE:
                    return self.new_list(self.slice(sq, lo, hi), e, st)
                if is_num(step) and step.a[0] == -1 and e.slice.lower is None and e.slice.upper is None:
                    return self.new_list(rev(sq), e, st)
                return self.new_list(mk("slice3", sq, lo, hi, step, ty="seq"), e, st)
            if is_str(o):
                return mk("substring", o, *[self.ev(x, env, st) if x is not None else NONE for x in (e.slice.lower, e.slice.upper)], ty="str")
            if is_seqval(o):
                lo, hi, step = self.slice_bounds(e.slice, env, st, o)
                if step is ONE:
                    return self.slice(o, lo, hi)
                return mk("slice3", o, lo, hi, step, ty="seq")
            xs = [self.ev(x, env, st) if x is not None else NONE for x in (e.slice.lower, e.slice.upper, e.slice.step)]
            return mk("get", o, mk("sl", *xs), ty="any")
        i = self.index(e.slice, env, st)
        if isinstance(e.slice, ast.Tuple) and any(isinstance(x, ast.Slice) for x in e.slice.elts):
            return mk("get", o, i, ty="any")
        return self.getitem(o, i, st, e)

    def index(self, s, env, st):
        if not (isinstance(s, ast.Tuple) and any(isinstance(x, ast.Slice) for x in s.elts)):
            return self.ev(s, env, st)
        xs = []
        for x in s.elts:
            if isinstance(x, ast.Slice):
                xs.append(mk("sl", *[self.ev(y, env, st) if y is not None else NONE for y in (x.lower, x.upper, x.step)]))
            else:
                xs.append(self.ev(x, env, st))
        return tup(*xs)

    def getitem(self, o, i, st, node):
        if o.op == "ite":
            return ite(o.a[0], self.getitem(o.a[1], i, st, node), self.getitem(o.a[2], i, st, node))
        c = cls_of(o)
        if c == "list":
            sq = self.get(st, o, "$c")
            if is_numeric(i) or i.op in ("ite",) or True:
                return assume(elem(sq, i), st.pc) if st.pc else elem(sq, i)
        if c == "dict" or o.op == "frozendict":
            d = o.a[0] if o.op == "frozendict" else self.get(st, o, "$d")
            return dget(d, i)
        if isinstance(c, Class):
            f = c.find("__getitem__")
            if f:
                return self.call_func(f, [o, i], {}, node, st)
            raise self.err("subscript of %s" % c.name, node)
        if o.op == "ext":
            return mk("call", o.a[0] + "[]", self.deep(i, st), ty="any")
        if is_str(o):
            return mk("substring", o, i, NONE, ty="str")
        if is_seqval(o) or o.op == "tuple":
            return elem(o, i)
        if o.op == "cls" and o.a[0].is_enum():
            if i.op == "c":
                return self.enum_member(o.a[0], i.a[0])
        if o is NONE:
            self.ev_add("raise", ("subscript of None",), st, node)
            return mk("opaque", "type-error")
        return mk("get", o, i, ty="any")

    def deep(self, v, st):
        """value with list/dict contents resolved, for opaque external consumers"""
        if v.op == "tuple":
            return tup(*[self.deep(x, st) for x in v.a])
        if v.op == "ite":
            return ite(v.a[0], self.deep(v.a[1], st), self.deep(v.a[2], st))
        c = cls_of(v)
        if c in ("list", "set"):
            s = self.get(st, v, "$c")
            return mk("L", self.deep_seq(s, st))
        if c == "dict":
            d = self.get(st, v, "$d")
            if d.op == "dict":
                return mk("D", *[tup(k, self.deep(x, st)) for k, x in d.a])
            return mk("D", d)
        return v

    def deep_seq(self, s, st):
        if s.op == "seq":
            return seq(*[self.deep(x, st) for x in s.a])
        if s.op in ("map",):
            t = tmpidx(s.a[0])
            b, = opened(s, t)
            b2 = self.deep(b, st)
            return mapt(s.a[0], t, b2) if b2 is not b else s
        if s.op == "cat":
            return cat(*[self.deep_seq(x, st) for x in s.a])
        return s

    # ------------------------------------------------------------ comprehensions
    def e_ListComp(self, e, env, st):
        return self.comp(e, env, st, "list")

    def e_SetComp(self, e, env, st):
        l = self.comp(e, env, st, "list")
        c = setof(self.get(st, l, "$c"))
        return self.new_list(c, e, st, tag="set", cls="set")

    def e_GeneratorExp(self, e, env, st):
        l = self.comp(e, env, st, "gen")
        return self.get(st, l, "$c")

    def e_DictComp(self, e, env, st):
        gens = e.generators
        out = self.alloc("dict", e, st)
        self.put(st, out, "$d", mk("dict"))
        env2 = Env(env.module, env)
        env2.func = env.func

        def leaf(en, s):
            k = self.ev(e.key, en, s)
            v = self.ev(e.value, en, s)
            self.mutate_d(s, out, dput(self.get(s, out, "$d"), k, v), "setitem", (k, v), e)
            return self.nxt(en, s)
        self.comp_loops(gens, 0, leaf, env2, st, e)
        return out

    def comp(self, e, env, st, kind):
        out = self.new_list(seq(), e, st, tag="comp")
        env2 = Env(env.module, env)
        env2.func = env.func

        def leaf(en, s):
            v = self.ev(e.elt, en, s)
            old = self.get(s, out, "$c")
            et = self.ty_alts(v)
            self.list_elems.setdefault(home(out), set()).add(et[0] if len(et) == 1 else None)
            self.put(s, out, "$c", cat(old, seq(v)))
            return self.nxt(en, s)
        self.comp_loops(e.generators, 0, leaf, env2, st, e)
        c = self.get(st, out, "$c")
        return out

    def comp_loops(self, gens, i, leaf, env, st, node):
        if i == len(gens):
            outs = leaf(env, st)
            return
        g = gens[i]
        src = self.ev(g.iter, env, st)
        names = target_names(g.target)

        def body(e, t, k, val):
            self.assign(g.target, val, e, t)

            def conds(j, e1, t1):
                if j == len(g.ifs):
                    if i + 1 == len(gens):
                        return leaf(e1, t1)
                    self.comp_loops(gens, i + 1, leaf, e1, t1, node)
                    return self.nxt(e1, t1)
                c = self.cond(g.ifs[j], e1, t1)
                return self.branch(c, lambda e2, t2: conds(j + 1, e2, t2), lambda e2, t2: self.nxt(e2, t2), e1, t1)
            outs = conds(0, e, t)
            return [self.merge([o for o in outs if o.kind == "next"], "next")] if outs else []
        outs = self.iterate(src, names, body, env, st, g.iter, "c")
        o = self.merge([o for o in outs if o.kind == "next"], "next")
        st.become(o.st)

    # ------------------------------------------------------------ sequences of values
    def as_seq(self, v, st, node):
        """the sequence of elements an iteration over v produces"""
        c = cls_of(v)
        if c == "list":
            return self.get(st, v, "$c")
        if c == "set":
            self.ev_add("setiter", (self.get(st, v, "$c"),), st, node)
            return aslist(self.get(st, v, "$c"))
        if c == "dict":
            return dkeys(self.get(st, v, "$d"))
        if v.op == "ite":
            return ite(v.a[0], self.as_seq(v.a[1], st, node), self.as_seq(v.a[2], st, node))
        if v.op == "setof":
            self.ev_add("setiter", (v,), st, node)
            return aslist(v)
        if v.op == "dkeys":
            return dkeys(v.a[0])
        if is_seqval(v) or v.op == "tuple":
            return v
        if v.op == "frozendict":
            return dkeys(v.a[0])
        if v.op == "cls" and v.a[0].is_enum():
            return seq(*[self.enum_member(v.a[0], a) for a in v.a[0].attrs])
        if isinstance(c, Class):
            f = c.find("__iter__")
            if f is not None:
                return self.as_seq(self.call_func(f, [v], {}, node, st), st, node)
            raise self.err("iteration over %s" % c.name, node)
        if is_str(v):
            if v.op == "c":
                return seq(*[C(ch) for ch in v.a[0]])
            t = mk("items", v, ty="seq")
            TM.ELEM_TY[t] = "str"
            TM.LEN[t] = mk("len", v, ty="int")
            return t
        if v.op in ("sym", "res", "get", "attr", "call", "elem", "sel"):
            # opaque iterable
            t = mk("items", v, ty="seq")
            if v in TM.ELEM_TY:
                TM.ELEM_TY[t] = TM.ELEM_TY[v]
            return t
        raise self.err("iteration over %s" % show(v)[:80], node)

    def set_union(self, s, q):
        return setof(cat(s.a[0] if s.op == "setof" else aslist(s), q))

    def set_diff(self, s, q):
        base = s.a[0] if s.op == "setof" else aslist(s)
        return setof(self.filter_seq(base, lambda x: neg_b(member(x, q))))

    def set_inter(self, s, q):
        base = s.a[0] if s.op == "setof" else aslist(s)
        return setof(self.filter_seq(base, lambda x: member(x, q)))

    def filter_seq(self, s, p):
        if s.op == "seq":
            return cat(seq(), *[ite(p(x), seq(x), seq()) for x in s.a])
        if s.op == "cat":
            return cat(*[self.filter_seq(x, p) for x in s.a])
        if s.op == "fmap":
            t = tmpidx(s.a[0])
            c, b = opened(s, t)
            return fmapt(s.a[0], t, and_(c, p(b)), b)
        n = length(s)
        t = tmpidx(n)
        x = elem(s, t)
        return fmapt(n, t, p(x), x)

    # ------------------------------------------------------------ calls
    def e_Call(self, e, env, st):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in env.vars:
            if e.args:
                c = self.ev(e.args[0], env, st)
                me = self.ev(e.args[1], env, st)
                return mk("super", c.a[0], me)
            f = env.func_env()
            cls = f.cls
            me = env.first_arg()
            return mk("super", cls, me)
        f = self.ev(e.func, env, st)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                sq = self.as_seq(self.ev(a.value, env, st), st, a)
                if sq.op not in ("seq", "tuple"):
                    n = length(sq)
                    if is_num(n):
                        args += [elem(sq, C(i)) for i in range(int(n.a[0]))]
                        continue
                    args.append(mk("star", sq))
                    continue
                args += list(sq.a)
            elif isinstance(a, ast.BinOp) and isinstance(a.op, ast.Div) and f.op == "ext" and f.a[0] in ("builtins.int", "math.floor", "numpy.floor") and len(e.args) == 1:
                # one correctly rounded division of integers, then truncation
                x, y = self.ev(a.left, env, st), self.ev(a.right, env, st)
                if is_int(x) and is_int(y) and nonneg(x) and positive(y):
                    return fdiv(x, y)
                args.append(self.binop(a.op, x, y, st, a))
            else:
                args.append(self.ev(a, env, st))
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, env, st)
                dt = self.dict_term(d, st, e)
                if dt.op != "dict":
                    kw["**"] = dt
                    continue
                for kk, vv in dt.a:
                    kw[kk.a[0]] = vv
            else:
                kw[k.arg] = self.ev(k.value, env, st)
        return self.call(f, args, kw, e, st, env)

    def call(self, f, args, kw, node, st, env=None):
        op = f.op
        if op == "func":
            return self.call_func(f.a[0], args, kw, node, st)
        if op == "bound":
            return self.call_func(f.a[0], [f.a[1]] + args, kw, node, st)
        if op == "cls":
            return self.instantiate(f.a[0], args, kw, node, st)
        if op == "bmeth":
            from .builtins_ import call_method
            return call_method(self, f.a[0], f.a[1], args, kw, node, st)
        if op == "ext":
            from .builtins_ import call_ext
            return call_ext(self, f.a[0], args, kw, node, st, env)
        if op == "ite":
            return self.fork(f.a[0], lambda t: self.call(f.a[1], args, kw, node, t, env), lambda t: self.call(f.a[2], args, kw, node, t, env), env, st)
        if op == "partial":
            return self.call(f.a[0], list(f.a[1]) + args, dict(list(f.a[2]) + list(kw.items())), node, st, env)
        if op == "missing":
            self.ev_add("badcall", (f.a[0],), st, node)
            return mk("opaque", "missing", f)
        if op == "attr":
            recv, name = f.a
            return self.opaque_call(recv, name, args, kw, node, st)
        c = cls_of(f)
        if isinstance(c, Class) and c.find("__call__"):
            return self.call_func(c.find("__call__"), [f] + args, kw, node, st)
        return self.opaque_call(f, "()", args, kw, node, st)

    def opaque_call(self, recv, name, args, kw, node, st):
        """method of an unknown object"""
        dargs = tuple(self.deep(a, st) for a in args)
        dkw = tuple(sorted((k, self.deep(v, st)) for k, v in kw.items()))
        key = []
        for ix, n, k in self.loops:
            key.append(ix)
        r = mk("res", recv, name, dargs, dkw, self.lkey(node), *key, ty="any")
        if self.pure_opaque(recv, name):
            return mk("res", recv, name, dargs, dkw, "pure", ty="any")
        self.ev_add("mcall", (recv, name, dargs, dkw, r), st, node)
        return r

    PURE_METH = ("strftime", "isoformat", "timestamp", "total_seconds", "copy", "format", "mean", "sum", "transpose", "astype", "reshape",
                 "items", "keys", "values", "get", "split", "strip", "upper", "lower", "replace", "join", "tolist", "min", "max")

    def pure_opaque(self, recv, name):
        if name == "join" and recv.ty != "str" and not (recv.op == "c" and isinstance(recv.a[0], str)):
            return False        # Thread.join, Process.join
        return name in self.PURE_METH

    def instantiate(self, c, args, kw, node, st):
        if c.is_enum():
            raise self.err("enum construction", node)
        h = self.cut.get(c)
        if h is not None:
            r = h(self, args, kw, node, st)
            if r is not None:
                return r
        a = self.alloc(c, node, st)
        f = c.find("__init__")
        if f is not None:
            self.call_func(f, [a] + args, kw, node, st)
        elif any(isinstance(b, str) for k in c.mro() for b in k.bases):
            ext = [b for k in c.mro() for b in k.bases if isinstance(b, str) and b not in ("object",)]
            if ext:
                raise self.err("class with external base %s" % ext[0], node)
        elif c.node.decorator_list:
            raise self.err("decorated class", node)
        return a

    def call_func(self, f, args, kw, node, st):
        if self.depth > MAXDEPTH:
            raise self.err("call depth exceeded (recursion?) at %s" % f.qual, node)
        if isinstance(f.node, ast.AsyncFunctionDef):
            raise self.err("async function", node)
        h = self.cut.get(f)
        if h is not None:
            r = h(self, args, kw, node, st)
            if r is not None:
                return r
        self.funcs_seen.add(f)
        env = Env(f.module, f.closure)
        env.func = f
        env.args = args
        self.bind(f, args, kw, env, st, node)
        self.ev_add("call", (f, tuple(args), tuple(sorted(kw.items()))), st, node)
        if isinstance(f.node, ast.Lambda):
            cs = self.cs
            self.cs = cs + (id(node), id(f.node))
            self.fstack.append(f)
            self.depth += 1
            try:
                return self.ev(f.node.body, env, st)
            finally:
                self.cs = cs
                self.fstack.pop()
                self.depth -= 1
        for d in f.node.decorator_list:
            nm = d.id if isinstance(d, ast.Name) else (d.attr if isinstance(d, ast.Attribute) else None)
            if nm not in ("staticmethod", "classmethod", "property", "setter", "abstractmethod", "override"):
                raise self.err("decorator %s" % ast.unparse(d), f.node)
        if is_generator(f.node):
            return self.call_generator(f, env, node, st)
        cs = self.cs
        self.cs = cs + (id(node), id(f.node))
        self.fstack.append(f)
        self.depth += 1
        try:
            pc0 = st.pc
            outs = self.block(f.node.body, env, st)
        finally:
            self.cs = cs
            self.fstack.pop()
            self.depth -= 1
        rets = []
        dropped = False
        for o in outs:
            if o.kind == "ret":
                rets.append(o)
            elif o.kind == "next":
                o.val = NONE
                rets.append(o)
            elif o.kind == "raise":
                dropped = True
            else:
                raise self.err("loop control outside a loop", node)
        if not rets:
            # never returns normally
            self.ev_add("noreturn", (f,), st, node)
            st.fact(FALSE) if False else None
            return mk("opaque", "noreturn", f.qual)
        for r in rets:
            r.env = None
        o = self.merge(rets, "ret") if len(rets) > 1 else rets[0]
        pc = pc0
        if dropped:
            # facts that hold because no exception was raised
            extra = [l for l in o.st.pc if l not in pc0]
            pc = o.st.pc if extra else pc0
        o.st.pc = pc
        st.become(o.st)
        v = o.val
        if v.op == "ite":
            v = assume(v, st.pc)
        self.ev_add("ret", (f, v), st, node)
        return v

    def call_generator(self, f, env, node, st):
        # eager list of the yielded values (only sound for generators that are consumed completely and at once)
        out = self.new_list(seq(), node, st, tag="gen" + f.name)
        env.vars["$yield"] = out
        cs = self.cs
        self.cs = cs + (id(node), id(f.node))
        self.fstack.append(f)
        self.depth += 1
        try:
            outs = self.block(f.node.body, env, st)
        finally:
            self.cs = cs
            self.fstack.pop()
            self.depth -= 1
        rets = [o for o in outs if o.kind in ("ret", "next")]
        for r in rets:
            r.env, r.val = None, NONE
        pc = st.pc
        o = self.merge(rets, "ret")
        o.st.pc = pc
        st.become(o.st)
        return self.get(st, out, "$c")

    def e_Yield(self, e, env, st):
        out = self.lookup("$yield", env, e)
        v = self.ev(e.value, env, st) if e.value is not None else NONE
        self.put(st, out, "$c", cat(self.get(st, out, "$c"), seq(v)))
        return NONE

    def e_YieldFrom(self, e, env, st):
        out = self.lookup("$yield", env, e)
        v = self.as_seq(self.ev(e.value, env, st), st, e)
        self.put(st, out, "$c", cat(self.get(st, out, "$c"), v))
        return NONE

    def bind(self, f, args, kw, env, st, node):
        a = f.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        kw = dict(kw)
        bad = None
        star = [x for x in args if x.op == "star"]
        if star:
            raise self.err("call with an unknown number of arguments", node)
        vals = {}
        pos = list(args)
        for p in params:
            if pos:
                if p in kw:
                    bad = "argument %s given twice" % p
                vals[p] = pos.pop(0)
            elif p in kw:
                vals[p] = kw.pop(p)
        if pos:
            if a.vararg:
                vals[a.vararg.arg] = tup(*pos)
            else:
                bad = "%d surplus positional arguments" % len(pos)
        elif a.vararg:
            vals[a.vararg.arg] = tup()
        for p in a.kwonlyargs:
            if p.arg in kw:
                vals[p.arg] = kw.pop(p.arg)
        if a.kwarg:
            d = mk("dict", *[(C(k), v) for k, v in sorted(kw.items()) if k != "**"])
            if "**" in kw:
                d = kw["**"]
            o = self.alloc("dict", f.node, st, tag="kwargs%s" % id(node))
            self.put(st, o, "$d", d)
            vals[a.kwarg.arg] = o
        elif kw:
            bad = "unexpected keyword arguments %s" % ", ".join(kw)
        defaults = a.defaults
        allp = params
        for p, d in zip(allp[len(allp) - len(defaults):], defaults):
            if p not in vals:
                vals[p] = self.default(f, d, st)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg not in vals and d is not None:
                vals[p.arg] = self.default(f, d, st)
        missing = [p for p in params if p not in vals] + [p.arg for p in a.kwonlyargs if p.arg not in vals]
        if missing:
            bad = "missing argument %s" % ", ".join(missing)
        if bad:
            self.ev_add("badcall", (f.qual, bad), st, node)
            raise self.err("call of %s does not match its parameters: %s" % (f.qual, bad), node)
        env.vars.update(vals)

    def default(self, f, d, st):
        if isinstance(d, (ast.List, ast.Dict, ast.Set)) or (isinstance(d, ast.Call)):
            # one shared object per definition; treated as created at definition time
            key = ("default", id(d))
            a = self.module_cache.get(key)
            if a is None:
                kind = "dict" if isinstance(d, ast.Dict) else ("set" if isinstance(d, ast.Set) else "list")
                l = "default:%s@%s" % (kind, d.lineno)
                H.LABELS[l] = dict(cls=kind, node=d, phase=-1, fn=f)
                a = new(l)
                self.module_cache[key] = a
                if isinstance(d, ast.Call) and ast.unparse(d.func) not in ("list", "dict", "set"):
                    raise self.err("call in a default value", d)
            if cls_of(a) in ("list", "set") and (a, "$c") not in H.DEFAULTS:
                c0 = seq() if cls_of(a) == "list" else setof(seq())
                if isinstance(d, ast.List) and d.elts:
                    c0 = seq(*[self.ev(x, Env(f.module), St()) for x in d.elts])
                H.DEFAULTS[(a, "$c")] = c0
            if cls_of(a) == "dict" and (a, "$d") not in H.DEFAULTS:
                H.DEFAULTS[(a, "$d")] = mk("dict")
            return a
        cs, self.cs = self.cs, ("default", f.qual)
        lp, self.loops = self.loops, []
        try:
            env = Env(f.module, f.closure)
            if f.cls is not None:
                for nm, ex in f.cls.attrs.items():
                    if isinstance(ex, ast.Constant):
                        env.vars[nm] = C(ex.value)
            return self.ev(d, env, st)
        finally:
            self.cs = cs
            self.loops = lp

    def e_Starred(self, e, env, st):
        raise self.err("starred expression", e)


class Env:
    __slots__ = ("vars", "module", "outer", "func", "args")

    def __init__(self, module, outer=None):
        self.vars = {}
        self.module = module
        self.outer = outer
        self.func = None
        self.args = ()

    def copy(self):
        e = Env(self.module, self.outer)
        e.vars = dict(self.vars)
        e.func, e.args = self.func, self.args
        return e

    def func_env(self):
        e = self
        while e is not None:
            if e.func is not None and e.func.cls is not None:
                return e.func
            e = e.outer
        return None

    def first_arg(self):
        e = self
        while e is not None:
            if e.func is not None and e.func.cls is not None:
                if e.args:
                    return e.args[0]
            e = e.outer
        return None


# ---------------------------------------------------------------- small helpers
def hash_cs(cs):
    import zlib
    return CSIDS.setdefault(cs, len(CSIDS))


CSIDS = {}


def is_str(v):
    return v.ty == "str" or (v.op == "c" and isinstance(v.a[0], str)) or v.op in ("strcat", "strof", "substring", "strrep")


def is_seqval(v):
    return v.op in ("seq", "map", "fmap", "flat", "cat", "tuple", "perm", "distinct", "distinctby", "aslist", "upd", "bupd", "slice", "remove",
                    "rev", "zipl", "sorted", "items", "rep", "slice3") or v.ty == "seq"


def contains_ref(v):
    if v.op == "ite":
        return contains_ref(v.a[1]) or contains_ref(v.a[2])
    return cls_of(v) is not None


def rev(s):
    if s.op == "seq":
        return seq(*reversed(s.a))
    if s.op == "rev":
        return s.a[0]
    return mk("rev", s, ty="seq")


def member(x, s):
    """x in sequence/set term"""
    if s.op == "ite":
        return ite(s.a[0], member(x, s.a[1]), member(x, s.a[2]))
    while s.op in ("setof", "aslist", "distinct", "perm", "rev", "sorted"):
        s = s.a[0]
    if s.op in ("seq", "tuple"):
        return or_(*[eq(x, y) for y in s.a])
    if s.op == "cat":
        return or_(*[member(x, y) for y in s.a])
    if s.op == "ite":
        return ite(s.a[0], member(x, s.a[1]), member(x, s.a[2]))
    if s.op == "fmap":
        t = tmpidx(s.a[0])
        c, b = opened(s, t)
        return exists(s.a[0], t, and_(c, eq(b, x)))
    if s.op == "flat":
        t = tmpidx(s.a[0])
        b, = opened(s, t)
        return exists(s.a[0], t, member(x, b))
    if s.op == "sadd":
        return or_(member(x, s.a[0]), eq(x, s.a[1]))
    n = length(s)
    t = tmpidx(n)
    return exists(n, t, eq(elem(s, t), x))


TM.MEMBER[0] = member


def seq_eq(x, y):
    if x is y:
        return TRUE
    if x.op == "seq" and y.op == "seq":
        if len(x.a) != len(y.a):
            return FALSE
        return and_(*[eq(a, b) for a, b in zip(x.a, y.a)])
    if y.op == "seq" and not y.a:
        return eq(length(x), ZERO)
    if x.op == "seq" and not x.a:
        return eq(length(y), ZERO)
    if x.op == "setof" and y.op == "setof":
        return eq(x, y)
    return mk("eq", *sorted((x, y), key=lambda t: t.id), ty="bool")


def dput(d, k, v):
    if d.op == "dict" and k.op == "c":
        items = list(d.a)
        for i, (kk, vv) in enumerate(items):
            if kk is k:
                items[i] = (k, v)
                break
        else:
            if any(kk.op != "c" for kk, _ in items):
                return mk("dputx", d, k, v)
            items.append((k, v))
        return mk("dict", *items)
    return mk("dputx", d, k, v)


def dget(d, k):
    if d.op == "dict":
        if k.op == "c":
            for kk, vv in d.a:
                if kk is k:
                    return vv
            return mk("opaque", "key-error", d, k)
        # computed key over a constant table
        r = None
        for kk, vv in reversed(d.a):
            r = vv if r is None else ite(eq(k, kk), vv, r)
        return r if r is not None else mk("opaque", "key-error", d, k)
    if d.op == "dputx":
        e = eq(d.a[1], k)
        if e is TRUE:
            return d.a[2]
        if e is FALSE:
            return dget(d.a[0], k)
    if d.op == "dictby":
        # the value is a function of the key
        t = tmpidx(d.a[2].a[0])
        kk, v = opened(d.a[2], t)[0].a
        r = TM.replace(v, kk, k)
        if not has(r, t):
            return r
    return mk("get", d, k, ty="any")


def dhas(d, k):
    if d.op == "dictby":
        return member(k, d.a[0])
    if d.op == "dict":
        if k.op == "c":
            return C(any(kk is k for kk, _ in d.a))
        return or_(*[eq(k, kk) for kk, _ in d.a])
    return mk("haskey", d, k, ty="bool")


def dvalues(d):
    if d.op == "dict":
        return seq(*[v for _, v in d.a])
    if d.op == "dictby":
        return d.a[1]
    return mk("items", mk("dvalues", d), ty="seq")


def ditems(d):
    if d.op == "dict":
        return seq(*[tup(k, v) for k, v in d.a])
    if d.op == "dictby":
        n = length(d.a[0])
        t = tmpidx(n)
        return mapt(n, t, tup(elem(d.a[0], t), elem(d.a[1], t)))
    return mk("items", mk("ditems", d), ty="seq")


def dkeys(d):
    if d.op == "dictby":
        return d.a[0]
    if d.op == "dict":
        return seq(*[k for k, _ in d.a])
    return mk("items", d, ty="seq")


def target_names(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


class _Assigned(ast.NodeVisitor):
    def __init__(self):
        self.names = set()

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.names.add(n.id)

    def visit_FunctionDef(self, n):
        self.names.add(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        for g in n.generators:
            self.visit(g.iter)
        for w in ast.walk(n):
            if isinstance(w, ast.NamedExpr):
                self.names.add(w.target.id)

    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_alias(self, n):
        self.names.add((n.asname or n.name).split(".")[0])


_an = {}


def assigned_names(stmts):
    v = _Assigned()
    for s in stmts:
        v.visit(s)
    return v.names


def assigned_names_expr(e):
    v = _Assigned()
    v.visit(e)
    return v.names


def is_generator(fn):
    class V(ast.NodeVisitor):
        found = False

        def visit_Yield(self, n):
            self.found = True
        visit_YieldFrom = visit_Yield

        def visit_FunctionDef(self, n):
            pass

        def visit_Lambda(self, n):
            pass
    v = V()
    for s in fn.body:
        v.visit(s)
    return v.found
