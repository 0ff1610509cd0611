"""Every name, attribute and call resolves: scope, definite-assignment, attribute and call-signature analysis of the whole source tree."""
import ast
import builtins
import importlib
import os
import sys
from ..check import repo_root
from ..loader import Unsupported

SKIP = {"test_py", "Docs", "data_pytest", ".git", "__pycache__", "data", "logs"}
EXT = ("ext",)
BUILTIN = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__package__", "__spec__", "__class__"}


class Cls:
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.body = {}            # names bound in the class body
        self.bases, self.open = [], False
        self.attrs = {}           # instance attribute -> list of (method Func, value expression or None)
        self.items = {}           # attribute -> element expressions stored into it

    def mro(self):
        out = [self]
        for b in self.bases:
            out += [c for c in b.mro() if c not in out]
        return out

    def is_open(self):
        return any(c.open for c in self.mro())

    def find(self, n):
        for c in self.mro():
            if n in c.body:
                return c.body[n]
        return None


class Fn:
    def __init__(self, mod, node, cls=None, outer=None):
        self.mod, self.node, self.cls, self.outer = mod, node, cls, outer
        self.name = getattr(node, "name", "<lambda>" if isinstance(node, ast.Lambda) else "<module>")
        self.static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in getattr(node, "decorator_list", []))
        self.clsm = any(isinstance(d, ast.Name) and d.id == "classmethod" for d in getattr(node, "decorator_list", []))
        self.prop = any(isinstance(d, ast.Name) and d.id == "property" or isinstance(d, ast.Attribute) and d.attr in ("setter", "getter")
                        for d in getattr(node, "decorator_list", []))
        self.plain = not getattr(node, "decorator_list", [])
        self.memo = {}

    @property
    def where(self):
        q = (self.cls.name + "." if self.cls else "") + self.name
        return "%s:%s:%s" % (self.mod.rel, getattr(self.node, "lineno", 1), q)


class Mod:
    def __init__(self, dotted, rel, tree):
        self.dotted, self.rel, self.tree = dotted, rel, tree
        self.names = {}
        self.star_ext = False


class World:
    def __init__(self, ck):
        self.ck = ck
        self.mods = {}
        root = repo_root()
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in SKIP and not x.startswith("."))
            for f in sorted(fs):
                if f.endswith(".py"):
                    rel = os.path.relpath(os.path.join(d, f), root)
                    dotted = rel[:-3].replace(os.sep, ".")
                    if dotted.endswith(".__init__"):
                        dotted = dotted[:-9]
                    with open(os.path.join(d, f)) as fh:
                        try:
                            self.mods[dotted] = Mod(dotted, rel, ast.parse(fh.read()))
                        except SyntaxError as e:
                            raise Unsupported("syntax error %s" % e, None, rel)
        self.fns, self.classes, self.amemo = [], [], {}
        for m in self.mods.values():
            self.bind(m, m.tree.body)
        for _ in range(3):
            for m in self.mods.values():
                self.stars(m)
        self.stored = set()                # attributes some code sets on an object other than its own
        self.sites = {}                    # function name -> call sites (function, call) by that name
        self.loose = set()                 # names of functions used other than by calling them
        for c in self.classes:
            if c.node.decorator_list or c.node.keywords:
                c.open = True
            for b in c.node.bases:
                v = self.value(Fn(c.mod, c.mod.tree), b)
                if v and v[0] == "cls":
                    c.bases.append(v[1])
                elif not (isinstance(b, ast.Name) and b.id == "object"):
                    c.open = True
        for c in self.classes:
            self.fields(c)
        for f in self.fns:
            f.memo.clear()
        self.amemo.clear()
        for m in self.mods.values():
            called = set()
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Call):
                    called.add(id(x.func))
            for x in ast.walk(m.tree):
                if isinstance(x, (ast.Attribute, ast.Name)) and isinstance(x.ctx, ast.Load) and id(x) not in called:
                    self.loose.add(x.attr if isinstance(x, ast.Attribute) else x.id)
        stores = []
        for f in self.fns + [Fn(m, m.tree) for m in self.mods.values()]:
            for x in own_nodes(f.node):
                if isinstance(x, ast.Call) and isinstance(x.func, (ast.Attribute, ast.Name)):
                    self.sites.setdefault(x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id, []).append((f, x))
                elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                    stores.append((f, x))
            for x in ast.walk(f.node) if not isinstance(f.node, ast.Module) else ():
                if isinstance(x, SCOPES) and x is not f.node:
                    for y in ast.walk(x):
                        if isinstance(y, ast.Call) and isinstance(y.func, (ast.Attribute, ast.Name)):
                            self.loose.add(y.func.attr if isinstance(y.func, ast.Attribute) else y.func.id)     # called where its arguments are not followed
                        elif isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store):
                            self.stored.add(y.attr)
        for f, x in stores:
            v = self.value(f, x.value)
            if f.cls is not None and isinstance(x.value, ast.Name) and f.node.args.args and x.value.id == f.node.args.args[0].arg:
                continue                       # seen by fields()
            if v is not None and v[0] in ("inst", "cls"):
                v[1].attrs.setdefault(x.attr, []).append((f, None))
            else:
                self.stored.add(x.attr)
        for f in self.fns:
            f.memo.clear()
        self.amemo.clear()

    # ------------------------------------------------------------------ bindings
    def bind(self, m, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Fn(m, st)
                self.fns.append(f)
                m.names[st.name] = ("fn", f)
            elif isinstance(st, ast.ClassDef):
                c = Cls(m, st)
                self.classes.append(c)
                m.names[st.name] = ("cls", c)
                for x in st.body:
                    if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        f = Fn(m, x, c)
                        self.fns.append(f)
                        c.body[x.name] = ("fn", f)
                    else:
                        for t in bound_names(x):
                            c.body[t] = ("attr", None)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    top = a.name if a.asname else a.name.split(".")[0]
                    m.names[a.asname or top] = self.modval(top)
            elif isinstance(st, ast.ImportFrom):
                for a in st.names:
                    if a.name != "*":
                        m.names[a.asname or a.name] = ("from", self.absmod(m, st), a.name)
            else:
                for t in bound_names(st):
                    v = ("val", None, None)
                    if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                        v = ("val", m, st.value)
                    m.names.setdefault(t, v)
                for b in sub_bodies(st):
                    self.bind(m, b)

    def absmod(self, m, st):
        if not st.level:
            return st.module or ""
        base = m.dotted.split(".")
        if not m.rel.endswith("__init__.py"):
            base = base[:-1]
        base = base[:len(base) - (st.level - 1)] if st.level > 1 else base
        return ".".join(base + ([st.module] if st.module else []))

    def modval(self, dotted):
        if dotted in self.mods:
            return ("mod", self.mods[dotted])
        if any(k.startswith(dotted + ".") for k in self.mods):
            return ("pkg", dotted)
        return ("extmod", dotted)

    def stars(self, m):
        for st in ast.walk(m.tree):
            if isinstance(st, ast.ImportFrom) and any(a.name == "*" for a in st.names):
                src = self.mods.get(self.absmod(m, st))
                if src is None:
                    m.star_ext = True
                    continue
                m.star_ext |= src.star_ext
                for n, v in src.names.items():
                    if not n.startswith("_"):
                        m.names.setdefault(n, v)

    def member(self, m, n):
        """value of name n of repository module m, or None"""
        v = m.names.get(n)
        if v is None:
            sub = self.modval(m.dotted + "." + n)
            if sub[0] in ("mod", "pkg"):
                return sub
            return ("unknown",) if m.star_ext else None
        return self.settle(v)

    def settle(self, v, depth=0):
        if v[0] == "from" and depth < 50:
            t = self.modval(v[1])
            if t[0] == "mod":
                w = t[1].names.get(v[2])
                if w is None:
                    sub = self.modval(v[1] + "." + v[2])
                    return sub if sub[0] in ("mod", "pkg") else (("unknown",) if t[1].star_ext else None)
                return self.settle(w, depth + 1)
            if t[0] == "pkg":
                sub = self.modval(v[1] + "." + v[2])
                return sub if sub[0] in ("mod", "pkg") else None
            return EXT
        if v[0] == "val":
            if v[2] is not None and depth < 50:
                r = self.value(Fn(v[1], v[1].tree), v[2], depth + 1)
                if r is not None and r[0] in ("cls", "fn", "mod"):
                    return r
            return ("unknown",)
        return v

    # ------------------------------------------------------------------ attributes
    def fields(self, c):
        for k, f in c.body.items():
            if f[0] != "fn" or f[1].static:
                continue
            f = f[1]
            a = f.node.args.posonlyargs + f.node.args.args
            if not a:
                continue
            me = a[0].arg
            for x in ast.walk(f.node):
                pairs = []
                if isinstance(x, ast.Assign):
                    pairs = [(t, x.value) for t in x.targets]
                elif isinstance(x, ast.AnnAssign):
                    pairs = [(x.target, x.value)]
                elif isinstance(x, (ast.AugAssign,)):
                    pairs = [(x.target, None)]
                elif isinstance(x, (ast.For, ast.comprehension)):
                    pairs = [(x.target, None)]
                elif isinstance(x, ast.withitem) and x.optional_vars is not None:
                    pairs = [(x.optional_vars, None)]
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "add") and len(x.args) == 1:
                    o = x.func.value
                    if is_self(o, me):
                        c.items.setdefault(o.attr, []).append((f, x.args[0]))
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr":
                    c.open = True
                for t, v in pairs:
                    for t2, v2 in unpack(t, v):
                        if is_self(t2, me):
                            c.attrs.setdefault(t2.attr, []).append((f, v2))
                        elif isinstance(t2, ast.Subscript) and is_self(t2.value, me):
                            c.items.setdefault(t2.value.attr, []).append((f, v2))

    def has_attr(self, c, n):
        return any(n in k.body or n in k.attrs for k in c.mro()) or c.is_open() or n in self.stored or n.startswith("__") and n.endswith("__")

    def attr_value(self, c, n, depth):
        v = c.find(n)
        if v is not None:
            return v if v[0] == "fn" else ("unknown",)
        if (c, n) not in self.amemo:
            self.amemo[c, n] = None
            self.amemo[c, n] = self.attr_value_(c, n, depth)
        return self.amemo[c, n]

    def attr_value_(self, c, n, depth):
        out = []
        for k in c.mro():
            for f, e in k.attrs.get(n, ()):
                if e is None:
                    return ("unknown",)
                if isinstance(e, ast.Constant) and e.value is None:
                    continue
                out.append(self.value(f, e, depth + 1))
        r = agree(out)
        return None if r is not None and r[0] == "bi" and (n in self.stored or c.is_open() or any(c in k.mro() and k is not c and n in k.attrs for k in self.classes)) else r

    def item_value(self, c, n, depth):
        if (c, n, 0) not in self.amemo:
            self.amemo[c, n, 0] = None
            self.amemo[c, n, 0] = self.item_value_(c, n, depth)
        return self.amemo[c, n, 0]

    def item_value_(self, c, n, depth):
        out = []
        for k in c.mro():
            for f, e in k.items.get(n, ()):
                out.append(self.value(f, e, depth + 1) if e is not None else None)
        return agree(out)

    # ------------------------------------------------------------------ values (classes of expressions)
    def env(self, f):
        """flow-insensitive classes of the local variables of a function"""
        if "env" not in f.memo:
            asg = {}
            f.memo["env"] = asg
            if not isinstance(f.node, ast.Module):
                a = f.node.args
                for i, p in enumerate(a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]):
                    asg[p.arg] = [("param", i)]
                for x in own_nodes(f.node):
                    if isinstance(x, (ast.Import, ast.ImportFrom)):
                        for al in x.names:
                            n = al.asname or al.name.split(".")[0]
                            if isinstance(x, ast.Import):
                                asg.setdefault(n, []).append(("is", self.modval(al.name if al.asname else n)))
                            elif al.name != "*":
                                asg.setdefault(n, []).append(("is", self.settle(("from", self.absmod(f.mod, x), al.name))))
                    elif isinstance(x, ast.Assign):
                        for t in x.targets:
                            for t2, v2 in unpack(t, x.value):
                                if isinstance(t2, ast.Name):
                                    asg.setdefault(t2.id, []).append(("expr", v2))
                    elif isinstance(x, ast.For):
                        for t2, _ in unpack(x.target, None):
                            if isinstance(t2, ast.Name):
                                asg.setdefault(t2.id, []).append(("each", x.iter) if t2 is x.target else ("expr", None))
                    elif not isinstance(x, ast.Assign):
                        for n in bound_here(x):
                            asg.setdefault(n, []).append(("expr", None))
        return f.memo["env"]

    def value(self, f, e, depth=0):
        """('inst', Cls) / ('cls', Cls) / ('fn', Fn) / ('bound', Fn) / ('mod', Mod) / ('extmod', name) / EXT / None when unknown"""
        if depth > 60 or e is None:
            return None
        if isinstance(e, ast.Name):
            if not isinstance(f.node, ast.Module):
                en = self.env(f)
                if e.id in en:
                    out = []
                    for k, x in en[e.id]:
                        if k == "param":
                            if f.cls is not None and x == 0 and not f.static:
                                out.append(("inst", f.cls) if not f.clsm else ("cls", f.cls))
                            else:
                                out.append(self.argument(f, e.id, depth + 1))
                        elif k == "is":
                            out.append(x)
                        elif k == "each":
                            out.append(self.element(f, x, depth + 1))
                        else:
                            if isinstance(x, ast.Constant) and x.value is None:
                                continue
                            if any(isinstance(y, ast.Name) and y.id == e.id for y in ast.walk(x) if x is not None) if x is not None else True:
                                return None
                            out.append(self.value(f, x, depth + 1))
                    return agree(out)
                if f.outer is not None:
                    return self.value(f.outer, e, depth + 1)
            v = f.mod.names.get(e.id)
            if v is None or v[0] == "val" and v[1] is None:
                return None
            r = self.settle(v, depth + 1)
            return None if r == ("unknown",) else r
        if isinstance(e, ast.Attribute):
            b = self.value(f, e.value, depth + 1)
            if b is None:
                return None
            if b[0] == "mod":
                r = self.member(b[1], e.attr)
                return None if r == ("unknown",) else r
            if b[0] == "pkg":
                r = self.modval(b[1] + "." + e.attr)
                return r if r[0] in ("mod", "pkg") else None
            if b[0] == "extmod" or b is EXT:
                return EXT
            if b[0] == "inst":
                r = self.attr_value(b[1], e.attr, depth + 1)
                if r is not None and r[0] == "fn":
                    if r[1].prop:
                        return self.returned(r[1], depth + 1)
                    return ("bound", r[1], b[1])
                return None if r == ("unknown",) else r
            if b[0] == "cls":
                r = b[1].find(e.attr)
                return ("fn", r[1]) if r is not None and r[0] == "fn" else None
            return None
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in f.mod.names:
                c = f.cls
                if e.args:
                    v = self.value(f, e.args[0], depth + 1)
                    c = v[1] if v and v[0] == "cls" else None
                return ("super", c) if c is not None else None
            if isinstance(e.func, ast.Name) and e.func.id in CONSTRUCTORS and self.plain_builtin(f, e.func.id):
                return ("bi", CONSTRUCTORS[e.func.id])
            if isinstance(e.func, ast.Attribute) and e.func.attr in ("format", "strftime", "join") and isinstance(e.func.value, ast.Constant) \
                    and isinstance(e.func.value.value, str):
                return ("bi", "str")
            g = self.value(f, e.func, depth + 1) if not (isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call)
                                                        and getattr(e.func.value.func, "id", "") == "super") else self.super_method(f, e.func, depth)
            if g is None:
                return None
            if g[0] == "cls":
                return ("inst", g[1])
            if g[0] in ("fn", "bound"):
                return self.returned(g[1], depth + 1)
            return EXT if g is EXT else None
        t = builtin_type(e)
        if t is not None:
            return ("bi", t)
        if isinstance(e, ast.BinOp):
            l, r = self.value(f, e.left, depth + 1), self.value(f, e.right, depth + 1)
            if ("bi", "str") in (l, r) and isinstance(e.op, ast.Add) or l == ("bi", "str") and isinstance(e.op, ast.Mod):
                return ("bi", "str")
            return None
        if isinstance(e, ast.Subscript):
            return self.element(f, e.value, depth + 1)
        if isinstance(e, ast.IfExp):
            return agree([self.value(f, e.body, depth + 1), self.value(f, e.orelse, depth + 1)])
        return None

    def plain_builtin(self, f, n):
        while f is not None:
            if n in f.mod.names or not isinstance(f.node, ast.Module) and n in self.env(f):
                return False
            f = f.outer
        return True

    def argument(self, f, name, depth):
        """the class of the objects every call in the repository passes for a parameter; unknown for parameters the function itself tests"""
        memo = f.memo.setdefault("arg", {})
        if name in memo:
            return memo[name]
        memo[name] = None
        n, a = f.node, getattr(f.node, "args", None)
        if a is None or not isinstance(n, ast.FunctionDef) or f.outer is not None or n.decorator_list or n.name in self.loose \
                or name not in [p.arg for p in a.posonlyargs + a.args]:
            return None
        called = "__init__" == n.name and f.cls is not None
        if called and any(k is not f.cls and f.cls in k.mro() for k in self.classes) or called and f.cls.name in self.loose:
            return None
        sites = self.sites.get(f.cls.name if called else n.name, [])
        if not sites or called and self.sites.get("__init__") and any(f.cls in k.mro()[1:] for k in self.classes):
            return None
        for x in ast.walk(n):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("isinstance", "type", "hasattr", "getattr", "callable", "issubclass"):
                if any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(x)):
                    return None
            elif isinstance(x, (ast.Try, ast.Match)):
                return None
        pos = [p.arg for p in a.posonlyargs + a.args]
        out = []
        for g, c in sites:
            if any(isinstance(y, ast.Starred) for y in c.args) or any(k.arg is None for k in c.keywords):
                return None
            mine = pos
            if f.cls is not None and not f.static:
                if isinstance(c.func, ast.Name) and not called:
                    return None
                v = self.value(g, c.func.value, depth + 1) if isinstance(c.func, ast.Attribute) else None
                if v is not None and v[0] == "cls" and not called:
                    return None
                mine = pos[1:]
            e = next((k.value for k in c.keywords if k.arg == name), None)
            if e is None and name in mine and mine.index(name) < len(c.args):
                e = c.args[mine.index(name)]
            if e is None:
                i = pos.index(name) - (len(pos) - len(a.defaults))
                if i < 0 or i >= len(a.defaults):
                    return None
                e = a.defaults[i]
            if isinstance(e, ast.Constant) and e.value is None:
                continue
            v = self.value(g, e, depth + 1)
            if v is None or v[0] != "inst":
                return None
            out.append(v)
        memo[name] = agree(out)
        return memo[name]

    def super_method(self, f, e, depth):
        s = self.value(f, e.value, depth + 1)
        if s is None or s[0] != "super":
            return None
        for c in s[1].mro()[1:]:
            if e.attr in c.body:
                v = c.body[e.attr]
                return ("bound", v[1], c) if v[0] == "fn" else None
        return None

    def element(self, f, e, depth):
        if depth > 60 or not isinstance(e, ast.Attribute):
            return None
        b = self.value(f, e.value, depth + 1)
        if b is not None and b[0] == "inst":
            return self.item_value(b[1], e.attr, depth + 1)
        return None

    def returned(self, g, depth):
        if "ret" not in g.memo:
            g.memo["ret"] = None
            out = []
            for x in own_nodes(g.node):
                if isinstance(x, ast.Return) and x.value is not None and not (isinstance(x.value, ast.Constant) and x.value.value is None):
                    out.append(self.value(g, x.value, depth + 1))
                elif isinstance(x, (ast.Yield, ast.YieldFrom)):
                    out.append(None)
            g.memo["ret"] = agree(out)
        return g.memo["ret"]


CONSTRUCTORS = {"str": "str", "list": "list", "dict": "dict", "set": "set", "tuple": "tuple", "len": "int", "int": "int", "float": "float", "sorted": "list", "repr": "str",
                "range": "range", "bool": "bool", "frozenset": "frozenset"}
FITTING = {ast.Add: [("str", "str"), ("list", "list"), ("tuple", "tuple")], ast.Sub: [("set", "set"), ("set", "frozenset"), ("frozenset", "set"), ("frozenset", "frozenset")], ast.Div: [], ast.FloorDiv: [], ast.Pow: []}
NUMBERS = ("int", "float", "bool")


def builtin_type(e):
    """the type of a display, a literal or a comprehension"""
    if isinstance(e, ast.Constant):
        t = type(e.value).__name__
        return t if t in ("str", "int", "float", "bool") else None
    for k, t in ((ast.JoinedStr, "str"), (ast.List, "list"), (ast.ListComp, "list"), (ast.Dict, "dict"), (ast.DictComp, "dict"), (ast.Set, "set"), (ast.SetComp, "set"),
                 (ast.Tuple, "tuple")):
        if isinstance(e, k):
            return t
    return None


def agree(vs):
    """the common class of several values; unknown if they differ or one is unknown"""
    vs = list(vs)
    if not vs or any(v is None for v in vs):
        return None
    return vs[0] if all(v == vs[0] for v in vs) else None


def is_self(x, me):
    return isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me


def unpack(t, v):
    if isinstance(t, (ast.Tuple, ast.List)):
        vs = v.elts if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts) else [None] * len(t.elts)
        out = []
        for a, b in zip(t.elts, vs):
            out += unpack(a, b)
        return out
    if isinstance(t, ast.Starred):
        return unpack(t.value, None)
    return [(t, v)]


def bound_here(x):
    """names one node binds itself (statement or walrus)"""
    out = []
    if isinstance(x, (ast.Assign,)):
        out = [n.id for t in x.targets for n, _ in unpack(t, None) if isinstance(n, ast.Name)]
    elif isinstance(x, (ast.AugAssign, ast.AnnAssign, ast.NamedExpr)):
        out = [x.target.id] if isinstance(x.target, ast.Name) else []
    elif isinstance(x, (ast.For, ast.AsyncFor)):
        out = [n.id for n, _ in unpack(x.target, None) if isinstance(n, ast.Name)]
    elif isinstance(x, (ast.With, ast.AsyncWith)):
        out = [n.id for i in x.items if i.optional_vars is not None for n, _ in unpack(i.optional_vars, None) if isinstance(n, ast.Name)]
    elif isinstance(x, (ast.Import, ast.ImportFrom)):
        out = [a.asname or a.name.split(".")[0] for a in x.names if a.name != "*"]
    elif isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
        out = [x.name]
    elif isinstance(x, ast.ExceptHandler) and x.name:
        out = [x.name]
    elif isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
        out = [x.name]
    elif isinstance(x, ast.MatchMapping) and x.rest:
        out = [x.rest]
    return out


def bound_names(st):
    return {n for x in own_nodes(st) for n in bound_here(x)} | set(bound_here(st))


def sub_bodies(st):
    for a in ("body", "orelse", "finalbody"):
        b = getattr(st, a, None)
        if isinstance(b, list) and not isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            yield b
    for h in getattr(st, "handlers", []):
        yield h.body


SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def own_nodes(f):
    """nodes of a scope without those of nested scopes (nested scopes themselves are listed)"""
    todo = list(getattr(f, "body", None) if isinstance(getattr(f, "body", None), list) else [f.body] if isinstance(f, ast.Lambda) else ast.iter_child_nodes(f))
    if isinstance(f, ast.stmt) and not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
        todo = list(ast.iter_child_nodes(f))
    while todo:
        x = todo.pop()
        yield x
        if not isinstance(x, SCOPES):
            todo += list(ast.iter_child_nodes(x))
        elif isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            todo += [y for y in ast.walk(x) if isinstance(y, ast.NamedExpr)]


class Flow:
    """definite assignment: reads of a local variable some path reaches before any assignment (loop bodies are taken to run)"""

    def __init__(self, w, f, report, enclosing=()):
        self.w, self.f, self.report = w, f, report
        self.n = 0
        self.enclosing = set(enclosing)
        node = f.node
        self.glob = set()
        for x in own_nodes(node):
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                self.glob |= set(x.names)
        self.local = {n for x in own_nodes(node) for n in bound_here(x)} - self.glob
        st = set()
        if not isinstance(node, (ast.Module, ast.ClassDef)):
            a = node.args
            ps = {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]}
            self.local |= ps
            st |= ps
        self.module = isinstance(node, (ast.Module, ast.ClassDef))
        self.brk, self.later = [], []
        if isinstance(node, ast.Lambda):
            self.read(node.body, st)
        else:
            self.block(node.body, st)
        for d in self.later:
            g = Fn(f.mod, d, None, f)
            Flow(w, g, report, self.enclosing | (self.local if not isinstance(node, ast.Module) else set()))

    def name(self, x, st):
        self.n += 1
        n = x.id
        if n in self.local and not isinstance(self.f.node, ast.Module):
            if n not in st and not (isinstance(self.f.node, ast.ClassDef) and self.known(n)):
                self.report("name", self.f, x, "'%s' may be read before it has a value" % n)
            return
        if n in st or n in self.enclosing or self.known(n):
            return
        self.report("name", self.f, x, "'%s' is not defined" % n)

    def known(self, n):
        m = self.f.mod
        if n in BUILTIN or m.star_ext:
            return True
        if n in m.names:
            return True
        return False

    def read(self, e, st):
        if e is None:
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load):
                self.name(e, st)
            elif isinstance(e.ctx, ast.Del):
                self.name(e, st)
            return
        if isinstance(e, ast.Lambda):
            for d in e.args.defaults + [x for x in e.args.kw_defaults if x]:
                self.read(d, st)
            self.later.append(e)
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            s = set(st)
            extra = set()
            for g in e.generators:
                self.read_in(g.iter, s, extra)
                for n, _ in unpack(g.target, None):
                    if isinstance(n, ast.Name):
                        extra.add(n.id)
                    else:
                        self.read_in(n, s, extra)
                for c in g.ifs:
                    self.read_in(c, s, extra)
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.read_in(x, s, extra)
            return
        if isinstance(e, ast.NamedExpr):
            self.read(e.value, st)
            st.add(e.target.id)
            return
        if isinstance(e, ast.BoolOp):
            self.read(e.values[0], st)
            s = set(st)
            for x in e.values[1:]:
                self.read(x, s)
            return
        if isinstance(e, ast.IfExp):
            self.read(e.test, st)
            self.read(e.body, set(st))
            self.read(e.orelse, set(st))
            return
        for x in ast.iter_child_nodes(e):
            self.read(x, st)

    def read_in(self, e, st, extra):
        hid, en = extra & self.local, set(self.enclosing)
        self.local -= hid
        self.enclosing |= extra
        try:
            self.read(e, st)
        finally:
            self.local |= hid
            self.enclosing = en

    def target(self, t, st):
        for n, _ in unpack(t, None):
            if isinstance(n, ast.Name):
                st.add(n.id)
            else:
                for x in ast.iter_child_nodes(n):
                    self.read(x, st)

    def join(self, a, b):
        return b if a is None else a if b is None else a & b

    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        if isinstance(s, ast.Assign):
            self.read(s.value, st)
            for t in s.targets:
                self.target(t, st)
        elif isinstance(s, ast.AnnAssign):
            self.read(s.value, st)
            if s.value is not None:
                self.target(s.target, st)
        elif isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                self.name(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), st)
            else:
                self.target(s.target, st)
            self.read(s.value, st)
        elif isinstance(s, ast.If):
            self.read(s.test, st)
            a = self.block(s.body, set(st))
            b = self.block(s.orelse, set(st))
            if isinstance(s.test, ast.Constant):
                return a if s.test.value else b
            return self.join(a, b)
        elif isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            if isinstance(s, ast.While):
                self.read(s.test, st)
            else:
                self.read(s.iter, st)
                self.target(s.target, st)
            self.brk.append([])
            out = self.block(s.body, set(st))
            if out is None and not isinstance(s, ast.While):
                out = set(st)
            elif out is None:
                out = set(st) if not (isinstance(s.test, ast.Constant) and s.test.value) else None
            br = self.brk.pop()
            if isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value:
                out = None
            if s.orelse and out is not None:
                out = self.block(s.orelse, out)
            for b in br:
                out = self.join(out, b)
            return out
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.read(i.context_expr, st)
                if i.optional_vars is not None:
                    self.target(i.optional_vars, st)
            return self.block(s.body, st)
        elif isinstance(s, ast.Try) or type(s).__name__ == "TryStar":
            pre = set(st)
            out = self.block(s.body, set(st))
            if out is not None:
                out = self.block(s.orelse, out)
            for h in s.handlers:
                hs = set(pre)
                self.read(h.type, hs)
                if h.name:
                    hs.add(h.name)
                out = self.join(out, self.block(h.body, hs))
            if s.finalbody:
                fin = self.block(s.finalbody, set(pre))
                if fin is None:
                    return None
                out = None if out is None else out | (fin - pre)
            return out
        elif isinstance(s, (ast.Return, ast.Raise)):
            for x in ast.iter_child_nodes(s):
                self.read(x, st)
            return None
        elif isinstance(s, ast.Break):
            if self.brk:
                self.brk[-1].append(set(st))
            return None
        elif isinstance(s, ast.Continue):
            return None
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                self.read(t, st)
                if isinstance(t, ast.Name):
                    st.discard(t.id)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for x in s.decorator_list + s.args.defaults + [d for d in s.args.kw_defaults if d]:
                self.read(x, st)
            st.add(s.name)
            if not self.module:
                self.later.append(s)
        elif isinstance(s, ast.ClassDef):
            for x in s.decorator_list + s.bases:
                self.read(x, st)
            Flow(self.w, Fn(self.f.mod, s), self.report, self.enclosing | st)
            st.add(s.name)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            st |= set(bound_here(s))
        elif isinstance(s, (ast.Global, ast.Nonlocal, ast.Pass)):
            pass
        elif type(s).__name__ == "Match":
            self.read(s.subject, st)
            outs = [set(st)]
            for c in s.cases:
                cs = set(st) | {n for x in ast.walk(c.pattern) for n in bound_here(x)}
                self.read(c.guard, cs)
                o = self.block(c.body, cs)
                if o is not None:
                    outs.append(o)
            return set.intersection(*outs)
        else:
            for x in ast.iter_child_nodes(s):
                self.read(x, st)
        return st


def signature_problem(g, call, bound):
    """why the arguments of a call do not fit the parameters of a function (None: they fit, or it cannot be seen)"""
    a = g.node.args
    pos = [p.arg for p in a.posonlyargs + a.args]
    if bound and not g.static:
        if not pos and not a.vararg:
            return "the function takes no instance"
        pos = pos[1:]
    if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        return None
    n = len(call.args)
    if n > len(pos) and not a.vararg:
        return "%d positional arguments for %d parameters" % (n, len(pos))
    got = set(pos[:n])
    only = {p.arg for p in a.posonlyargs}
    for k in call.keywords:
        if k.arg in got:
            return "'%s' is given twice" % k.arg
        if k.arg in pos and k.arg not in only or k.arg in {p.arg for p in a.kwonlyargs}:
            got.add(k.arg)
        elif not a.kwarg:
            return "there is no parameter '%s'" % k.arg
    allp = [p.arg for p in a.posonlyargs + a.args]
    need = allp[:len(allp) - len(a.defaults)]
    need = [p for p in need if p in pos] + [p.arg for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    miss = [p for p in need if p not in got]
    return "no argument for %s" % ", ".join(miss) if miss else None


def stdlib_has(mod, n):
    if mod.split(".")[0] not in sys.stdlib_module_names:
        return True
    try:
        m = importlib.import_module(mod)
    except Exception:
        return True
    if hasattr(m, n):
        return True
    try:
        importlib.import_module(mod + "." + n)
        return True
    except Exception:
        return False


class Attrs:
    """attribute reads and calls of one function"""

    def __init__(self, w, f, report):
        self.w, self.f, self.report = w, f, report
        self.n_attr = self.n_call = 0
        for x in (own_nodes(f.node)):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
                self.attribute(x)
            elif isinstance(x, ast.Call):
                self.call(x)
            elif isinstance(x, ast.BinOp) and type(x.op) in FITTING:
                self.operands(x)
            elif isinstance(x, ast.ImportFrom):
                self.imported(x)
            elif isinstance(x, ast.Import):
                for a in x.names:
                    if self.w.modval(a.name.split(".")[0])[0] != "extmod" and self.w.modval(a.name)[0] == "extmod":
                        self.report("import", f, x, "there is no module %s" % a.name)

    def imported(self, x):
        t = self.w.modval(self.w.absmod(self.f.mod, x))
        for a in x.names:
            if a.name == "*":
                continue
            self.n_attr += 1
            if t[0] in ("mod", "pkg"):
                if self.w.settle(("from", self.w.absmod(self.f.mod, x), a.name)) is None:
                    self.report("import", self.f, x, "%s has no '%s'" % (self.w.absmod(self.f.mod, x), a.name))
            elif t[0] == "extmod":
                top = t[1].split(".")[0]
                if self.w.modval(top)[0] != "extmod":
                    self.report("import", self.f, x, "there is no module %s" % t[1])
                elif not stdlib_has(t[1], a.name):
                    self.report("import", self.f, x, "%s has no '%s'" % (t[1], a.name))

    def attribute(self, x):
        w, f = self.w, self.f
        if isinstance(x.value, ast.Call) and getattr(x.value.func, "id", "") == "super":
            s = w.value(f, x.value)
            if s is not None and s[0] == "super":
                self.n_attr += 1
                rest = s[1].mro()[1:]
                if not any(x.attr in c.body for c in rest) and not any(c.open for c in s[1].mro()) and x.attr not in dir(object):
                    self.report("attribute", f, x, "no base class of %s has '%s'" % (s[1].name, x.attr))
            return
        b = w.value(f, x.value)
        if b is None:
            return
        if b[0] == "mod":
            self.n_attr += 1
            if w.member(b[1], x.attr) is None:
                self.report("attribute", f, x, "module %s has no '%s'" % (b[1].dotted, x.attr))
        elif b[0] == "pkg":
            self.n_attr += 1
            if w.modval(b[1] + "." + x.attr)[0] == "extmod":
                self.report("attribute", f, x, "package %s has no '%s'" % (b[1], x.attr))
        elif b[0] == "extmod":
            self.n_attr += 1
            if not stdlib_has(b[1], x.attr):
                self.report("attribute", f, x, "module %s has no '%s'" % (b[1], x.attr))
        elif b[0] == "bi":
            self.n_attr += 1
            if not hasattr(getattr(builtins, b[1]), x.attr):
                self.report("attribute", f, x, "a %s has no '%s'" % (b[1], x.attr))
        elif b[0] == "inst":
            self.n_attr += 1
            c = b[1]
            if not w.has_attr(c, x.attr) and not (self.is_me(x.value) and self.subclasses_have(c, x.attr)):
                self.report("attribute", f, x, "%s has no '%s'" % (c.name, x.attr))
        elif b[0] == "cls":
            self.n_attr += 1
            if b[1].find(x.attr) is None and not b[1].is_open() and not (x.attr.startswith("__") and x.attr.endswith("__")):
                self.report("attribute", f, x, "class %s has no '%s'" % (b[1].name, x.attr))
            elif b[1].is_open() and all(c.node.bases == [] or c.bases or is_enum(c) for c in b[1].mro()) and b[1].find(x.attr) is None \
                    and any(is_enum(c) for c in b[1].mro()) and not x.attr.startswith("_"):
                self.report("attribute", f, x, "enumeration %s has no '%s'" % (b[1].name, x.attr))

    def operands(self, x):
        l, r = [self.w.value(self.f, y) for y in (x.left, x.right)]
        if isinstance(x.op, ast.Sub) and ("bi", "str") in (l, r) and (l in (None, EXT) or r in (None, EXT)):
            self.n_call += 1
            self.report("call", self.f, x, "difference of a str")
        if l is None or r is None or l[0] != "bi" and r[0] != "bi":
            return
        self.n_call += 1
        if l[0] == "bi" == r[0]:
            if (l[1], r[1]) not in FITTING[type(x.op)] and not (l[1] in NUMBERS and r[1] in NUMBERS):
                self.report("call", self.f, x, "%s of a %s and a %s" % (type(x.op).__name__, l[1], r[1]))

    def is_me(self, e):
        f = self.f
        return isinstance(e, ast.Name) and f.cls is not None and f.node.args.args and e.id == f.node.args.args[0].arg

    def subclasses_have(self, c, n):
        """an abstract class may use what every one of its subclasses provides"""
        subs = [k for k in self.w.classes if c in k.mro()[1:] and not any(k in o.mro()[1:] for o in self.w.classes)]
        return bool(subs) and all(self.w.has_attr(k, n) for k in subs)

    def call(self, x):
        w, f = self.w, self.f
        fn = x.func
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and getattr(fn.value.func, "id", "") == "super":
            g = w.super_method(f, fn, 0)
        else:
            g = w.value(f, fn)
        if g is None:
            return self.guess(x)
        self.n_call += 1
        if g[0] == "cls":
            i = g[1].find("__init__")
            if i is not None and i[0] == "fn" and not g[1].is_open():
                p = signature_problem(i[1], x, True)
                if p:
                    self.report("call", f, x, "%s(): %s" % (g[1].name, p))
            elif i is None and not g[1].is_open() and (x.args or x.keywords):
                self.report("call", f, x, "%s() takes no arguments" % g[1].name)
        elif g[0] in ("fn", "bound") and (g[1].plain or g[1].static or g[1].clsm):
            p = signature_problem(g[1], x, g[0] == "bound" or g[1].clsm)
            if p:
                self.report("call", f, x, "%s(): %s" % (g[1].name, p))
        elif g[0] == "bi" or g[0] in ("inst", "mod", "pkg") and not (g[0] == "inst" and (g[1].find("__call__") or g[1].is_open())):
            self.report("call", f, x, "what is called is no function")

    def guess(self, x):
        """a method of an object of unknown class made by calling a parameter: some class of the repository must offer it"""
        fn = x.func
        if not (isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name)):
            return
        en = self.w.env(self.f) if not isinstance(self.f.node, ast.Module) else {}
        defs = en.get(fn.value.id, ())
        if not defs or not all(k == "expr" and isinstance(v, ast.Call) and isinstance(v.func, ast.Name)
                               and [q for q, _ in en.get(v.func.id, ())] == ["param"] for k, v in defs):
            return
        self.n_call += 1
        cands = [c for c in self.w.classes if self.w.has_attr(c, fn.attr) and not c.open]
        if not cands:
            self.report("attribute", self.f, x, "no class has a method '%s'" % fn.attr)
            return
        ps = [signature_problem(c.find(fn.attr)[1], x, True) for c in cands if c.find(fn.attr) and c.find(fn.attr)[0] == "fn"]
        if ps and all(ps):
            self.report("call", self.f, x, "%s(): %s" % (fn.attr, ps[0]))


def is_enum(c):
    return any(isinstance(b, (ast.Name, ast.Attribute)) and "Enum" in (getattr(b, "id", "") or getattr(b, "attr", "")) for b in c.node.bases)


def run(ck):
    ck.rule("scope analysis: every name a function reads is a local with a value on every path, a module-level name, an imported name or a builtin")
    ck.rule("attribute analysis: every attribute read from a module, class or object whose class can be inferred exists in it")
    ck.rule("call analysis: the arguments of every call whose target can be inferred fit the parameters of the target")
    w = World(ck)
    found = {}

    def report(kind, f, x, text):
        g = f
        while g.outer is not None:
            g = g.outer
        found.setdefault(id(g.node), []).append((kind, "%s:%s" % (f.mod.rel, getattr(x, "lineno", "?")), text))

    fs = list(w.fns) + [Fn(m, m.tree) for m in w.mods.values()]
    for f in fs:
        before = dict((k, len(v)) for k, v in found.items())
        fl = Flow(w, f, report)
        at = Attrs(w, f, report)
        ck.count("names read", fl.n)
        ck.count("attributes resolved", at.n_attr)
        ck.count("calls resolved", at.n_call)
        bad = found.get(id(f.node), [])
        for kind, label in (("name", "every name it reads has a value"), ("import", "everything it imports exists"), ("attribute", "every attribute it reads exists"),
                            ("call", "every call fits the parameters of its target")):
            b = sorted({(wh, t) for k, wh, t in bad if k == kind})
            q = f.where.split(":")[2]
            ck.ob("%s %s: %s" % (f.mod.rel, q, label), not b, b[0][0] if b else f.where, "; ".join("%s (%s)" % (t, wh) for wh, t in b[:4]))
    for f in w.fns:
        ck.funcs.add(Seen(f))
    ck.count("modules", len(w.mods))


class Seen:
    def __init__(self, f):
        self.qual = f.where.split(":")[2]
        self.where = f.where

    def __hash__(self):
        return hash(self.where)

    def __eq__(self, o):
        return self.where == o.where
