"""Loads the repository's Python modules (syntax trees only) and resolves names, classes and imports."""
import ast
import os


class Unsupported(Exception):
    def __init__(self, msg, node=None, where=None):
        super().__init__(msg)
        self.msg, self.node, self.where = msg, node, where

    def __str__(self):
        ln = getattr(self.node, "lineno", "?")
        return "%s (%s line %s)" % (self.msg, self.where or "?", ln)


class Missing(Exception):
    """a public name the analysis is anchored on does not exist any more"""


class Func:
    def __init__(self, name, node, module, cls=None, kind="plain"):
        self.name, self.node, self.module, self.cls, self.kind = name, node, module, cls, kind
        self.closure = None

    @property
    def qual(self):
        return (self.cls.name + "." if self.cls else "") + self.name

    @property
    def where(self):
        return "%s:%s:%s" % (self.module.rel, getattr(self.node, "lineno", 0), self.qual)

    def __repr__(self):
        return "<func %s>" % self.where


class Class:
    def __init__(self, name, node, module):
        self.name, self.node, self.module = name, node, module
        self.bases = []      # Class or str (external dotted name)
        self.methods = {}
        self.attrs = {}      # class level assignments: name -> ast expression
        self._mro = None

    def mro(self):
        if self._mro is None:
            seqs = [list(b.mro()) for b in self.bases if isinstance(b, Class)] + [[b for b in self.bases if isinstance(b, Class)]]
            out = [self]
            while any(seqs):
                seqs = [s for s in seqs if s]
                for s in seqs:
                    h = s[0]
                    if not any(h in z[1:] for z in seqs):
                        break
                else:
                    break
                out.append(h)
                seqs = [[x for x in z if x is not h] for z in seqs]
            self._mro = out
        return self._mro

    def find(self, name, after=None):
        m = self.mro()
        if after is not None:
            m = m[m.index(after) + 1:] if after in m else m
        for c in m:
            if name in c.methods:
                return c.methods[name]
        return None

    def find_attr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def is_enum(self):
        return any(isinstance(b, str) and b.split(".")[-1] in ("Enum", "IntEnum", "Flag", "IntFlag") for c in self.mro() for b in c.bases)

    def issub(self, other):
        return other in self.mro()

    def __repr__(self):
        return "<class %s>" % self.name


class Module:
    def __init__(self, name, path, rel, tree):
        self.name, self.path, self.rel, self.tree = name, path, rel, tree
        self.ns = {}       # name -> ('class',C) ('func',F) ('module',name) ('ext',dotted) ('expr',ast)
        self.stars = []


class Program:
    def __init__(self, root):
        self.root = root
        self.modules = {}
        self.errors = []
        self.nfiles = 0

    def find_file(self, dotted):
        base = os.path.join(self.root, *dotted.split("."))
        for p in (base + ".py", os.path.join(base, "__init__.py")):
            if os.path.isfile(p):
                return p
        if os.path.isdir(base):
            return base
        return None

    def modules_under(self, pkg):
        d = os.path.join(self.root, *pkg.split("."))
        if not os.path.isdir(d):
            return []
        return [m for m in (self.module(pkg + "." + f[:-3]) for f in sorted(os.listdir(d)) if f.endswith(".py") and f != "__init__.py") if m is not None]

    def module(self, dotted):
        if dotted in self.modules:
            return self.modules[dotted]
        p = self.find_file(dotted)
        if p is None:
            return None
        if os.path.isdir(p):
            m = Module(dotted, p, os.path.relpath(p, self.root), ast.parse(""))
            self.modules[dotted] = m
            return m
        with open(p, encoding="utf-8") as f:
            src = f.read()
        tree = ast.parse(src, p)
        m = Module(dotted, p, os.path.relpath(p, self.root), tree)
        self.modules[dotted] = m
        self.nfiles += 1
        self._fill(m, tree.body)
        return m

    def _fill(self, m, body):
        for st in body:
            if isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        m.ns[a.asname] = self._mod(a.name)
                    else:
                        top = a.name.split(".")[0]
                        m.ns[top] = self._mod(top)
                        if self.find_file(a.name):
                            self.module(a.name)
            elif isinstance(st, ast.ImportFrom):
                self.import_from(st, m, m.ns)
            elif isinstance(st, ast.ClassDef):
                m.ns[st.name] = ("class", self.make_class(st, m))
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                m.ns[st.name] = ("func", Func(st.name, st, m))
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        m.ns[t.id] = ("expr", st.value)
                    elif isinstance(t, ast.Tuple) and isinstance(st.value, ast.Tuple) and len(t.elts) == len(st.value.elts):
                        for a, b in zip(t.elts, st.value.elts):
                            if isinstance(a, ast.Name):
                                m.ns[a.id] = ("expr", b)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                m.ns[st.target.id] = ("expr", st.value)
            elif isinstance(st, ast.Try):
                self._fill(m, st.body)
            elif isinstance(st, ast.If):
                t = st.test
                if isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == "__name__":
                    continue
                self._fill(m, st.body)
                self._fill(m, st.orelse)

    def import_from(self, st, m, ns):
        base = st.module or ""
        if st.level:
            parts = m.name.split(".")
            if not m.path.endswith("__init__.py"):
                parts = parts[:-1]
            if st.level > 1:
                parts = parts[:-(st.level - 1)]
            base = ".".join(parts + ([base] if base else []))
        internal = self.find_file(base) is not None if base else False
        for a in st.names:
            nm = a.asname or a.name
            if not internal:
                ns[nm] = ("ext", base + "." + a.name)
                continue
            if a.name == "*":
                src = self.module(base)
                if src is not None:
                    for k, v in src.ns.items():
                        if not k.startswith("_"):
                            ns[k] = v if v[0] != "expr" else ("from", base, k)
                continue
            src = self.module(base)
            if src is not None and a.name in src.ns:
                v = src.ns[a.name]
                ns[nm] = v if v[0] != "expr" else ("from", base, a.name)
            elif self.find_file(base + "." + a.name):
                self.module(base + "." + a.name)
                ns[nm] = ("module", base + "." + a.name)
            else:
                ns[nm] = ("missing", base + "." + a.name)

    def _mod(self, name):
        if self.find_file(name):
            self.module(name)
            return ("module", name)
        return ("ext", name)

    def make_class(self, node, m):
        c = Class(node.name, node, m)
        for b in node.bases:
            c.bases.append(self.resolve_base(b, m))
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                kind = "plain"
                for d in st.decorator_list:
                    if isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod", "property"):
                        kind = d.id
                    elif isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter"):
                        kind = "setter"
                if kind == "setter":
                    c.methods[st.name + "=set"] = Func(st.name, st, m, c, "plain")
                else:
                    c.methods[st.name] = Func(st.name, st, m, c, kind)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = st.value
                        # alias of a method: name = other
                        if isinstance(st.value, ast.Name) and st.value.id in c.methods:
                            c.methods[t.id] = c.methods[st.value.id]
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                c.attrs[st.target.id] = st.value
        return c

    def resolve_base(self, b, m):
        v = self.resolve_expr(b, m)
        if v and v[0] == "class":
            return v[1]
        if v and v[0] == "ext":
            return v[1]
        return ast.unparse(b)

    def resolve_expr(self, e, m):
        """resolve a dotted name expression at module level"""
        if isinstance(e, ast.Name):
            v = m.ns.get(e.id)
            return self.settle(v, m)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(e.value, m)
            if not b:
                return None
            if b[0] == "module":
                mm = self.module(b[1])
                v = mm.ns.get(e.attr)
                if v is None and self.find_file(b[1] + "." + e.attr):
                    self.module(b[1] + "." + e.attr)
                    return ("module", b[1] + "." + e.attr)
                return self.settle(v, mm)
            if b[0] == "ext":
                return ("ext", b[1] + "." + e.attr)
        return None

    def settle(self, v, m):
        n = 0
        while v and n < 20:
            n += 1
            if v[0] == "from":
                m = self.module(v[1])
                v = m.ns.get(v[2])
            elif v[0] == "expr" and isinstance(v[1], (ast.Name, ast.Attribute)):
                v = self.resolve_expr(v[1], m)
            else:
                break
        return v

    def get_class(self, dotted, name):
        m = self.module(dotted)
        if m is None:
            raise Missing("module %s" % dotted)
        v = self.settle(m.ns.get(name), m)
        if not v or v[0] != "class":
            raise Missing("class %s.%s" % (dotted, name))
        return v[1]

    def get_func(self, dotted, name):
        m = self.module(dotted)
        if m is None:
            raise Missing("module %s" % dotted)
        v = self.settle(m.ns.get(name), m)
        if not v or v[0] != "func":
            raise Missing("function %s.%s" % (dotted, name))
        return v[1]
