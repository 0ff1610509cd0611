"""Reset restores the freshly built state: structural comparison of the heap after reset (from an arbitrary state) with the constructor's heap."""
from .common import *
from .c16 import order, base, seq_leaves

KINDS = ("S", "L0", "L1", "L2", "SP")
CONFIG = ("set_custome_site_id_list", "set_custome_site_index_list", "shuffle", "swap_ids")


class Walk:
    """compares what two heaps reach from one object"""

    def __init__(self, ck, reg, post):
        self.ck, self.reg, self.post = ck, reg, post
        self.seen = set()
        self.diffs = []       # (path, value after reset, value in a new object, key of the cell / field)
        self.n = 0
        self.equal = set()

    def attrs(self, cls):
        out = {a for (cn, a) in H.FTYPES if cn == cls.name}
        return sorted(out)

    def value(self, st, o, a):
        if a == "$c" or cls_of(o) in ("list", "set", "dict"):
            return self.reg.ip0.get(st, o, "$c")
        return self.reg.ip0.get(st, o, a)

    def same(self, a, b, path, key):
        """a after reset, b in the new object"""
        self.n += 1
        if a is b and cls_of(a) is None:
            self.equal.add(path)
            return
        ca, cb = cls_of(a), cls_of(b)
        if ca in ("list", "set", "dict") and cb == ca:
            k = (a, b)
            if k in self.seen:
                return
            self.seen.add(k)
            k = (a, "$c") if (a, "$c") in self.reg.cells0 else key
            self.content(self.value(self.post, a, "$c"), self.value(self.reg.ctor, b, "$c"), path + "[]", k)
            return
        if isinstance(ca, Class) and isinstance(cb, Class):
            if ca is not cb:
                self.diffs.append((path, a, b, key))
                return
            if (a, b) in self.seen:
                return
            self.seen.add((a, b))
            self.obj(a, b, ca, path)
            return
        if a is b:
            return
        if a.op == "tuple" and b.op == "tuple" and len(a.a) == len(b.a):
            for x, y in zip(a.a, b.a):
                self.same(x, y, path, key)
            return
        self.diffs.append((path, a, b, key))

    def content(self, a, b, path, key):
        if a is b and not (isinstance(elem_ty(a), tuple) and elem_ty(a)[0] == "ref"):
            return
        if a in self.reg.fam:
            # the list itself is never changed: it is the one the constructor filled
            cont = self.reg.fam[a][1]
            if cont is not b and self.reg.fam[a][0] is not None:
                ok = b is cont
                if not ok:
                    self.diffs.append((path, a, b, key))
                    return
            if path in self.seen:
                return
            self.seen.add(path)
            k = sym("at:" + path + "/" + self.reg.kind, "int", lo=ZERO, hi=sub(length(b), ONE))
            self.same(elem(a, k), elem(b, k), path, key)
            return
        if a is b:
            return
        if length(a) is not length(b):
            self.diffs.append((path, a, b, key))
            return
        if length(a) is ZERO:
            return
        k = sym("at:" + path + "/" + self.reg.kind, "int", lo=ZERO, hi=sub(length(b), ONE))
        self.same(elem(a, k), elem(b, k), path, key)

    def obj(self, a, b, cls, path):
        for at in self.attrs(cls):
            try:
                x, y = self.value(self.post, a, at), self.value(self.reg.ctor, b, at)
            except Missing:
                continue
            key = (a, at) if a.op == "new" and not a.a[1:] else (cls.name, at)
            if y is UNDEF and x is UNDEF:
                continue
            self.same(x, y, path + "." + at, key)


REALISE = ("select_site", "place_one_site", "detect_wrapping", "run_once", "test_run_once")


def terms_in(x):
    if isinstance(x, T):
        yield x
    elif isinstance(x, (tuple, list)):
        for y in x:
            yield from terms_in(y)


def observers(reg):
    """argument-free public methods other than the operations"""
    ops = {n for n, _ in reg.public_ops()}
    out = {}
    for c in reg.K.mro():
        for n, f in c.methods.items():
            if n in out or n in ops or n.startswith("_") or n.startswith(("view", "test_")) or "plot" in n:
                continue
            a = f.node.args
            if len(a.args) - len(a.defaults) == 1 and not a.vararg and not a.kwarg and not getattr(f, "is_property", False):
                out[n] = reg.K.find(n)
    return out


def influence(reg, key, s):
    """first place where the value a cell has before an operation of a realisation reaches anything but the cell itself"""
    for op, r in sorted(reg.results.items()):
        if op.split("/")[0] not in REALISE:
            continue
        for k, v in r.post.cells.items():
            if k != key and r.pre.cells.get(k) is not v and TM.has(v, s):
                return "%s leaves it in %s" % (op, k[1])
        for a, m in r.post.mems.items():
            if TM.has(m, s):
                return "%s uses it for %s of objects" % (op, a)
        if TM.has(r.ret, s):
            return "%s returns it" % op
        for e in r.events:
            if e.kind in ("write", "mut") and (e.a[0], e.a[1]) == key:
                continue
            if e.kind == "call":
                continue
            for t in list(terms_in(e.a)) + [e.guard] + [n for _, n, _ in e.loops]:
                if isinstance(t, T) and TM.has(t, s):
                    return "%s: %s depends on it" % (e.where, e.kind)
    for n, vs in shown(reg):
        if any(TM.has(v, s) for v in vs):
            return "%s() shows it" % n
    return None


def shown(reg):
    """what each observer shows in an arbitrary state"""
    if not hasattr(reg, "shown_"):
        reg.shown_ = []
        for n, f in sorted(reg.obs_.items()):
            P = Probe(reg, reg.state())
            try:
                v = P.call(reg.me, n)
            except (Unsupported, Missing):
                continue
            reg.shown_.append((n, (v, P.items(v))))
    return reg.shown_


def config_cells(reg):
    """cells that describe the configured order: what the setters change in the object, apart from what a reset initialises"""
    out = set()
    for op in CONFIG:
        r = reg.results.get(op)
        if r is None:
            continue
        for k, v in r.post.cells.items():
            if k in reg.mut_cells and r.pre.cells.get(k) is not v and (k[0] is reg.me or k[1] == "$c"):
                out.add(k)
    return out


def leaves_ok(reg, v, pre):
    """order after a reset: (a permutation of) the order before it, or of all site ids; returns (allowed, kept)"""
    kept = False
    for l in seq_leaves(v):
        b, k = base(l)
        if b is pre:
            kept = True
            continue
        i = tmpidx(length(b))
        if length(b) is N and elem(b, i) is i:
            continue
        return False, kept
    return True, kept


def worn(reg, path):
    """an operation of a realisation that changes the items of the list"""
    k = (reg.me, path.split(".")[1][:-2])
    ip = reg.interp()
    for op, r in sorted(reg.results.items()):
        if op.split("/")[0] in REALISE and k in r.pre.cells:
            if ip.get(r.pre, r.pre.cells[k], "$c") is not ip.get(r.post, r.post.cells[k], "$c"):
                return op
    return None


def run(ck):
    ck.rule("the heap a reset leaves behind (from an arbitrary state) is walked in step with the heap of the constructor: same class, same list lengths, same "
            "value in every cell and in every field at a generic index; a cell that differs must belong to the configured site order or reach no value, "
            "effect, guard or result of any operation of a realisation")
    def one(kind):
        reg = ck.regime(kind, ops=True)
        reg.ip0 = reg.interp()
        reg.obs_ = observers(reg)
        nm = reg.K.name
        f = reg.K.find("reset")
        if f is None:
            raise Missing("%s.reset" % nm)
        r = reg.results["reset"]
        w = Walk(ck, reg, r.post)
        w.same(reg.me, reg.me, "self", None)
        ck.count("places compared", w.n)
        pre_o, post_o = order(reg, r.pre), order(reg, r.post)
        draws = any(e.kind == "rng" for e in reg.results["select_site"].events) if "select_site" in reg.results else False
        recorded = length(order(reg, reg.ctor)) is ZERO
        cfg = config_cells(reg)
        olist = [k for k in cfg if k[0] is not reg.me or cls_of(reg.ctor.cells.get(k, ZERO)) == "list"]
        kept_order = False
        res = {}
        for path, a, b, key in w.diffs:
            res.setdefault(path, []).append((a, b, key))
        done = set()
        # the order itself
        for path, a, b, key in w.diffs:
            x = site_order_path(reg, w, path, r, a)
            if x is None:
                continue
            done.add(path)
            pre, v = x
            ok, kept = leaves_ok(reg, v, pre)
            kept_order |= kept
            wr = worn(reg, path) if kept else None
            ck.ob("%s.reset: the order kept in %s is the configured one, no realisation changes it" % (nm, path), wr is None, f.where,
                  "%s changes it and the reset does not restore it" % wr)
            ck.ob("%s.reset: %s is the configured order, permuted or not, or all site ids" % (nm, path), ok, f.where, "it becomes %s" % sh(v, 300))
            if not draws:
                sub_ = {r.pre.cells[k]: reg.ctor.cells[k] for k in cfg if k[0] is reg.me and cls_of(reg.ctor.cells.get(k, ZERO)) is None and k in r.pre.cells
                        and r.pre.cells[k].op == "sym"}
                d = subst(v, sub_)
                good = all(base(l)[1] >= 1 for l in seq_leaves(d))
                ck.ob("%s.reset: without configuration a new random order is drawn" % nm, good, f.where, "the order becomes %s" % sh(d, 300))
        for path, lst in sorted(res.items()):
            if path in done:
                continue
            a, b, key = lst[0]
            bad = [(x, y, k) for x, y, k in lst if not excused(reg, r, x, y, k, cfg, kept_order)]
            det = ""
            if bad:
                x, y, k = bad[0]
                det = "it is %s after a reset and %s in a new object; %s" % (sh(x, 300), sh(y, 300), WHY[0])
            ck.ob("%s.reset: %s is as in a new object or unused" % (nm, path), not bad, f.where, det)
        ck.ob("%s: everything reachable from the object was compared" % nm, w.n >= 40, f.where, "%d places only" % w.n)
        for path in sorted(w.equal):
            ck.ob("%s.reset: %s is as in a new object" % (nm, path), True, f.where)
    ck.each(KINDS, one)


WHY = [""]


def excused(reg, r, a, b, key, cfg, kept_order):
    WHY[0] = ""
    if unchanged_field(reg, r, a, key):
        return True
    if key is not None and key in cfg and kept_order:
        return True
    if key is None or not isinstance(key[0], T):
        WHY[0] = "field of many objects"
        return False
    st = reg.state()
    if key not in st.cells:
        WHY[0] = "not part of the state between operations"
        return False
    s = st.cells[key]
    if s.op != "sym":
        WHY[0] = "never changed by an operation"
        return False
    h = influence(reg, key, s)
    if h:
        WHY[0] = h
        return False
    if cls_of(s) == "list":
        for x in (read(minit("$c"), s),):
            h = influence(reg, (s, "$c"), x)
            if h:
                WHY[0] = h
                return False
    return True


def unchanged_field(reg, r, a, key):
    """a field no operation changes still has what the constructor gave it"""
    if key is None or not isinstance(key[0], str):
        return False
    return key not in reg.mut_mems and key not in reg.mut_own and a.op == "sel" and a.a[0].op == "minit"


def site_order_path(reg, w, path, r, a):
    """(content before, content after) of a list cell of the object holding site ids that a reset permutes or refills"""
    if not path.endswith("[]") or path.count(".") != 1:
        return None
    at = path.split(".")[1][:-2]
    k = (reg.me, at)
    if k not in r.pre.cells or k not in r.post.cells:
        return None
    ip = reg.interp()
    pre, post = ip.get(r.pre, r.pre.cells[k], "$c"), ip.get(r.post, r.post.cells[k], "$c")
    c = ip.get(reg.ctor, reg.ctor.cells[k], "$c")
    b, n = base(c)
    i = tmpidx(length(b))
    if n >= 1 and length(b) is N and elem(b, i) is i:
        return pre, post
    return None
