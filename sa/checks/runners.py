"""Traces of the run_py entry functions with an opaque simulation class.

The function is interpreted abstractly; every call on the simulation object, file write and process/thread operation
is recorded with its guard, the loops it is in (index, trip count) and its position in the order of effects.
"""
from .common import *
from ..interp import Interp

ENS = "run_py.ensemble"
RSBD = "run_py.rsbd_percolatioin_run"
SPR = "run_py.shortest_path_run"
K = sym("K", "any")
LL = sym("LL", "int", lo=C(3))
EN = sym("En", "int", lo=ONE)
TH = sym("th", "int", lo=ZERO)
SEED = sym("seedarg", "int")
NOW = {"datetime.datetime.now", "datetime.datetime.today", "datetime.datetime.utcnow", "time.strftime", "time.time", "datetime.now"}
WRITERS = ("numpy.savetxt", "numpy.save", "numpy.savez", "json.dump", "open")


class Write:
    def __init__(self, ev, name, data, header, kind):
        self.ev, self.name, self.data, self.header, self.kind = ev, name, data, header, kind
        self.where = ev.where


class Trace:
    def __init__(self, ck, mod, name, cls=None, **kw):
        f = ck.prog.get_func(mod, name)
        self.f, self.ck = f, ck
        next_phase()
        self.ip = Interp(ck.prog)
        if cls is not None:
            for c in cls:
                self.ip.cut[c] = opaque_class(c)
        st = St()
        names = [a.arg for a in f.node.args.args + f.node.args.kwonlyargs]
        pos = {"percolationClass": K, "length": LL, "ensembleSize": EN, "ensemble_size": EN, "ensemble_count": EN}
        args, kws = [], {}
        order = [a.arg for a in f.node.args.args]
        for nm in order[:3]:
            if nm in kw:
                args.append(kw.pop(nm))
            elif nm in pos:
                args.append(pos[nm])
            else:
                break
        for nm, v in kw.items():
            if nm not in names:
                raise Missing("parameter %s of %s" % (nm, f.qual))
            kws[nm] = v
        self.ret = self.ip.call_func(f, args, kws, fresh_node(), st)
        self.events = self.ip.events
        for i, e in enumerate(self.events):
            e.pos = i
        ck.seen(self.ip)
        self.where = "%s:%s" % (f.module.rel, f.qual)
        self.insts = [e for e in self.events if e.kind == "mcall" and e.a[1] == "()" and (e.a[0] is K or e.a[0].op == "cls")]
        self.objs = {e.a[4]: e for e in self.insts}

    def calls(self, obj=None, name=None):
        out = []
        for e in self.events:
            if e.kind != "mcall" or e.a[1] == "()":
                continue
            r = e.a[0]
            if obj is not None and r is not obj or obj is None and r not in self.objs:
                continue
            if name is None or e.a[1] == name:
                out.append(e)
        return out

    def live(self):
        """the object the realisations run on"""
        os = []
        for e in self.calls(name="run_once"):
            if e.a[0] not in os:
                os.append(e.a[0])
        return os

    def writes(self):
        out = []
        handles = {}
        for e in self.events:
            if e.kind == "ext" and e.a[0] == "open":
                handles[e.a[3]] = e
            elif e.kind == "ext" and e.a[0] in ("numpy.savetxt", "numpy.save"):
                kw = dict(e.a[2])
                a = e.a[1]
                nm = a[0] if a else kw.get("fname")
                data = a[1] if len(a) > 1 else kw.get("X")
                out.append(Write(e, self.target(nm, handles), data, kw.get("header"), "savetxt"))
            elif e.kind == "ext" and e.a[0] == "json.dump":
                a = e.a[1]
                kw = dict(e.a[2])
                h = a[1] if len(a) > 1 else kw.get("fp")
                out.append(Write(e, self.target(h, handles), None, mk("ext_", "json.dumps", (a[0],), (), ty="any"), "text"))
            elif e.kind == "mcall" and e.a[1] in ("write", "writelines") and e.a[0] in handles:
                out.append(Write(e, self.target(e.a[0], handles), None, e.a[2][0], "text"))
            elif e.kind == "mcall" and e.a[1] == "tofile":
                out.append(Write(e, e.a[2][0], e.a[0], None, "savetxt"))
        for w in out:
            w.data = self.filled(w)
        return out

    def filled(self, w):
        """table of an array created with the shape (n, k) whose every cell is assigned once, in a loop over the rows"""
        d = w.data
        if d is None or d.op != "call" or d.a[0] not in ("numpy.zeros", "numpy.empty") or d.a[1].op not in ("tuple", "seq") or len(d.a[1].a) != 2 \
                or not is_num(d.a[1].a[1]):
            return d
        n, k = d.a[1].a
        k = int(k.a[0])
        cols, loop = {}, None
        for e in self.events:
            if e.a and e.a[0] is d and e.kind in ("mut", "mcall", "write", "del"):
                if e.kind != "mut" or e.a[1] != "setitem" or e.pos > w.ev.pos or e.guard is not TRUE or len(e.loops) != 1:
                    return d
                i, m, _ = e.loops[0]
                if m is not n or loop is not None and loop is not i:
                    return d
                loop = i
                key, v = e.a[2]
                if key is i:
                    v = unlist(v)
                    if v.op not in ("seq", "tuple") or len(v.a) != k:
                        return d
                    new = dict(enumerate(v.a))
                elif key.op == "tuple" and len(key.a) == 2 and key.a[0] is i and is_num(key.a[1]) and -k <= key.a[1].a[0] < k:
                    new = {int(key.a[1].a[0]) % k: v}
                else:
                    return d
                if set(new) & set(cols):
                    return d
                cols.update(new)
        if len(cols) != k:
            return d
        return TM.mapt(n, loop, TM.seq(*[cols[j] for j in range(k)]))

    def target(self, nm, handles):
        h = handles.get(nm)
        return h.a[1][0] if h is not None else nm


def opaque_class(c):
    def h(ip, args, kw, node, st):
        return ip.opaque_call(mk("cls", c), "()", args, kw, node, st)
    return h


def json_dict(t):
    """dictionary written as JSON: {key: term} or None"""
    if t is None:
        return None
    while t.op == "str" and len(t.a) == 1 and isinstance(t.a[0], T):
        t = t.a[0]
    if t.op == "strof":
        t = t.a[0]
    if t.op != "ext_" or t.a[0] != "json.dumps" or not t.a[1]:
        return None
    d = t.a[1][0]
    if d.op == "D":
        out = {}
        for p in d.a:
            if p.op != "tuple" or p.a[0].op != "c":
                return None
            out[p.a[0].a[0]] = p.a[1]
        return out
    return None


def const_list(t):
    while t is not None and t.op == "L" and len(t.a) == 1 and isinstance(t.a[0], T):
        t = t.a[0]
    if t is None or t.op not in ("seq", "tuple"):
        return None
    if not all(x.op == "c" and isinstance(x.a[0], str) for x in t.a):
        return None
    return [x.a[0] for x in t.a]


def unlist(t):
    while t is not None and t.op == "L" and len(t.a) == 1 and isinstance(t.a[0], T):
        t = t.a[0]
    return t


def rows_of(t):
    """table of rows: (number of rows, index, [columns]) or None"""
    t = unlist(t)
    if t is None:
        return None
    if t.op == "call" and t.a[0] in ("numpy.array", "numpy.asarray") and len(t.a) == 2:
        return rows_of(t.a[1])
    if t.op == "call" and t.a[0] in ("numpy.column_stack", "numpy.c_", "numpy.transpose", "numpy.stack"):
        return None
    if t.op != "map":
        return None
    n = t.a[0]
    i = idx("row", n)
    row = unlist(elem(t, i))
    if row is None or row.op not in ("seq", "tuple"):
        return None
    return n, i, list(row.a)


def over_rows(t):
    """the second and only other argument of the reduction is axis 0"""
    kw = dict(t.a[2]) if t.op == "ext_" and isinstance(t.a[2], tuple) else {}
    pos = list(t.a[1][1:]) if t.op == "ext_" else []
    if t.op == "call":
        for x in t.a[2:]:
            if isinstance(x, T) and x.op == "tuple" and len(x.a) == 2 and x.a[0].op == "c" and isinstance(x.a[0].a[0], str):
                kw[x.a[0].a[0]] = x.a[1]
            else:
                pos.append(x)
    if pos and "axis" not in kw:
        kw["axis"] = pos.pop(0)
    return not pos and set(kw) == {"axis"} and kw["axis"] is ZERO


def mean_form(t):
    """t = (sum over i<n of e(i)) / d -> (n, i, e(i), d) or None"""
    d = ONE
    p = to_poly(t) if t.op == "poly" else None
    if p is not None and len(p) == 1:
        (m, c), = p.items()
        big = [at for at, e in m if e == 1 and at.op in ("foldv", "sum", "call", "ext_")]
        if len(big) == 1 and c == 1:
            rest = [(at, e) for at, e in m if at is not big[0]]
            if all(e < 0 for at, e in rest):
                for at, e in rest:
                    d = mul(d, powt(at, C(-e)))
                return _sum_form(big[0], d)
        return None
    if t.op in ("call", "ext_") and t.a[0] in ("numpy.mean", "numpy.average"):
        if not over_rows(t):
            return None
        s = unlist(t.a[1] if isinstance(t.a[1], T) else t.a[1][0])
        if s.op == "map":
            i = idx("row", s.a[0])
            return s.a[0], i, elem(s, i), s.a[0]
        return None
    return _sum_form(t, d)


def _sum_form(t, d):
    if t.op == "sum":
        n = t.a[0]
        i = idx("row", n)
        return n, i, TM.opened(t, i)[0], d
    if t.op in ("call", "ext_") and t.a[0] in ("numpy.sum", "builtins.sum", "sum"):
        if t.a[0] == "numpy.sum" and not over_rows(t):
            return None
        s = unlist(t.a[1] if isinstance(t.a[1], T) else t.a[1][0])
        if s.op == "map":
            i = idx("row", s.a[0])
            return s.a[0], i, elem(s, i), d
        return None
    if t.op == "foldv":
        j, init, lam = t.a
        if len(init) != 1:
            return None
        n = lam.a[0]
        i = idx("row", n)
        body = TM.opened(lam, i)[0].a[0]
        fvs = [x for x in TM.subterms(body) if x.op == "fv"]
        if len(fvs) != 1:
            return None
        F = fvs[0]
        start = init[0]
        if body.op == "ite":
            c, x, rest = body.a
            if c.op == "not":
                c, x, rest = c.a[0], rest, x
            first = start is NONE and c is eq(NONE, F) or c is eq(i, ZERO)
            if not first:
                return None
        else:
            x, rest = None, body
            if not (start is ZERO or start.op == "call" and start.a[0] in ("numpy.zeros", "numpy.zeros_like") or start.op == "ext_" and start.a[0] in ("numpy.zeros", "numpy.zeros_like")):
                return None
        e = sub(rest, F)
        if TM.has(e, F) or x is not None and x is not e:
            return None
        return n, i, e, d
    return None
