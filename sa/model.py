"""Regime: the set of states a simulation object can be in between two public operations.

The constructor is evaluated abstractly, giving the initial heap.  A location is *frozen* when no operation of the
class changes it (optimistic fixpoint over all operations) and then keeps the value the constructor gave it, for
every lattice length; every other location is an unconstrained value of its inferred type.
"""
import ast
from .terms import *
from . import terms as TM
from .heap import *
from . import heap as H
from . import interp as IN
from .interp import Interp, St, is_static
from . import loops, builtins_     # noqa: F401  (register themselves)
from .loader import Program, Func, Class, Unsupported, Missing
from .loops import join_ty, norm_ty

NODE = ast.parse("0").body[0]
SIM = "source_py.simulation."
L = sym("L", "int", lo=C(3))
N = mul(L, L)
CLASSES = {"L0": (SIM + "percolation_sq_lattice_L0", "SitePercolationL0"),
           "L1": (SIM + "percolation_sq_lattice_L1L2", "SitePercolationL1"),
           "L2": (SIM + "percolation_sq_lattice_L1L2", "SitePercolationL2"),
           "SP": (SIM + "percolation_sq_lattice_shortest_path", "ShortestPathAfter_pc"),
           "S": (SIM + "percolation_sq_lattice", "SitePercolation")}


def next_phase():
    H.PHASE[0] += 1
    TM.clear_memos()
    return H.PHASE[0]


def ty_join(tys):
    r = "undef"
    for t in sorted(tys, key=repr):
        if t == "undef":
            continue
        r = t if r == "undef" else join_ty(r, t)
        if r is None:
            return None
    return None if r == "undef" else r


class Regime:
    """one concrete class, symbolic length"""
    active = None

    def __init__(self, prog, kind, ops=True):
        Regime.active = self
        self.p = prog
        self.kind = kind
        mod, name = CLASSES[kind]
        self.K = prog.get_class(mod, name)
        self.types = {}
        self.labels_stored = {}
        self.funcs = set()
        self.fam = {}            # family symbol -> (list address, ctor content, class)
        self.known_own = {}
        self.mut_cells = set()   # (addr, attr)
        self.mut_mems = set()    # (cls, attr)
        self.mut_own = set()     # (cls, attr)
        self.extra_cells = {}
        self.own_range = {}
        self.cell_range = {}
        self.optypes = {}
        self.cell_ty = {}
        self.own_cells = set()   # cells in which an operation stores a list owned by another object
        self.tags = {}           # tag of a memory after a cut -> (memory before, operation)
        self._steady = {}
        self.unsteady = set()
        self.cell_ety = {}
        self.assumed = []
        self.mems0 = {}
        self.in_ctor = False
        self._rc = {}
        self._lab = {}
        self.cells0 = {}
        self.phase0 = None
        self.results = {}
        H.REWRITES.append(self.hook)
        TM.RANGE_HOOKS.append(self.ranges)
        self.construct()
        if ops:
            self.fixpoint()

    def close(self):
        if self.pair in TM.PAIR_HOOKS:
            TM.PAIR_HOOKS.remove(self.pair)
        if self.hook in H.REWRITES:
            H.REWRITES.remove(self.hook)
        if self.ranges in TM.RANGE_HOOKS:
            TM.RANGE_HOOKS.remove(self.ranges)

    # ------------------------------------------------------------------ constructor
    def construct(self):
        self.phase0 = H.CTOR_PHASE[0] = next_phase()
        ip = self.interp()
        st = St()
        kw = {"length": L, "seed": sym("seed", "int")}
        me = ip.instantiate(self.K, [], kw, NODE, st)
        self.me = me
        self.ctor = st
        self.ctor_ip = ip
        self.ctor_events = ip.events
        self.cells0 = dict(st.cells)
        self.mems0 = dict(st.mems)
        self.note_types(ip)
        # families: static lists holding the lattice's objects
        for (a, attr), v in list(st.cells.items()):
            if attr != "$c" or v.ty != "seq":
                continue
            et = self.content_ref(v)
            if et is None:
                continue
            nm = self.cell_name(a)
            S = mk("sym", "S:" + nm + "/" + self.kind, ty="seq")
            TM.ELEM_TY[S] = ("ref", et)
            TM.LEN[S] = length(v)
            H.FAMILY.add(S)
            self.fam[S] = (a, v, et)
        for t, (a, v, et) in self.fam.items():
            self.cells0[(a, "$c")] = t
        # lists owned by the family objects
        for (cn, attr), labs in self.labels_stored.items():
            H.OWNED[(cn, attr)] = True
        self.append_ranges()
        self.end_lists()

    def end_lists(self):
        """the lists behind the two neighbour tables: a bond of a site has two different ends, one of which is that site (C01, C02)"""
        self.ends = None
        try:
            from .checks.common import Probe
            P = Probe(self, self.state())
            lat = P.attr(self.me, "lattice_ref")
            x = sym("probe#", "int", lo=ZERO)
            e, b = P.call(lat, "get_neighbor_sites", x), P.call(lat, "get_neighbor_bonds", x)
            e, b = P.items(e), P.items(b)
        except (Missing, Unsupported):
            return
        if all(z.op == "sel" and z.a[0].op == "minit" and z.a[0].a[0] == "$c" and z.a[1].op == "own" and z.a[1].a[1].op == "elem"
               and z.a[1].a[1].a[1] is x for z in (e, b)):
            self.ends = e, b, x
            TM.PAIR_HOOKS.append(self.pair)

    def pair(self, s):
        e, b, x = self.ends
        if s.op != "sel" or s.a[1].op != "own" or s.a[1].a[0] != e.a[1].a[0] or s.a[1].a[1].op != "elem" or s.a[1].a[1].a[0] is not e.a[1].a[1].a[0]:
            return None
        y = s.a[1].a[1].a[1]
        if y.op != "elem":
            return None
        y = y.a[0]
        while y.op in ("distinctby", "perm", "rev", "slice", "distinct", "remove", "aslist", "sorted"):
            y = y.a[0]
        if y.op != "sel" or y.a[1].op != "own" or y.a[1].a[0] != b.a[1].a[0] or y.a[1].a[1].op != "elem" or y.a[1].a[1].a[0] is not b.a[1].a[1].a[0]:
            return None
        return y.a[1].a[1].a[1]

    def cell_name(self, a):
        for (o, attr), v in self.ctor.cells.items():
            if v is a:
                return "%s.%s" % (cname(o), attr)
        return str(a.a[0])

    def content_ref(self, v):
        et = elem_ty(v)
        if isinstance(et, tuple) and et[0] == "ref" and isinstance(et[1], Class):
            return et[1]
        x = elem(v, idx("probe", length(v)))
        cs = set()
        for l in self.leaves(x):
            c = cls_of(l)
            if not isinstance(c, Class):
                return None
            cs.add(c)
        return cs.pop() if len(cs) == 1 else None

    @staticmethod
    def leaves(x):
        if x.op == "ite":
            return Regime.leaves(x.a[1]) + Regime.leaves(x.a[2])
        return [x]

    def interp(self):
        ip = Interp(self.p)
        ip.types = self.types
        ip.stored_labels = self.labels_stored
        ip.funcs_seen = self.funcs
        return ip

    def note_types(self, ip):
        for (cn, attr), ts in self.types.items():
            H.FTYPES[(cn, attr)] = ty_join(ts)
        for (cn, attr), labs in self.labels_stored.items():
            if all(isinstance(l, str) or isinstance(l, tuple) for l in labs):
                H.OWNED[(cn, attr)] = True
            es = set()
            for l in labs:
                es |= ip.list_elems.get(l, set())
            if len(es) == 1:
                H.CONTENT_TY[(cn, attr)] = list(es)[0]
            H.CONTENT_TY.setdefault((cn, attr), "int")

    def append_ranges(self):
        """bounds of the integers the constructor puts in the objects' own lists"""
        labs = {}
        for (cn, attr), ls in self.labels_stored.items():
            for l in ls:
                labs[l] = (cn, attr)
        vals = {}
        for e in self.ctor_events:
            if e.kind != "mut":
                continue
            a, op, args = e.a[0], e.a[1], e.a[2]
            h = labs.get(home(a))
            if h is None:
                continue
            for x in args:
                vals.setdefault(h, []).append((op, x, e))
        self.own_vals = vals

    # ------------------------------------------------------------------ regime reads
    def hook(self, kind, *a):
        if kind == "init":
            m, addr, pc = a
            if m.op == "maft" and m.a[0] == "$c" and addr in H.NOTOWN and self.loop_steady(H.LOOPINFO[m.a[1]], addr):
                return read(H.LOOPINFO[m.a[1]].init["$c"], addr, pc)
            if m.op != "minit" or self.in_ctor:
                return None
            if m.a[0] == "$c" and m.a[1] in self.tags and addr in H.NOTOWN and (m.a[1], addr) not in self.unsteady and self.steady(self.tags[m.a[1]], addr):
                return read(minit("$c"), addr, pc)
            return self.read_init(m.a[0], addr, pc)
        if kind == "mth":
            m, addr, info, lay, pc = a
            if m.a[0] == "$c" and addr in H.NOTOWN and self.loop_steady(info, addr):
                return read(info.init["$c"], addr, pc)
        return None

    def loop_steady(self, info, lst):
        """passes of the loop change the content of the list neither directly nor through the operations they call"""
        return all(alias(lst, x) is FALSE for x in info.muts) and bool(info.cuts) and all(self.steady(c, lst) for c in info.cuts)

    def read_init(self, attr, addr, pc):
        if addr.op == "elem" and addr.a[0] in self.fam:
            S = addr.a[0]
            _, content, cls = self.fam[S]
            k = (cls.name, attr)
            if k in self.mut_mems:
                return None
            if attr not in self.mems0:
                return None
            if k in H.OWNED:
                return None
            # evaluated once at a symbolic valid index, then instantiated
            pr = sym("slot:" + self.kind + str(S.id), "int", lo=ZERO, hi=sub(TM.LEN[S], ONE))
            key = ("fam", attr, S)
            if key not in self._lab:
                self._lab[key] = None
                v = self.read_ctor(attr, elem(content, pr), ())
                if v is None or contains_op(v, ("maft", "mth", "undef", "minit")):
                    v = self.leafwise(attr, elem(content, pr))
                self._lab[key] = v
            v = self._lab[key]
            return None if v is None else subst(v, {pr: addr.a[1]})
        if addr.op == "new" and H.LABELS[addr.a[0]]["phase"] == self.phase0:
            cn = cname(addr)
            if (cn, attr) in self.mut_mems or attr == "$c":
                return None
            if attr in self.mems0:
                key = (attr, addr.a[0])
                if key not in self._lab:
                    self._lab[key] = self.label_read(attr, addr)
                r = self._lab[key]
                if r is not None:
                    return subst(r[1], dict(zip(r[0], addr.a[1:])))
        return None

    def leafwise(self, attr, o):
        """field of a member of a family, construction site by construction site"""
        if o.op == "ite":
            a, b = self.leafwise(attr, o.a[1]), self.leafwise(attr, o.a[2])
            return None if a is None or b is None else ite(o.a[0], a, b)
        if o.op != "new":
            return None
        r = self.label_read(attr, o)
        return None if r is None else subst(r[1], dict(zip(r[0], o.a[1:])))

    def label_read(self, attr, addr):
        """field of an object made by the constructor, as a function of its construction indices"""
        b = self.label_binders(self.mems0[attr], addr.a[0])
        if b is None or len(b) != len(addr.a) - 1:
            return None
        ps = []
        for j, (_, n) in enumerate(b):
            if any(has(n, x) for x, _ in b):
                return None
            ps.append(sym("slot:%s%s.%d" % (self.kind, addr.a[0], j), "int", lo=ZERO, hi=sub(n, ONE) if n is not INF else None))
        v = self.read_ctor(attr, new(addr.a[0], *ps), ())
        if v is None or contains_op(v, ("maft", "mth", "undef", "minit")):
            return None
        return ps, v

    def label_binders(self, m, lab):
        while m.op in ("mbulk", "mupd", "mite"):
            if m.op == "mbulk":
                for b, c, w, v in m.a[1]:
                    if w.op == "new" and w.a[0] == lab and tuple(x for x, _ in b) == w.a[1:]:
                        return b
                m = m.a[0]
            elif m.op == "mupd":
                m = m.a[0]
            else:
                return None
        return None

    def read_ctor(self, attr, o, pc):
        key = (attr, o)
        if not pc and key in self._rc:
            return self._rc[key]
        self.in_ctor = True
        try:
            v = read(self.mems0[attr], o, pc)
        finally:
            self.in_ctor = False
        if not pc:
            self._rc[key] = v
        return v

    def ranges(self, at):
        if at.op == "elem":
            s = at.a[0]
            while s.op in ("remove", "perm", "rev", "slice", "distinct", "distinctby", "aslist", "setof", "sorted"):
                s = s.a[0]
            if s.op == "sel" and s.a[0].op == "minit" and s.a[0].a[0] == "$c" and s.a[1].op == "own":
                h = s.a[1].a[0]
                r = self.own_range.get(h)
                if r is None and h not in self.own_range:
                    r = self.own_range[h] = self.find_range([x for _, x, _ in self.own_vals.get(h, [])])
                if r:
                    return (ZERO, sub(r, ONE))
            if s.op == "sym" and s in self.cell_range:
                return (ZERO, sub(self.cell_range[s], ONE))
        if at.op == "sym" and at in self.cell_range:
            return (ZERO, sub(self.cell_range[at], ONE))
        if at.op == "hv" and at.a[1] == "site":
            return (ZERO, sub(N, ONE))
        return None

    def find_range(self, xs):
        xs = [y for x in xs for y in self.ints_of(x)]
        if not xs:
            return None
        for b in sorted({TM.LEN[S] for S in self.fam}, key=lambda t: t.id):
            if all(nonneg(y) and nonneg(sub(sub(b, y), ONE)) for y in xs):
                return b
        return None

    def ints_of(self, x):
        if x.op == "seq":
            return [z for y in x.a for z in self.ints_of(y)]
        if x.op == "cat":
            return [z for y in x.a for z in self.ints_of(y)]
        if x.op == "map":
            return self.ints_of(elem(x, tmpidx(x.a[0])))
        if x.op == "ite":
            return self.ints_of(x.a[1]) + self.ints_of(x.a[2])
        if x.op == "elem" and x.a[0].op == "perm":
            return self.ints_of(elem(x.a[0].a[0], tmpidx(length(x.a[0]))))
        return [x]

    # ------------------------------------------------------------------ states
    def state(self, tag=""):
        """an arbitrary state between two operations"""
        st = St()
        self.cell_range = {}
        for (a, attr), v in self.cells0.items():
            if (a, attr) not in self.mut_cells:
                st.cells[(a, attr)] = v
            else:
                st.cells[(a, attr)] = self.havoc(a, attr, v, tag)
        for (a, attr), v in self.extra_cells.items():
            st.cells[(a, attr)] = self.havoc(a, attr, None, tag)
        if self.tied and self.mut_cells.issuperset(self.tied):
            cur, sel = self.tied
            x = st.cells[sel]
            st.cells[cur] = ite(eq(x, NONE), NONE, elem(self.site_family(), x))
        return st

    tied = None         # (current site, selected id) when the first is the site numbered by the second, or both None

    def tie(self):
        """do all operations keep the recorded site the one with the recorded id?"""
        if self.tied is False or "select_site" not in self.results:
            return False
        cur, sel = self.selection()[:2]
        if cur is None:
            return False
        S = self.site_family()

        def tied(c, x):
            return c is NONE and x is NONE or c is elem(S, x) or c is ite(eq(x, NONE), NONE, elem(S, x))

        if not tied(self.cells0.get(cur), self.cells0.get(sel)):
            return False
        for op, r in self.results.items():
            if op in ("run_once", "test_run_once"):
                if any((x, e.a[1]) in (cur, sel) for e in r.events if e.kind == "write" for x in self.leaves(e.a[0])):
                    return False
                continue
            c, x, c0, x0 = r.post.cells.get(cur), r.post.cells.get(sel), r.pre.cells.get(cur), r.pre.cells.get(sel)
            if c is c0 and x is x0 or tied(c, x):
                continue
            ok = eq(self.results["select_site"].ret, self.member("SUCESS")) if op == "select_site" else TRUE
            cs = [TM.assume(z, TM.lits_of(ok)) for z in (c, x)]
            no = neg_b(ok)
            ds = [TM.assume(z, TM.lits_of(no)) for z in (c, x)]
            if not tied(*cs) or not (no is FALSE or ds == [c0, x0]):
                return False
        return cur, sel

    def havoc(self, a, attr, v, tag=""):
        ty = self.cell_ty.get((a, attr))
        t = mk("sym", "%s.%s%s" % (self.cell_name(a) if attr == "$c" else cname(a), attr if attr != "$c" else "items", tag) + "/" + self.kind, ty=ty)
        t.ty = ty
        if ty == "list" and (a, attr) not in self.own_cells and not any(
                k2 != (a, attr) and y is v and v is not None for k2, y in self.ctor.cells.items()):
            H.NOTOWN[t] = v
        else:
            H.NOTOWN.pop(t, None)
        if attr == "$c":
            e = self.cell_ety.get((a, attr))
            if e is not None:
                TM.ELEM_TY[t] = e
            n = self.find_range([elem(self.ctor.cells[(a, attr)], tmpidx(length(self.ctor.cells[(a, attr)])))]) if (a, attr) in self.ctor.cells and e == "int" and length(self.ctor.cells[(a, attr)]) is not ZERO else None
            if n is not None:
                self.cell_range[t] = n
        return t

    # ------------------------------------------------------------------ operations
    def public_ops(self):
        """mutators reached by users: (method name, argument builder)"""
        ops = []
        for nm in ("select_site", "reset", "place_one_site", "detect_wrapping", "shuffle", "run_once", "test_run_once",
                   "set_custome_site_id_list", "set_custome_site_index_list", "swap_ids"):
            f = self.K.find(nm)
            if f is None:
                continue
            ops.append((nm, f))
        return ops

    def args_for(self, f, st, tag="arg"):
        args = []
        prm = f.node.args
        names = [a.arg for a in prm.args][1:]
        ndef = len(prm.defaults)
        for i, nm in enumerate(names):
            if i >= len(names) - ndef and "shuffle" not in nm:
                continue
            if "list" in nm:
                a = mk("obj", "%s:%s" % (tag, nm), ty="list")
                s = mk("sym", "%s:%s[]" % (tag, nm), ty="seq")
                TM.ELEM_TY[s] = "int" if "index" not in nm else ("seqof", "int")
                st.cells[(a, "$c")] = s
                args.append(a)
            elif "shuffle" in nm:
                args.append(mk("sym", "%s:%s" % (tag, nm), ty="bool"))
            else:
                args.append(mk("sym", "%s:%s" % (tag, nm), ty="int"))
        return args

    def run(self, name, args=None, st=None, cuts=None, me=None, tag=""):
        f = self.K.find(name)
        if f is None:
            raise Missing("%s.%s" % (self.K.name, name))
        next_phase()
        ip = self.interp()
        if cuts:
            ip.cut.update(cuts)
        if st is None:
            st = self.state(tag)
        if args is None:
            args = self.args_for(f, st)
        pre = st.copy()
        r = ip.call_func(f, [self.me] + list(args), {}, NODE, st)
        self.note_types(ip)
        return Result(self, ip, pre, st, r, args)

    def fixpoint(self):
        import copy
        start = [(o, k, {a: set(b) for a, b in getattr(o, k).items()} if k == "types" else copy.copy(getattr(o, k))) for o, k in [(self, k) for k in ("mut_cells", "mut_mems", "mut_own", "extra_cells", "cell_ty",
                 "cell_ety", "optypes", "types")] + [(H, "FTYPES")]]
        for rnd in range(16):
            before = (frozenset(self.mut_cells), frozenset(self.mut_mems), frozenset(self.mut_own), frozenset(self.extra_cells),
                      tuple(sorted((k[0].id, k[1], repr(v)) for k, v in self.cell_ty.items())), repr(sorted((k, str(v)) for k, v in H.FTYPES.items() if True)))
            self.results = {}
            self._steady = {}
            self.unsteady = set()
            for nm, f in self.public_ops():
                cuts = self.std_cuts(nm)
                r = self.run(nm, cuts=cuts)
                self.results[nm] = r
                self.absorb(r)
                if nm == "place_one_site" and cuts:
                    for o in ("CURRENT_SITE_NOT_EMPTY", "EMPTY_SITE_LIST"):
                        r = self.run(nm, cuts={self.K.find("select_site"): self.select_cut(o)})
                        self.results[nm + "/" + o] = r
                        self.absorb(r)
            after = (frozenset(self.mut_cells), frozenset(self.mut_mems), frozenset(self.mut_own), frozenset(self.extra_cells),
                     tuple(sorted((k[0].id, k[1], repr(v)) for k, v in self.cell_ty.items())), repr(sorted((k, str(v)) for k, v in H.FTYPES.items() if True)))
            if before == after:
                t = self.tie()
                if t == self.tied:
                    return
                # once more from the start, now with (or without) that relation
                self.tied = False if self.tied else t
                for o, k, v in start:
                    x = getattr(o, k)
                    x.clear()
                    x.update({a: set(b) for a, b in v.items()} if k == "types" else copy.copy(v))
                if "optypes" in self.__dict__:
                    self.optypes.clear()
        raise Unsupported("regime does not stabilise", None, self.K.name)

    def std_cuts(self, nm):
        if nm in ("run_once", "test_run_once"):
            cuts = {}
            for m in ("place_one_site", "detect_wrapping"):
                f = self.K.find(m)
                if f is not None:
                    cuts[f] = self.havoc_cut(m)
            return cuts
        if nm == "place_one_site" and self.K.find("select_site") is not None:
            return {self.K.find("select_site"): self.select_cut("SUCESS")}
        return {}

    def site_family(self):
        for S, (a, c0, cls) in self.fam.items():
            if TM.LEN[S] is N:
                return S
        raise Missing("list of sites of the lattice")

    def selection(self):
        """what a selection step leaves behind, by role: (current site cell, selected id cell, counter cells, other cells)

        established from the step itself: on success the current-site cell holds the site whose id the selected-id cell holds and
        counters have grown by one; otherwise all of these are unchanged"""
        r = self.results.get("select_site")
        if r is None:
            return None
        S = self.site_family()
        ok = eq(r.ret, self.member("SUCESS"))
        no = neg_b(ok)
        cur = sel = None
        cnt, rest = [], []
        new_ = {}
        for k, v in r.post.cells.items():
            pre = r.pre.cells.get(k)
            if pre is v or pre is None:
                continue
            if k[0].op == "new" and H.LABELS[k[0].a[0]]["phase"] != self.phase0:
                continue
            new_[k] = (pre, TM.assume(v, (ok,)), TM.assume(v, (no,)))
        steady = {k: v for k, v in new_.items() if no is FALSE or v[2] is v[0]}
        for k, (pre, y, _) in steady.items():
            for k2, (p2, y2, _) in steady.items():
                if k2 != k and cls_of(y2) is None and y2.op != "tuple" and elem(S, y2) is y:
                    cur, sel = k, k2
        for k, (pre, y, _) in new_.items():
            if k in (cur, sel):
                continue
            if k in steady and is_numeric(y) and is_numeric(pre) and sub(y, pre) is ONE:
                cnt.append(k)
            else:
                rest.append(k)
        return cur, sel, cnt, rest

    def member(self, m):
        c = self.p.get_class(SIM + "states", "SelectionState")
        return self.interp().ev(ast.parse("SelectionState." + m, mode="eval").body, IN.Env(c.module), St())

    def select_cut(self, outcome):
        """stands for the selection step with the given outcome"""
        def h(ip, args, kw, node, st):
            r = self.results["select_site"]
            ip.ev_add("cutcall", ("select_site",), st, node)
            S = self.site_family()
            cur, sel, cnt, rest = self.selection()
            self.sel = sym("placed/" + self.kind, "int", lo=ZERO, hi=sub(N, ONE))
            placed = outcome == "SUCESS"
            for k in list(rest) + ([cur, sel] if cur else []) + list(cnt):
                if k not in st.cells:
                    continue
                pre = st.cells[k]
                if k in rest:
                    v = mk("hv", "select_site", cname(k[0]), self.cell_name(k[0]) if k[1] == "$c" else k[1], ip.cs_id(node), ty=self.cell_ty.get(k))
                    if k[1] == "$c" and self.cell_ety.get(k):
                        TM.ELEM_TY[v] = self.cell_ety[k]
                elif not placed:
                    v = pre
                elif k == cur:
                    v = elem(S, self.sel)
                elif k == sel:
                    v = self.sel
                else:
                    v = add(pre, ONE)
                st.cells[k] = v
            for a in r.post.mems:
                if r.post.mems[a] is not r.pre.mems.get(a, minit(a)):
                    tag = "select_site@%s" % ip.cs_id(node)
                    st.mems[a] = minit(a, tag)
                    if a == "$c":
                        lay = H.layers_since(r.post.mems[a], r.pre.mems.get(a, minit(a)))
                        if lay is not None and all(w.op in ("own", "new", "sym") for _, _, w, _ in lay):
                            H.TAG_OWN[tag] = {w.a[0] for _, _, w, _ in lay if w.op == "own"}
            if self.at_cut is not None:
                self.at_cut("select_site", ip, st, node, self.member(outcome))
            return self.member(outcome)
        return h

    def havoc_cut(self, m):
        def h(ip, args, kw, node, st):
            ip.ev_add("cutcall", (m,), st, node)
            ix = tuple(i for i, n, k in ip.loops)
            pre = dict(st.cells)
            for (a, attr) in list(st.cells):
                if (a, attr) in self.cut_writes(m):
                    ty = self.cell_ty.get((a, attr))
                    t = mk("hv", m, cname(a), self.cell_name(a) if attr == "$c" else attr, ip.cs_id(node), *ix, ty=ty)
                    if ty is not None and t.ty != ty:
                        t.ty = ty
                        TM.clear_memos()
                    st.cells[(a, attr)] = t
                    if attr == "$c" and self.cell_ety.get((a, attr)):
                        TM.ELEM_TY[t] = self.cell_ety[(a, attr)]
            for attr in {x for _, x in self.mut_mems} | ({"$c"} if self.mut_own else set()):
                tag = "%s@%s" % (m, ip.cs_id(node))
                self.tags[tag] = m
                if attr == "$c":
                    pm = st.mems.get("$c", minit("$c"))
                    for v in st.cells.values():
                        if v in H.NOTOWN and read(pm, v) is not read(minit("$c"), v):
                            self.unsteady.add((tag, v))
                st.mems[attr] = minit(attr, tag)
            ret = mk("hv", m, "ret", "", ip.cs_id(node), *ix, ty="bool")
            fl = self.outcome_cell() if m == "place_one_site" else None
            if fl:
                # the outcome is one of three, kept in a cell of the object and tied to the result
                ok = mk("hv", m, "placed", "", ip.cs_id(node), *ix, ty="bool")
                skip = mk("hv", m, "skipped", "", ip.cs_id(node), *ix, ty="bool")
                f = ite(ok, self.member("SUCESS"), ite(skip, self.member("CURRENT_SITE_NOT_EMPTY"), self.member("EMPTY_SITE_LIST")))
                for k in fl:
                    st.cells[k] = f
                ret = or_(ok, skip)
                self.tie_selected(pre, st, ok, m, ip.cs_id(node), ix)
            if m == "detect_wrapping":
                # its result is one of the cells it leaves behind
                r = self.results.get(m)
                for k, v in r.post.cells.items():
                    if v is r.ret and k in self.cut_writes(m) and k in st.cells:
                        ret = st.cells[k]
                        break
            if self.at_cut is not None:
                self.at_cut(m, ip, st, node, ret)
            return ret
        return h

    def tie_selected(self, pre, st, ok, m, cs, ix):
        """the current site is the site with the selected id, both replaced exactly by a step that places a site"""
        sel_ = self.selection()
        if not sel_ or sel_[0] is None:
            return
        cur, sel, S = sel_[0], sel_[1], self.site_family()
        r = self.results["place_one_site"]
        if elem(S, r.post.cells[sel]) is not r.post.cells[cur]:
            return
        for o in ("CURRENT_SITE_NOT_EMPTY", "EMPTY_SITE_LIST"):
            r = self.results["place_one_site/" + o]
            if any(r.post.cells[k] is not r.pre.cells[k] for k in (cur, sel)):
                return
        x = mk("hv", m, "site", "", cs, *ix, ty="int")
        st.cells[sel] = ite(ok, x, pre[sel])
        st.cells[cur] = ite(ok, elem(S, x), pre[cur])

    at_cut = None

    def steady(self, m, lst):
        """no outcome of the operation changes the content of the list"""
        k = (m, lst)
        if k not in self._steady:
            rs = [r for n, r in self.results.items() if n == m or n.startswith(m + "/")]
            self._steady[k] = bool(rs) and all(r.ip.get(r.post, lst, "$c") is r.ip.get(r.pre, lst, "$c") for r in rs)
        return self._steady[k]

    def outcome_cell(self):
        """cells in which a placement step leaves its outcome, when the step also returns 'no more' exactly for an empty selection"""
        out = None
        for o, want in (("SUCESS", TRUE), ("CURRENT_SITE_NOT_EMPTY", TRUE), ("EMPTY_SITE_LIST", FALSE)):
            r = self.results.get("place_one_site" + ("" if o == "SUCESS" else "/" + o))
            if r is None or r.ret is not want:
                return None
            v = self.member(o)
            ks = {k for k, x in r.post.cells.items() if x is v and k in self.mut_cells}
            out = ks if out is None else out & ks
        return out or None

    def cut_writes(self, m):
        r = self.results.get(m)
        return r.written_cells() if r is not None else set()

    def absorb(self, r):
        """add what an operation changed to the mutated locations"""
        base = self.cells0
        for (a, attr), v in r.post.cells.items():
            pre = r.pre.cells.get((a, attr))
            if a.op == "obj" or (a.op == "new" and H.LABELS[a.a[0]]["phase"] != self.phase0):
                continue
            if pre is v:
                continue
            if pre is None:
                if v is UNDEF:
                    continue
                self.extra_cells.setdefault((a, attr), v)
                self.widen((a, attr), None, v)
                continue
            if v is UNDEF:
                v = NONE
            if attr != "$c" and cls_of(v) == "list" and v.op == "new" and H.LABELS[v.a[0]]["phase"] == H.PHASE[0]:
                # the attribute now holds a list made by this operation: rename it to the original list
                old = base.get((a, attr))
                if old is not None and cls_of(old) == "list":
                    nc = r.post.cells.get((v, "$c"))
                    if self.same_family(old, nc, r):
                        continue
                    if nc is not r.pre.cells.get((old, "$c")):
                        self.mut_cells.add((old, "$c"))
                        self.widen((old, "$c"), base.get((old, "$c")), nc)
                    continue
            if attr == "$c" and self.same_family(a, v, r):
                continue
            self.mut_cells.add((a, attr))
            if not self.private((a, attr), v, pre, r):
                self.own_cells.add((a, attr))
            self.widen((a, attr), base.get((a, attr)), v)
        ph = H.PHASE[0]
        for e in r.events:
            if e.kind == "write":
                a, attr = e.a[0], e.a[1]
                for x in self.leaves(a):
                    if x.op == "new" and H.LABELS[x.a[0]]["phase"] == ph:
                        continue
                    if is_static(x):
                        continue
                    self.mut_mems.add((cname(x), attr))
            elif e.kind == "mut":
                for x in self.leaves(e.a[0]):
                    if x.op == "own" and not is_static(x):
                        self.mut_own.add(x.a[0])

    def private(self, k, v, pre, r):
        """the value stored in a cell is what the cell held before or a list of this operation that no other cell holds"""
        for x in self.leaves(v):
            if x is NONE or x in self.leaves(pre) or cls_of(x) != "list":
                continue
            if x.op != "new" or H.LABELS[x.a[0]]["phase"] != r.phase:
                return False
            if any(k2 != k and y is not None and y is not UNDEF and any(z is x for z in self.leaves(y)) for k2, y in r.post.cells.items()):
                return False
        return True

    def same_family(self, lst, content, r):
        for S, (a, c0, cls) in self.fam.items():
            if a is lst:
                if content is S:
                    return True
                if content is None:
                    return False
                if length(content) is not TM.LEN[S]:
                    return False
                i = idx("probe", TM.LEN[S])
                x = elem(content, i)
                return x.op == "new" and len(x.a) == 2 and x.a[1] is i and cls_of(x) is cls
        return False

    def widen(self, k, old, v):
        tys = self.optypes.setdefault(k, set())
        for x in (old, v):
            if x is None:
                continue
            for l in self.leaves(x):
                if l is UNDEF:
                    continue
                t = norm_ty(l)
                tys.add(t if t is not None else l.ty or "any")
        self.cell_ty[k] = ty_join(tys)
        if k[1] == "$c":
            es = {elem_ty(x) for x in (old, v) if x is not None and not (x.op == "seq" and not x.a)}
            es.discard(None)
            if len(es) == 1:
                self.cell_ety[k] = es.pop()
            self.cell_ty[k] = "seq"


class Result:
    def __init__(self, reg, ip, pre, post, ret, args):
        self.reg, self.ip, self.pre, self.post, self.ret, self.args = reg, ip, pre, post, ret, args
        self.events = ip.events
        self.phase = H.PHASE[0]

    def written_cells(self):
        out = set()
        for k, v in self.post.cells.items():
            if self.pre.cells.get(k) is not v:
                out.add(k)
        return out

    def read(self, a, attr, which="post"):
        st = self.post if which == "post" else self.pre
        return self.ip.get(st, a, attr)
