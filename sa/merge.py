"""One successful placement step analysed from a state that satisfies the bookkeeping invariants of labels and clusters.

Invariants of a state between two operations (established by C06 for the constructor and reset, and preserved by every operation):
  I1  a bond in the bond list of cluster g has label g          I2  a site in the site list of cluster g has label g
  I3  cluster g carries the number g while it has bonds         I4  every bond is in the bond list of the cluster of its label
  I5  every site with a label >= 0 is in the site list of the cluster of its label, every other site in none
  I6  no list holds an id twice; every label of a bond is a cluster number
Reads of labels, lists and cluster numbers in the initial state are rewritten with them; the loops of the merge then have
closed forms, because the lists they go through are pairwise disjoint.
"""
from .model import *
from . import heap as H
from . import terms as TM
from .loader import Missing, Unsupported
from .interp import St, is_static


def posof(x, s):
    return mk("posof", s, x, ty="int")


class Merge:
    def __init__(self, reg):
        self.reg = reg
        self.names, self.sets = {}, {}
        self.discover()
        self.old_elem = TM.CONS["elem"]

    # ------------------------------------------------------------------ names used by the code
    def discover(self):
        """families, and the fields behind the public getters"""
        reg = self.reg
        by = {}
        for S, (a, c0, cls) in reg.fam.items():
            by.setdefault(cls.name, []).append(S)
        ip = reg.interp()
        st = reg.state()
        self.site_fam = reg.site_family()
        lat = ip.get(st, reg.me, "lattice_ref")
        pool = ip.get(st, reg.me, "cluster_pool_ref")
        from .checks.common import Probe
        P = Probe(reg, st)
        x = sym("probe#", "int", lo=ZERO)
        s = P.call(lat, "get_site_by_id", x)
        b = P.call(lat, "get_bond_by_id", x)
        c = P.call(pool, "get_cluster", x)
        c = self.leaf(c)
        if b.op != "elem" or s.op != "elem" or c.op != "elem":
            raise Unsupported("sites, bonds and clusters are not kept in lists indexed by their ids", None, "")
        self.Ss, self.Sb, self.Sc = s.a[0], b.a[0], c.a[0]
        self.lat, self.pool = lat, pool
        g = P.call(b, "get_gid")
        g2 = P.call(s, "get_gid")
        n = P.call(c, "get_gid")
        if not all(z.op == "sel" and z.a[0].op == "minit" for z in (g, g2)) or not (n is x or n.op == "sel" and n.a[0].op == "minit"):
            raise Unsupported("labels are not plain fields", None, "")
        self.f_bond, self.f_site, self.f_clu = g.a[0].a[0], g2.a[0].a[0], None if n is x else n.a[0].a[0]
        lb, ls = P.call(c, "get_bonds"), P.call(c, "get_sites")
        if lb.op != "own" or ls.op != "own":
            raise Unsupported("a cluster does not own its lists", None, "")
        self.h_bond, self.h_site = lb.a[0], ls.a[0]
        self.conn = None
        k = P.call(s, "connecting_bonds")
        if k.op == "own":
            self.conn = k.a[0]

    def leaf(self, c):
        while c.op == "ite":
            c = c.a[2] if c.a[1] is NONE else c.a[1]
        return c

    # ------------------------------------------------------------------ initial state
    def content(self, h, g):
        return read(minit("$c"), mk("own", h, elem(self.Sc, g), ty="list"))

    def bonds0(self, g):
        return self.content(self.h_bond, g)

    def sites0(self, g):
        return self.content(self.h_site, g)

    def raw_label(self, fam, x):
        return mk("sel", minit(self.f_bond if fam is self.Sb else self.f_site), elem(fam, x), ty="int")

    def label0(self, fam, x):
        return read(minit(self.f_bond if fam is self.Sb else self.f_site), elem(fam, x))

    def own_of(self, x, h):
        """x = member k of the initial list of cluster g: g"""
        if x.op == "elem" and x.a[0].op == "sel" and x.a[0].a[0].op == "minit" and x.a[0].a[0].a[0] == "$c" and x.a[0].a[1].op == "own":
            o = x.a[0].a[1]
            if o.a[0] == h and o.a[1].op == "elem" and o.a[1].a[0] is self.Sc:
                return o.a[1].a[1]
        return None

    def is_label(self, x):
        """x is the label of some bond in the initial state"""
        if x.op == "sel":
            return x.a[0].op == "minit" and x.a[0].a[0] == self.f_bond and x.a[1].op == "elem" and x.a[1].a[0] is self.Sb
        if x.op == "elem" and x.a[0].op in ("distinct", "aslist"):
            s = x.a[0].a[0]
            if s.op == "setof":
                s = s.a[0]
            return self.labels(s)
        if x in self.roots:
            return True
        if x.op == "nm":
            return self.picked(x.a[0], TRUE)
        if x.op == "foldv":
            return self.picked(x, TRUE)
        return False

    def labels(self, s):
        """every item of the sequence is the label of a bond"""
        while s.op in ("setof", "aslist", "distinct", "rev", "perm", "sorted"):
            s = s.a[0]
        if s.op == "seq":
            return all(self.is_label(y) for y in s.a)
        t = tmpidx(length(s))
        if s.op in ("map", "fmap"):
            return self.is_label(opened(s, t)[-1])
        return False

    def picked(self, x, cond):
        """x, under cond, is the label of some bond"""
        if x.op == "ite":
            return self.picked(x.a[1], and_(cond, x.a[0])) and self.picked(x.a[2], and_(cond, neg_b(x.a[0])))
        if x.op == "nm":
            r = self.names.get(x)
            if r is None:
                self.names[x] = False       # guards against a cyclic definition
                r = self.names[x] = self.picked(x.a[0], cond)
            return r
        if x.op == "foldv":
            j, inits, lam = x.a
            t = tmpidx(lam.a[0])
            nx, = opened(lam, t)
            return self.picked(inits[j], cond) and self.kept_or_label(nx.a[j], j)
        if self.is_label(x):
            return True
        for l in lits_of(cond):
            if l.op == "exists" and self.exists_label(l, x):
                return True
        return False

    def exists_label(self, l, x):
        t = tmpidx(l.a[0])
        c, = opened(l, t)
        for e in lits_of(c):
            if e.op == "eq0":
                for y in (sub(x, e.a[0]), TM.add(x, e.a[0])):
                    if has(y, t) and not has(y, x) and self.is_label(y):
                        return True
        return False

    def exists(self, n, ix, c):
        """the chosen cluster is one of the labels in the set"""
        if c.op != "eq0":
            return None
        for at in to_poly(c.a[0]):
            if len(at) == 1 and at[0][1] == 1 and at[0][0].op == "nm":
                x = at[0][0]
                G = self.pickset(x)
                if G is None:
                    continue
                src = None
                for y in (sub(x, c.a[0]), TM.add(x, c.a[0])):
                    if not has(y, x) and TM.setof(TM.mapt(n, ix, y)) is G:
                        return TRUE
        return None

    def pickset(self, x):
        """the set of labels the named value x is certainly taken from"""
        r = self.sets.get(x, 0)
        if r == 0:
            self.sets[x] = None
            r = self.sets[x] = self.pickset_(x.a[0], TRUE)
        return r

    def pickset_(self, x, cond):
        if x.op == "ite":
            a, b = self.pickset_(x.a[1], and_(cond, x.a[0])), self.pickset_(x.a[2], and_(cond, neg_b(x.a[0])))
            return a if a is b else None
        if x.op == "elem" and x.a[0].op in ("aslist", "distinct"):
            return TM.setof(x.a[0].a[0])
        if x.op == "foldv":
            j, inits, lam = x.a
            t = tmpidx(lam.a[0])
            nx, = opened(lam, t)
            a = self.pickset_(inits[j], cond)
            return a if a is not None and self.keeps(nx.a[j], j, a) else None
        for l in lits_of(cond):
            if l.op == "exists":
                t = tmpidx(l.a[0])
                c, = opened(l, t)
                if c.op == "eq0":
                    for y in (sub(x, c.a[0]), TM.add(x, c.a[0])):
                        if has(y, t) and not has(y, x):
                            return TM.setof(TM.mapt(l.a[0], t, y))
        return None

    def keeps(self, x, j, G):
        if x.op == "ite":
            return self.keeps(x.a[1], j, G) and self.keeps(x.a[2], j, G)
        return x.op == "fv" and x.a[1] == j or self.pickset_(x, TRUE) is G

    def kept_or_label(self, x, j):
        if x.op == "ite":
            return self.kept_or_label(x.a[1], j) and self.kept_or_label(x.a[2], j)
        return x.op == "fv" and x.a[1] == j or self.is_label(x)

    # ------------------------------------------------------------------ rewriting
    roots = ()
    busy = False
    G = None

    def hook(self, kind, *a):
        if kind == "init":
            m, addr, pc = a
            if m.op != "minit" or m.a[1] != "" or self.reg.in_ctor:
                return None
            return self.init(m, addr)
        if kind == "conflict":
            return self.apart(*a)
        if kind == "match":
            return self.match(*a)
        return None

    def init(self, m, addr):
        if addr.op != "elem":
            return None
        at, x = m.a[0], addr.a[1]
        if addr.a[0] is self.Sb and at == self.f_bond:
            g = self.own_of(x, self.h_bond)
            if g is not None:
                return g
            if x.op == "elem" and x.a[0].op == "distinctby":
                d = x.a[0]
                if self.busy:
                    return None
                self.busy = True
                try:
                    k, = TM.opened_key(d, x)
                    n = length(d.a[0])
                    t = tmpidx(n)
                    kk, = TM.opened_key(d, elem(d.a[0], t))
                finally:
                    self.busy = False
                if k is mk("sel", m, addr):
                    return elem(TM.distinct(TM.mapt(n, t, kk)), x.a[1])
        if addr.a[0] is self.Ss and at == self.f_site:
            if x is self.placed:
                return C(-1)
            g = self.own_of(x, self.h_site)
            if g is not None:
                return g
        if addr.a[0] is self.Sc and at == self.f_clu and self.is_label(x):
            return x
        return None

    def apart(self, a, w, cond, info, mp, pc):
        """different initial labels: different objects"""
        if a.op == "own" and w.op == "own":
            a, w = a.a[1], w.a[1]
        if a.op != "elem" or w.op != "elem" or a.a[0] is not w.a[0]:
            return None
        if a.a[0] in (self.Sb, self.Ss):
            la, lw = self.label0(a.a[0], a.a[1]), self.label0(a.a[0], w.a[1])
        else:
            return None
        c = and_(eq(la, lw), cond)
        if c is FALSE or H.decide(c, pc) is FALSE:
            return False
        return None

    def norep(self, s):
        """I6: a member list of a cluster holds nothing twice"""
        return s.op == "sel" and s.a[0].op == "minit" and s.a[0].a[0] == "$c" and s.a[1].op == "own" and s.a[1].a[0] in (self.h_bond, self.h_site)

    def match(self, binders, w, a, pc, cond):
        """solve w(binders) == a, where w goes through listings of distinct labels and through member lists"""
        if w.op != "elem" or a.op != "elem" or w.a[0] is not a.a[0]:
            return None
        F, x, y = w.a[0], w.a[1], a.a[1]
        mp, inr = {}, TRUE
        if F is not self.Sc:
            if x.op != "elem" or not self.norep(x.a[0]):
                return None
            g = self.own_of(x, self.h_bond if F is self.Sb else self.h_site)
            if g is None or (F is self.Ss) != (x.a[0].a[1].a[0] == self.h_site):
                return None
            ly = self.label0(F, y)
            k = x.a[1]
            if F is self.Ss:
                inr = neg_b(eq(ly, C(-1)))
        else:
            g, ly, k = x, y, None
        bs = [b for b, n in binders]
        if g.op == "elem" and g.a[1] in bs and TM.no_repeats(g.a[0]) and not any(has(g.a[0], b) for b in bs):
            mp[g.a[1]] = TM.posof(g.a[0], ly)
            inr = and_(inr, TM.MEMBER[0](ly, g.a[0]))
        elif not any(has(g, b) for b in bs):
            inr = and_(inr, eq(g, ly))
        else:
            return None
        if k is not None:
            if k not in bs:
                return None
            s = subst(x.a[0], mp)
            mp[k] = TM.posof(s, y)
        if any(b not in mp for b in bs):
            return None
        # the rounds so far may be fewer than the whole list
        whole = {}
        if g.op == "elem" and g.a[1] in bs:
            whole[g.a[1]] = length(g.a[0])
        if k is not None:
            whole[k] = length(x.a[0])
        for b, n in binders:
            if whole.get(b) is not n:
                inr = and_(inr, le(add(mp[b], ONE), subst(n, mp)))
        return False if inr is FALSE else (mp, inr)

    # ------------------------------------------------------------------ the step
    def __enter__(self):
        H.REWRITES.insert(0, self.hook)
        TM.RANGE_HOOKS.insert(0, self.ranges)
        TM.EXISTS_HOOKS.append(self.exists)
        TM.REPEAT_HOOKS.append(self.norep)
        TM.NAMING[0] = True
        TM.clear_memos()
        return self

    def __exit__(self, *a):
        H.REWRITES.remove(self.hook)
        TM.RANGE_HOOKS.remove(self.ranges)
        TM.EXISTS_HOOKS.remove(self.exists)
        TM.REPEAT_HOOKS.remove(self.norep)
        TM.NAMING[0] = False
        TM.clear_memos()

    def ranges(self, at):
        if at.op == "posof" and nonneg(sub(length(at.a[0]), ONE)):
            return (ZERO, sub(length(at.a[0]), ONE))        # any position when the item is not in the list
        if at.op == "len":
            s = at.a[0]
            if s.op == "sel" and s.a[0].op == "minit" and s.a[1].op == "own" and s.a[1].a[0] == self.conn:
                return (C(4), C(4))
            if s.op == "setof" and s.a[0].op == "map" and nonneg(sub(s.a[0].a[0], ONE)):
                return (ONE, s.a[0].a[0])
            if s.op == "sel" and s.a[0].op == "minit" and s.a[0].a[0] == "$c" and s.a[1].op == "own" and s.a[1].a[0] == self.h_bond \
                    and s.a[1].a[1].op == "elem" and self.is_label(s.a[1].a[1].a[1]):
                return (ONE, None)
        if self.is_label(at):
            return (ZERO, sub(TM.LEN[self.Sc], ONE))
        return None

    def step(self, outcome="SUCESS"):
        reg = self.reg
        self.placed = sym("placed/" + reg.kind, "int", lo=ZERO, hi=sub(N, ONE))
        f = reg.K.find("select_site")
        self.r = reg.run("place_one_site", cuts={f: reg.select_cut(outcome)} if f else {})
        return self.r
