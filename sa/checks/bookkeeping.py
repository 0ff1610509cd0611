"""shared by C05-C10: the public view of labels and clusters, and one successful placement step per class."""
from .common import *
from ..merge import Merge
from ..interp import member
from .c04 import KINDS

B2 = mul(C(2), N)


class View:
    """labels, member lists and numbers of one state as the public interface shows them"""

    def __init__(self, reg, st):
        P = self.P = Probe(reg, st)
        self.lat, self.pool = P.attr(reg.me, "lattice_ref"), P.attr(reg.me, "cluster_pool_ref")

    def site(self, s):
        return self.P.call(self.lat, "get_site_by_id", s)

    def bond(self, b):
        return self.P.call(self.lat, "get_bond_by_id", b)

    def cluster(self, g):
        c = self.P.call(self.pool, "get_cluster", g)
        while c.op == "ite":
            c = c.a[2] if c.a[1] is NONE else c.a[1]
        return c

    def label(self, b):
        return self.P.call(self.bond(b), "get_gid")

    def site_label(self, s):
        return self.P.call(self.site(s), "get_gid")

    def number(self, g):
        return self.P.call(self.cluster(g), "get_gid")

    def bonds(self, g):
        return self.P.items(self.P.call(self.cluster(g), "get_bonds"))

    def sites(self, g):
        return self.P.items(self.P.call(self.cluster(g), "get_sites"))

    def all(self, b, s, g):
        return dict(zip(("bond labels", "site labels", "cluster numbers", "bond lists", "site lists"),
                        (self.label(b), self.site_label(s), self.number(g), self.bonds(g), self.sites(g))))


def syms():
    return (sym("b#", "int", lo=ZERO, hi=sub(B2, ONE)), sym("s#", "int", lo=ZERO, hi=sub(N, ONE)), sym("g#", "int", lo=ZERO, hi=sub(B2, ONE)))


class Step:
    """one successful placement of one class, from an arbitrary state that satisfies the bookkeeping invariants"""

    def __init__(self, ck, kind):
        self.ck, self.kind = ck, kind
        self.reg = ck.regime(kind, ops=True)
        self.nm = self.reg.K.name
        self.f = self.reg.K.find("place_one_site")
        if self.f is None:
            raise Missing("%s.place_one_site" % self.nm)
        self.w = self.f.where

    def __enter__(self):
        self.M = Merge(self.reg)
        self.M.__enter__()
        try:
            self.r = self.M.step()
            self.ck.seen(self.r.ip)
            self.pre, self.post = View(self.reg, self.r.pre), View(self.reg, self.r.post)
            self.x = self.M.placed
            pre = self.pre
            near = self.near = pre.P.items(pre.P.call(pre.site(self.x), "connecting_bonds"))
            t = tmpidx(length(near))
            self.labels = TM.mapt(length(near), t, pre.label(elem(near, t)))
            self.G = TM.setof(self.labels)            # the clusters that meet at the site
            self.root = self.post.site_label(self.x)
        except BaseException:
            self.M.__exit__()
            raise
        return self

    def __exit__(self, *a):
        self.M.__exit__()


def steps(ck, kinds=KINDS):
    for k in kinds:
        yield Step(ck, k)
