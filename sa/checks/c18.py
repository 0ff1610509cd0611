"""Exported site sequence: what each operation does to the two exported sequences, and their element-wise relation."""
from .common import *
from .c16 import base, seq_leaves

KINDS = ("S", "L0", "SP", "L1", "L2")
CONFIG = ("shuffle", "swap_ids", "set_custome_site_id_list", "set_custome_site_index_list")


def seqs(reg, st):
    P = Probe(reg, st)
    return P.items(P.call(reg.me, "get_site_id_sequence")), P.items(P.call(reg.me, "get_index_sequence")), P


def pairs(P, t):
    """the two components of one exported index"""
    x = P.items(t)
    if x.op in ("tuple", "seq") and len(x.a) == 2:
        return list(x.a)
    return None


def run(ck):
    ck.rule("index sequence: item k is (row, column) of the k-th exported id.  Recording classes: a step that selects a site appends exactly its id, every "
            "other outcome and operation appends nothing, construction and reset empty it.  Plain classes: the exported order never changes during a "
            "realisation and the n-th step takes its n-th item (counter from zero, plus one per success)")
    def one(kind):
        reg = ck.regime(kind, ops=True)
        nm = reg.K.name
        for g in ("get_site_id_sequence", "get_index_sequence", "select_site"):
            if reg.K.find(g) is None:
                raise Missing("%s.%s" % (nm, g))
        fi, fx, fsel = (reg.K.find(g) for g in ("get_site_id_sequence", "get_index_sequence", "select_site"))
        st = reg.state()
        ids, ind, P = seqs(reg, st)
        i = tmpidx(length(ids))
        ck.ob("%s: both exports have the same number of items" % nm, length(ids) is length(ind), fx.where, "%s and %s" % (sh(length(ids)), sh(length(ind))))
        p = pairs(P, elem(ind, i))
        k = elem(ids, i)
        ok = p is not None and ((p[0] is fdiv(k, L) and p[1] is TM.mod(k, L)))
        ck.ob("%s: item n of the index export is the position of item n of the id export" % nm, ok, fx.where, "%s for id %s" % (sh(elem(ind, i)), sh(k)))
        r = reg.results["select_site"]
        sel = reg.selection()
        yes = eq(r.ret, reg.member("SUCESS"))
        ly, ln = TM.lits_of(yes), TM.lits_of(neg_b(yes))
        a, _, _ = seqs(reg, r.pre)
        b, _, _ = seqs(reg, r.post)
        by, bn = TM.assume(b, ly), TM.assume(b, ln)
        if not ck.ob("%s.select_site leaves the selected id behind" % nm, sel is not None and sel[1] is not None, fsel.where, "no cell holds it"):
            return
        got = TM.assume(r.post.cells[sel[1]], ly)
        ck.ob("%s: a step that selects nothing exports nothing new" % nm, bn is a or same_seq(bn, a, yes), fsel.where, "it becomes %s" % sh(bn, 300))
        recording = by is not a
        if recording:
            ck.ob("%s: a step that selects a site appends its id to the export" % nm, by is cat(a, seq(got)), fsel.where,
                  "it becomes %s, selected %s" % (sh(by, 300), sh(got, 200)))
        else:
            ctr = [c for c in sel[2] if got is elem(a, r.pre.cells[c])]
            ck.ob("%s: the n-th step takes the n-th item of the export" % nm, len(ctr) == 1, fsel.where, "it takes %s" % sh(got))
            for lab, st, w in (("a new object", reg.ctor, reg.K.find("__init__").where), ("a reset", reg.results["reset"].post, reg.K.find("reset").where)):
                for c in ctr:
                    ck.ob("%s: items are taken from the first on after %s" % (nm, lab), st.cells[c] is ZERO, w, "the counter is %s" % sh(st.cells[c]))
        # start of a realisation
        s0 = seqs(reg, reg.ctor)[0]
        r = reg.results["reset"]
        a, b = seqs(reg, r.pre)[0], seqs(reg, r.post)[0]
        w = reg.K.find("reset").where
        if recording:
            ck.ob("%s: nothing is exported by a new object" % nm, length(s0) is ZERO, reg.K.find("__init__").where, "exports %s" % sh(s0))
            ck.ob("%s: nothing is exported after a reset" % nm, length(b) is ZERO, w, "exports %s" % sh(b))
        else:
            bs, k = base(s0)
            j = tmpidx(N)
            ck.ob("%s: a new object exports an order of all sites" % nm, length(bs) is N and elem(bs, j) is j, reg.K.find("__init__").where, "exports %s" % sh(s0))
            ck.ob("%s: after a reset the configured order is exported" % nm, all(base(x)[0] is a for x in seq_leaves(b)), w, "exports %s" % sh(b))
        # a placement step and the other operations add nothing of their own
        placing(ck, reg, nm)
        for op, r in sorted(reg.results.items()):
            if op in ("select_site", "reset") or op.startswith("place_one_site") or (not recording and op in CONFIG):
                continue
            a, b = seqs(reg, r.pre)[0], seqs(reg, r.post)[0]
            f = reg.K.find(op.split("/")[0])
            same = a is b or r_cut(b)
            ck.ob("%s.%s exports nothing of its own" % (nm, op), same, f.where, "the export becomes %s" % sh(b))
            ck.count("operation effects")
    ck.each(KINDS, one)


def same_seq(x, a, yes):
    return implied([neg_b(yes)], eq(x, a)) if x.op == "ite" else False


def r_cut(b):
    """what the placement steps of a realisation left, unchanged"""
    return all(x.op == "hv" and x.a[0] == "place_one_site" or x.op == "sym" for x in seq_leaves(b))


def placing(ck, reg, nm):
    f = reg.K.find("place_one_site")
    for outcome in ("SUCESS", "CURRENT_SITE_NOT_EMPTY", "EMPTY_SITE_LIST"):
        rec = []

        def at_cut(m, ip, st, node, ret):
            rec.append(seqs(reg, st)[0])

        reg.at_cut = at_cut
        r = reg.run("place_one_site", cuts={reg.K.find("select_site"): reg.select_cut(outcome)})
        reg.at_cut = None
        b = seqs(reg, r.post)[0]
        calls = [e for e in r.events if e.kind == "cutcall"]
        ck.ob("%s.place_one_site selects once (%s)" % (nm, outcome), len(calls) == 1 and calls[0].guard is TRUE and not calls[0].loops, f.where,
              "%d selections" % len(calls))
        ck.ob("%s.place_one_site exports what its selection exported (%s)" % (nm, outcome), bool(rec) and b is rec[-1], f.where, "the export becomes %s" % sh(b))
