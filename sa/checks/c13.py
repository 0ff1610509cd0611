"""Handed-out results and handed-in lists are never modified: escape / alias analysis of the result lists and of caller lists."""
from .common import *

GETTERS = ("get_occupation_prob_array", "get_entropy_array", "get_order_param_wrapping_array", "get_order_param_largest_array",
           "get_site_id_sequence", "get_index_sequence", "get_data_array")
KINDS = ("S", "L0", "L1", "L2", "SP")


READS = ("sel", "elem", "len", "poly", "sum", "exists", "first", "best", "idx", "member", "perm", "not", "and", "or", "le0", "eq0", "eq")


def refers(v, o):
    """may v be, or contain, a reference to the object o (reading its content or comparing it is no reference)"""
    if v is o:
        return True
    if v.op in READS or v.op in ("new", "own"):
        return False
    xs = v.a[1:] if v.op == "ite" else v.a
    return any(refers(y, o) for x in xs for y in ([x] if isinstance(x, T) else TM._tuple_terms(x) if isinstance(x, tuple) else []))


def holders(st, objs):
    """cells of a state whose value refers to one of the objects"""
    out = []
    for (a, attr), v in st.cells.items():
        if v is None or v is UNDEF or a in objs or not isinstance(v, T):
            continue
        if any(refers(v, o) for o in objs):
            out.append("%s.%s" % (cname(a), attr))
    for attr, m in st.mems.items():
        if any(refers(m, o) for o in objs):
            out.append("memory " + attr)
    return out


def lists_of(P, v):
    """list objects a handed-out value consists of"""
    out = []
    todo = [v]
    while todo:
        x = todo.pop()
        if x.op == "ite":
            todo += [x.a[1], x.a[2]]
        elif cls_of(x) in ("list", "set", "dict"):
            if x not in out:
                out.append(x)
                c = P.ip.get(P.st, x, "$c")
                if isinstance(c, T):
                    todo += [y for y in (c.a if c.op in ("seq", "cat") else ()) if isinstance(y, T)]
        elif x.op in ("tuple", "seq", "cat"):
            todo += list(x.a)
    return out


def run(ck):
    ck.rule("alias analysis: the list objects a result getter hands out before a reset are neither changed by the reset nor referred to by "
            "anything the object owns afterwards; a caller's list is neither mutated nor kept by the setters")
    def one(kind):
        reg = ck.regime(kind, ops=True)
        nm = reg.K.name
        st = reg.state()
        P = Probe(reg, st)
        given = {}
        for g in GETTERS:
            f = reg.K.find(g)
            if f is None:
                raise Missing("%s.%s" % (nm, g))
            v = P.call(reg.me, g)
            fresh = v
            given[g] = (f, v, [o for o in lists_of(P, v) if (o, "$c") in st.cells or o.op != "new"])
        r = reg.run("reset", st=st)
        for g, (f, v, objs) in given.items():
            ch = [sh(o, 60) for o in objs if P.ip.get(r.post, o, "$c") is not P.ip.get(r.pre, o, "$c")]
            ev = [e for e in r.events if e.kind == "mut" and any(o in TM.subterms(e.a[0]) for o in objs)]
            ck.ob("%s.%s: the result handed out is not changed by a reset" % (nm, g), not ch and not ev, ev[0].where if ev else f.where, "changed: %s" % ch)
            h = holders(r.post, objs) if objs else []
            ck.ob("%s.%s: the result handed out is not used by the next realisation" % (nm, g), not h, f.where, "still held by " + ", ".join(h[:4]))
            ck.count("results")
        for op in ("set_custome_site_id_list", "set_custome_site_index_list"):
            r = reg.results.get(op)
            if r is None:
                continue
            f = reg.K.find(op)
            lst = [a for a in r.args if cls_of(a) == "list"]
            ev = [e for e in r.events if e.kind in ("mut", "write") and any(o in TM.subterms(e.a[0]) for o in lst) and derived(e.a[0], lst, reg, r.phase)]
            ck.ob("%s.%s: the caller's list is not modified" % (nm, op), not ev, ev[0].where if ev else f.where,
                  "; ".join("%s at %s" % (e.a[1], e.where) for e in ev[:3]))
            h = holders(r.post, lst)
            ck.ob("%s.%s: the caller's list is not kept" % (nm, op), not h, f.where, "kept in " + ", ".join(h[:4]))
            ck.count("setters")
    ck.each(KINDS, one)


def derived(a, lst, reg, phase):
    """the mutated object is the caller's list or one of its elements (not a list made by the call from its values)"""
    return any(not (x.op == "new" and H.LABELS[x.a[0]]["phase"] == phase) for x in reg.leaves(a))
