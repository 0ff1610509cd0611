"""Line helpers: returned array terms, effects on arguments, defaults, agreement of the two crossing finders."""
from .common import *
from ..npnorm import norm
from ..interp import Interp

MOD = "source_py.analyze.lines"
W = "source_py/analyze/lines.py"


def call(ck, name, *a, **k):
    f = ck.prog.get_func(MOD, name)
    ip = Interp(ck.prog)
    st = St()
    r = ip.call_func(f, list(a), k, fresh_node(), st)
    ck.seen(ip)
    return r, ip


def np1(f, *a):
    return mk("call", "numpy." + f, *a)


def run(ck):
    ck.rule("the returned array expression, in numpy normal form, equals the specified expression; no argument is written to")
    l1, l2, col = sym("line1", "any"), sym("line2", "any"), sym("col", "int")
    ax = sym("ax", "any")

    def pick(x, c):
        return mk("get", x, tup(mk("sl", NONE, NONE, NONE), c))
    for cn, c in (("whole curves", NONE), ("column col", col), ("column 0", ZERO)):
        a, b = (l1, l2) if c is NONE else (pick(l1, c), pick(l2, c))
        want = norm(np1("argmax", absn(np1("diff", np1("sign", sub(a, b))))))
        r, ip = call(ck, "find_intersection", l1, l2, c)
        ck.ob("find_intersection(%s) is the first largest sign jump of line1-line2" % cn, norm(r) is want, W, "returns %s" % sh(norm(r), 400))
        effects(ck, "find_intersection(%s)" % cn, ip, [])
        r, ip = call(ck, "find_intersection_and_plot", l1, l2, c, ax)
        ck.ob("find_intersection_and_plot(%s) returns the same position" % cn, norm(r) is want, W, "returns %s" % sh(norm(r), 400))
        effects(ck, "find_intersection_and_plot(%s)" % cn, ip, [ax])
    x, lo, hi, n = sym("val", "float"), sym("lo", "float"), sym("hi", "float"), sym("n", "int", lo=ONE)
    for nm, order in (("draw_vertical_line_at", 1), ("draw_horizontal_line_at", 0)):
        for case, args, kw, rng, sz in (("explicit range and size", (x, tup(lo, hi), n), {}, (lo, hi), n), ("default size", (x, tup(lo, hi)), {}, (lo, hi), C(100)),
                                        ("default range and size", (x,), {}, (ZERO, ONE), C(100))):
            r, ip = call(ck, nm, *args, **kw)
            xs = tuple_items(r)
            ok = xs is not None and len(xs) == 2
            lin = norm(np1("linspace", rng[0], rng[1], sz))
            con = norm(mul(x, np1("ones", sz)))
            want = (con, lin) if order else (lin, con)
            if ok and case.startswith("default"):
                # whatever the defaults are, they have to be usable and common to both coordinates
                g = [norm(z) for z in (xs if order else reversed(xs))]
                ok = g[1].op == "call" and g[1].a[0] == "numpy.linspace" and all(z.op == "c" and z.a[0] is not None for z in g[1].a[3:])
                if ok:
                    a0, a1, n0 = g[1].a[1:4]
                    ok = g[0] is norm(mul(x, np1("ones", n0))) and n0.op == "c" and n0.a[0] > 1
                    ok = ok and (a0, a1) == rng if "range" not in case else ok and is_num(a0) and is_num(a1) and a0 is not a1
            elif ok:
                ok = all(norm(g) is w for g, w in zip(xs, want))
            ck.ob("%s with %s: constant and evenly spaced coordinates of equal size" % (nm, case), ok, W, "returns %s" % sh(norm(r), 400))
            effects(ck, "%s (%s)" % (nm, case), ip, [])


def tuple_items(r):
    return list(r.a) if r.op in ("tuple", "seq") else None


def effects(ck, name, ip, allowed):
    bad = []
    for e in ip.events:
        if e.kind in ("call", "ret"):
            continue
        if e.kind == "mcall":
            if e.a[0] in allowed or e.a[1] in ("argmax", "copy", "astype", "__abs__", "sum", "max", "ravel", "flatten"):
                continue
        if e.kind == "aug" and not is_param(e.a[0]):
            continue
        if e.kind == "ext" and str(e.a[0]).startswith("print"):
            continue
        bad.append("%s at %s" % (e.kind, e.where))
    ck.ob("%s has no effect on its arguments or elsewhere" % name, not bad, W, "; ".join(bad))


def is_param(t):
    while t.op == "get":
        t = t.a[0]
    return t.op == "sym"
