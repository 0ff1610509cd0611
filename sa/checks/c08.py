"""Largest cluster: recorded size, recorded cluster and order parameter through one placement; frame."""
from .bookkeeping import *
from .c05 import watched, touched

GET = ("largest_cluster", "order_param_largest_clstr")


def run(ck):
    ck.rule("a successful placement replaces the recorded largest size m by max(m, size of the survivor) and the recorded cluster by the survivor when "
            "that is larger (keeping it when smaller); m is zero initially and after a reset; order parameter = m/2N; nothing else touches them")
    def one(k):
        S = Step(ck, k)
        general(ck, S)
        with S:
            step(ck, S)
    ck.each(KINDS, one)


def recorded(reg, st):
    P = Probe(reg, st)
    try:
        return P.attr(reg.me, "largest_cluster_id")
    except Missing:
        return None


def general(ck, S):
    reg, nm = S.reg, S.nm
    for lab, st, w in (("a new object", reg.ctor, reg.K.find("__init__").where), ("a reset", reg.results["reset"].post, reg.K.find("reset").where)):
        for g in GET:
            v = Probe(reg, st).call(reg.me, g)
            ck.ob("%s.%s is zero after %s" % (nm, g, lab), v is ZERO, w, "it is %s" % sh(v))
    P = Probe(reg, reg.state())
    m, o = (P.call(reg.me, g) for g in GET)
    ck.ob("%s: the order parameter is the recorded size divided by the number of bonds" % nm, o is TM.tdiv(m, B2), reg.K.find(GET[1]).where,
          "size %s, order parameter %s" % (sh(m), sh(o)))
    cells = watched(reg, lambda P: P.call(reg.me, GET[0])) | watched(reg, lambda P: P.call(reg.me, GET[1]))
    for op, r in sorted(reg.results.items()):
        if op in ("reset", "place_one_site"):
            continue
        f = reg.K.find(op.split("/")[0])
        if op in ("run_once", "test_run_once"):
            bad = touched(reg, r, cells)
            ck.ob("%s.%s itself does not touch the recorded largest size" % (nm, op), not bad, f.where, "; ".join(bad))
            continue
        for g in GET:
            a, b = Probe(reg, r.pre).call(reg.me, g), Probe(reg, r.post).call(reg.me, g)
            ck.ob("%s.%s leaves %s alone" % (nm, op, g), a is b, f.where, "it becomes %s" % sh(b, 300))
        a, b = recorded(reg, r.pre), recorded(reg, r.post)
        ck.ob("%s.%s leaves the recorded largest cluster alone" % (nm, op), a is b, f.where, "it becomes %s" % sh(b, 300))


def step(ck, S):
    reg, nm, w, R = S.reg, S.nm, S.w, S.root
    size = length(S.post.bonds(R))
    m, m2 = (Probe(reg, st).call(reg.me, GET[0]) for st in (S.r.pre, S.r.post))
    more, less = le(add(m, ONE), size), le(add(size, ONE), m)
    cases = [((more,), size, R), ((less,), m, None), ((eq(m, size),), m, None)]
    bad = []
    for c, want, _ in cases:
        v = TM.assume(m2, c)
        if v is not want and not implied(list(c), eq(v, want)) and not (want is m and implied(list(c), eq(v, size)) and c[0] is eq(m, size)):
            bad.append("where %s: %s" % (sh(c[0], 200), sh(v, 400)))
    ok = m2 is TM.minmax("max", [m, size])
    ck.ob("%s: the recorded largest size becomes the larger of its old value and the size of the cluster just formed" % nm, ok or not bad, w, "; ".join(bad))
    i, i2 = recorded(reg, S.r.pre), recorded(reg, S.r.post)
    if i is None:
        ck.notes.append("%s: the recorded largest cluster has no attribute largest_cluster_id; only its size is decided" % nm)
    else:
        bad = []
        for c, allowed in (((more,), (R,)), ((less,), (i,)), ((eq(m, size),), (i, R))):
            v = TM.assume(i2, c)
            if not any(v is a or v is TM.assume(a, c) for a in allowed):
                bad.append("where %s: %s" % (sh(c[0], 200), sh(v, 400)))
        ck.ob("%s: the recorded largest cluster has the recorded size" % nm, not bad, w, "; ".join(bad))
    ck.count("placement steps", 1)
