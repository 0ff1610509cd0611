"""Running entropy: initial value, exact change of one placement, frame, direct evaluation."""
from .bookkeeping import *
from .c05 import watched, touched


def run(ck):
    ck.rule("the running entropy is log(2N) initially and after a reset; a successful placement changes it by +sum over the distinct labels g of the four "
            "bonds of the site of mu(g)ln mu(g) with sizes before, minus mu(R)ln mu(R) with the size of the survivor afterwards, mu = size/2N, as an "
            "identity of real-valued terms; every other operation leaves it alone; the direct evaluation is -sum of mu ln mu over all nonempty clusters")
    def one(k):
        S = Step(ck, k)
        ok = initial(ck, S)
        frame(ck, S)
        direct_sum(ck, S)
        if ok:
            with S:
                step(ck, S)
    ck.each(KINDS, one)


def log(x):
    return mk("call", "log", x, ty="float")


def part(n):
    mu = TM.tdiv(n, B2)
    return mul(mu, log(mu))


def entropy(reg, st, which="entropy"):
    return Probe(reg, st).call(reg.me, which)


def initial(ck, S):
    reg, nm = S.reg, S.nm
    ok = True
    for lab, st, w in (("a new object", reg.ctor, reg.K.find("__init__").where), ("a reset", reg.results["reset"].post, reg.K.find("reset").where)):
        v = entropy(reg, st)
        ok &= ck.ob("%s: the entropy is the logarithm of the number of bonds after %s" % (nm, lab), sub(v, log(B2)) is ZERO, w, "it is %s" % sh(v, 300))
    return ok


def frame(ck, S):
    reg, nm = S.reg, S.nm
    cells = watched(reg, lambda P: P.call(reg.me, "entropy"))
    for op, r in sorted(reg.results.items()):
        if op in ("reset", "place_one_site"):
            continue
        f = reg.K.find(op.split("/")[0])
        if op in ("run_once", "test_run_once"):
            bad = touched(reg, r, cells)
            ck.ob("%s.%s itself does not touch the running entropy" % (nm, op), not bad, f.where, "; ".join(bad))
            continue
        a, b = entropy(reg, r.pre), entropy(reg, r.post)
        ck.ob("%s.%s leaves the entropy alone" % (nm, op), a is b, f.where, "it becomes %s" % sh(b, 300))
    a, b = entropy(reg, reg.state()), entropy(reg, reg.state(), "entropy_v2")
    ck.ob("%s: entropy() is the running entropy" % nm, a is b, reg.K.find("entropy").where, "%s and %s" % (sh(a), sh(b)))


def direct_sum(ck, S):
    reg, nm = S.reg, S.nm
    f = reg.K.find("entropy_v1")
    st = reg.state()
    v = TM.scale(entropy(reg, st, "entropy_v1"), -1)
    V = View(reg, st)
    t = tmpidx(B2)
    n = length(V.bonds(t))
    full, none = part(n), eq(n, ZERO)
    want = TM.summ(B2, t, ite(none, ZERO, full))
    ck.ob("%s.entropy_v1 sums -mu ln mu over all nonempty clusters" % nm, sums_same(v, want), f.where, "it is -(%s), expected -(%s)" % (sh(v, 500), sh(want, 500)))


def sums_same(v, want):
    if sub(v, want) is ZERO:
        return True
    (c1, a), (c2, b) = scaled(v), scaled(want)
    if a is None or b is None or a.op != "sum" or b.op != "sum" or a.a[0] is not b.a[0]:
        return False
    t = tmpidx(a.a[0])
    x, y = mul(opened(a, t)[0], c1), mul(opened(b, t)[0], c2)
    if x is y:
        return True
    at = [z for z in TM.subterms(x) if z.op == "eq0"] + [z for z in TM.subterms(y) if z.op == "eq0"] + [z for z in TM.subterms(x) if z.op == "le0"]
    return bool(at) and split_same(x, y, at, 3)


def split_same(x, y, ats, depth):
    if sub(x, y) is ZERO:
        return True
    if not ats or not depth:
        return False
    for lit in (ats[0], neg_b(ats[0])):
        if not split_same(TM.assume(x, (lit,)), TM.assume(y, (lit,)), ats[1:], depth - 1):
            return False
    return True


def scaled(v):
    p = TM.to_poly(v)
    if len(p) != 1:
        return ONE, None
    (m, c), = p.items()
    rest, s = C(c), None
    for at, e in m:
        if at.op == "sum" and e == 1 and s is None:
            s = at
        else:
            rest = mul(rest, TM.powt(at, C(e)))
    return rest, s


def step(ck, S):
    reg, nm, w = S.reg, S.nm, S.w
    p, q = entropy(reg, S.r.pre), entropy(reg, S.r.post)
    n = length(S.labels)
    t = tmpidx(B2)
    before = TM.sumset(S.G, t, part(length(S.pre.bonds(t))))
    after = part(length(S.post.bonds(S.root)))
    d = sub(q, p)
    rest = sub(d, sub(before, after))
    ck.ob("%s.place_one_site changes the entropy by the parts of the joined clusters and of the survivor" % nm, rest is ZERO, w,
          "the change differs from the required one by %s" % sh(rest, 1200))
    ck.count("placement steps", 1)
