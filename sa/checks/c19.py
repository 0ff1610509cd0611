"""Ensemble runners: number of realisations, one reset and one contribution each, divisor and header."""
from .runners import *

RUNNERS = [(ENS, "run_ensemble_entropy_order", {}), (ENS, "run_ensemble_entropy_order_threads", {"thread_count": TH}),
           (ENS, "run_ensemble_entropy_order_threads_v2", {"thread_count": TH}), (ENS, "run_ensemble_entropy_order_threads_v2", {"thread_count": TH, "seed": SEED}),
           (SPR, "ensemble_shortest_path_v2_thread", {"thread_count": TH}), (SPR, "ensemble_shortest_path_v2_thread", {"thread_count": TH, "seed": SEED})]


def title(name, kw):
    return name + ("(seeded)" if "seed" in kw else "")


def run(ck):
    ck.rule("with an opaque simulation class: one unguarded reset, then one unguarded run_once, in one loop of exactly the requested trip count; nothing else "
            "drives the object; every stored value is a result read after that iteration's run")
    ck.rule("averaged data normal form is (sum over the requested number of realisations of that realisation's data) / that number; per-realisation tables are "
            "one row per realisation; header ensemble sizes equal the requested number")
    for mod, name, kw in RUNNERS:
        T_ = Trace(ck, mod, name, **kw)
        nm = title(name, kw)
        ok = realisations(ck, T_, nm, EN)
        ws = T_.writes()
        ck.ob("%s writes its results" % nm, bool(ws), T_.where, "no file write found")
        for w in ws:
            stored(ck, T_, nm, w, EN)
    # the runner that only prints
    c = ck.prog.get_class(SIM + "percolation_sq_lattice_shortest_path", "ShortestPathAfter_pc")
    T_ = Trace(ck, SPR, "ensemble_shortest_path_v1", cls=[c])
    realisations(ck, T_, "ensemble_shortest_path_v1", EN)
    T_ = Trace(ck, RSBD, "single_realization")
    realisations(ck, T_, "single_realization", ONE)
    for w in T_.writes():
        fresh_values(ck, T_, "single_realization", w)
    T_ = Trace(ck, SPR, "run_shortest_path", cls=[c])
    realisations(ck, T_, "run_shortest_path", ONE, reset=False)


def realisations(ck, T_, nm, count, reset=True):
    live = T_.live()
    if not ck.ob("%s: all realisations run on one object" % nm, len(live) == 1, T_.where, "run_once called on %d objects" % len(live)):
        return False
    o = live[0]
    inst = T_.objs[o]
    ln = dict(inst.a[3]).get("length") or (inst.a[2][0] if inst.a[2] else None)
    if nm not in ("run_shortest_path",):
        ck.ob("%s: the object has the requested length" % nm, ln is LL, inst.where, "length is %s" % sh(ln))
    runs, resets = T_.calls(o, "run_once"), T_.calls(o, "reset")
    cnt = trip(runs)
    ck.ob("%s: run_once is called exactly %s times" % (nm, "once" if count is ONE else "En"), cnt is count, runs[0].where, "it is called %s times" % sh(cnt))
    ck.ob("%s: run_once is called without arguments" % nm, all(not e.a[2] and not e.a[3] for e in runs), runs[0].where, "arguments are passed")
    body = runs[0].loops
    if reset:
        good = len(resets) == 1 and len(runs) == 1 and resets[0].guard is TRUE and loops_of(resets[0]) == loops_of(runs[0]) and resets[0].pos < runs[0].pos
        ck.ob("%s: each run is preceded by its own reset" % nm, good, (resets or runs)[0].where, "resets: %s; runs: %s" % (brief(resets), brief(runs)))
    other = [e for e in T_.calls(o) if e.a[1] not in ("run_once", "reset") and not is_reader(e.a[1])]
    ck.ob("%s: nothing else drives the simulation object" % nm, not other, (other or runs)[0].where, "calls %s" % ", ".join(e.a[1] for e in other))
    stray = [e for e in T_.calls() if e.a[0] is not o]
    ck.ob("%s: results come from the object that was run" % nm, not stray, (stray or runs)[0].where, "calls on another object: %s" % brief(stray))
    early = [e for e in T_.calls(o) if e.a[1].startswith("get_") and e.a[1] not in ("get_signature",) and e.pos < runs[0].pos]
    ck.ob("%s: results are read after the run" % nm, not early, (early or runs)[0].where, "read before run_once: %s" % brief(early))
    chg = [e for e in T_.events if (e.kind in ("mut", "write", "del") and rooted(e.a[0], o)) or (e.kind == "mcall" and e.a[0] is not o and rooted(e.a[0], o)
           and e.a[1] not in ("tolist", "copy", "sum", "mean", "astype", "reshape", "min", "max", "transpose"))]
    ck.ob("%s: neither the object nor its results are modified" % nm, not chg, (chg or runs)[0].where, "%s" % "; ".join("%s %s at %s" % (e.kind, e.a[1], e.where) for e in chg))
    return True


def rooted(t, o):
    """t is the object or (part of) a result obtained from it"""
    while isinstance(t, T):
        if t is o:
            return True
        if t.op not in ("res", "get", "attr", "elem"):
            return False
        t = t.a[0]
    return False


def is_reader(m):
    return m.startswith(("get_", "view", "print", "list_", "test_", "entropy", "order_param", "occupation_prob", "is_"))


def loops_of(e):
    return tuple((i, n) for i, n, k in e.loops)


def brief(evs):
    return "; ".join("%s at %s%s" % (e.a[1], e.where, "" if e.guard is TRUE else " if %s" % sh(e.guard, 80)) for e in evs)


def trip(evs):
    """number of executions of a set of call sites, as a term"""
    tot = ZERO
    for e in evs:
        if e.guard is not TRUE:
            return None
        n = ONE
        for i, k, _ in e.loops:
            n = mul(n, k)
        tot = add(tot, n)
    return tot


def from_run(T_, v, i, inside=True):
    """v is the result of a getter called on the object in the realisation with loop index i (or after the run)"""
    if v.op != "res":
        return None
    for e in T_.calls(T_.live()[0]):
        r = e.a[4]
        if r is v:
            return e
        if e.loops and i is not None and subst(r, {e.loops[-1][0]: i}) is v:
            return e
    return None


def stored(ck, T_, nm, w, count):
    lab = "%s, %s" % (nm, file_kind(w.name))
    hd = json_dict(w.header)
    ck.ob("%s: header is a JSON object" % lab, hd is not None, w.where, "header is %s" % sh(w.header))
    if hd is not None:
        for k in ("ensemble_size", "En"):
            if k in hd:
                ck.ob("%s: header %s is the number of realisations" % (lab, k), hd[k] is count, w.where, "it is %s" % sh(hd[k]))
        ck.ob("%s: header gives the ensemble size" % lab, any(k in hd for k in ("ensemble_size", "En")), w.where, "keys %s" % sorted(map(str, hd)))
    ck.ob("%s: written once, after all realisations" % lab, w.ev.guard is TRUE and not w.ev.loops, w.where, "guard %s, loops %d" % (sh(w.ev.guard), len(w.ev.loops)))
    run = T_.calls(T_.live()[0], "run_once")[0]
    m = mean_form(w.data)
    if m is not None:
        n, i, e, d = m
        ck.ob("%s: the sum has one term per realisation" % lab, n is count, w.where, "sum over %s" % sh(n))
        ck.ob("%s: the sum is divided by the number of realisations" % lab, d is count, w.where, "divided by %s" % sh(d))
        g = from_run(T_, e, i)
        ck.ob("%s: each term is that realisation's data" % lab, g is not None and g.a[1] == "get_data_array" and not g.a[2] and g.pos > run.pos and loops_of(g) == loops_of(run)
              and g.guard is TRUE, w.where, "term is %s" % sh(e, 300))
        return
    rows = rows_of(w.data)
    if rows is not None:
        n, i, cols = rows
        ck.ob("%s: one row per realisation" % lab, n is count, w.where, "%s rows" % sh(n))
        for k, v in enumerate(cols):
            g = from_run(T_, v, i)
            ck.ob("%s: column %d is read after that realisation's run" % (lab, k), g is not None and g.pos > run.pos and loops_of(g) == loops_of(run) and g.guard is TRUE,
                  w.where, "value is %s" % sh(v, 300))
        return
    ck.ob("%s: the stored table is an average or one row per realisation" % lab, False, w.where, "table is %s" % sh(w.data, 500))


def fresh_values(ck, T_, nm, w):
    hd = json_dict(w.header)
    if not ck.ob("%s: the file is a JSON object" % nm, hd is not None, w.where, "written text is %s" % sh(w.header)):
        return
    run = T_.calls(T_.live()[0], "run_once")[0]
    for k, v in hd.items():
        if v.op == "res" and v.a[0] is T_.live()[0]:
            g = from_run(T_, v, None)
            ck.ob("%s: %s is read after the run" % (nm, k), g is not None and g.pos > run.pos, w.where, "value is %s" % sh(v))


def file_kind(t):
    if t is None:
        return "?"
    if t.op == "c":
        return str(t.a[0])
    cs = [x.a[0] for x in t.a if isinstance(x, T) and x.op == "c" and isinstance(x.a[0], str)] if t.op == "strcat" else []
    cs = [c for c in cs if len(c) > 4 and "data" not in c[:7]] or cs
    return (max(cs, key=len).strip("_") + " file") if cs else "file"
