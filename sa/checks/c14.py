"""A seed determines the realisation: every source of variation of the simulation classes is the seeded random stream."""
from .common import *
from .runners import Trace, SEED, TH, ENS, SPR

STREAM = ("random.random", "random.uniform", "random.randint", "random.randrange", "random.choice", "random.choices", "random.shuffle",
          "random.sample", "random.getrandbits", "random.betavariate", "random.gauss", "random.triangular", "random.expovariate")


def sources(ck, name, events, where):
    """no event of the analysed operation brings in variation from outside the stream"""
    bad = [e for e in events if e.kind in ("ambient", "newrng") or e.kind == "rng" and e.a[0] not in STREAM]
    ck.ob("%s: all randomness comes from the one stream" % name, not bad, bad[0].where if bad else where,
          "; ".join("%s %s" % (e.kind, e.a[0]) for e in bad[:5]))
    it = [e for e in events if e.kind == "setiter" and elem_ty(aslist(e.a[0])) not in ("int", "bool", "float")]
    ck.ob("%s: no iteration in hash order of strings or objects" % name, not it, it[0].where if it else where,
          "; ".join("set of %s" % (elem_ty(aslist(e.a[0])),) for e in it[:5]))
    g = [e for e in events if e.kind == "gwrite"]
    ck.ob("%s: nothing shared between objects is written" % name, not g, g[0].where if g else where,
          "; ".join("%s.%s" % (sh(e.a[0], 40), e.a[1]) for e in g[:5]))


def run(ck):
    ck.rule("source/effect analysis: seeding events of construction and of every operation, their argument and guard; every draw is from the "
            "module-level stream; no clock, process id, object identity, foreign generator, shared class state or hash order is read")
    def one(kind):
        reg = ck.regime(kind, ops=True)
        nm = reg.K.name
        w = reg.K.find("__init__").where if reg.K.find("__init__") else ""
        ev = reg.ctor_events
        seeds = [e for e in ev if e.kind == "seed"]
        draws = [e for e in ev if e.kind in ("rng", "newrng")]
        sd = sym("seed", "int")
        ck.ob("%s(length, seed): the stream is seeded" % nm, any(e.guard is TRUE and not e.loops for e in seeds), w,
              "unconditional seeding events: %s" % [sh(e.guard) for e in seeds])
        ck.ob("%s(length, seed): seeded with exactly the given value" % nm, all(len(e.a) == 1 and e.a[0] is sd for e in seeds), seeds[0].where if seeds else w,
              "seeded with %s" % [[sh(x) for x in e.a] for e in seeds])
        first = min([e.seq for e in draws], default=None)
        late = [e for e in seeds if first is not None and e.seq > first]
        ck.ob("%s(length, seed): seeding precedes every draw" % nm, not late and (not draws or bool(seeds)), late[0].where if late else w,
              "drawn before seeding at %s" % (draws[0].where if draws else ""))
        sources(ck, "%s()" % nm, ev, w)
        # without a seed
        next_phase()
        ip = reg.interp()
        st = St()
        n0 = len(ip.events)
        ip.instantiate(reg.K, [], {"length": L}, fresh_node(), st)
        s2 = [e for e in ip.events if e.kind == "seed"]
        ck.ob("%s(length): never seeds without a seed" % nm, not s2, s2[0].where if s2 else w, "%s" % [sh(e.guard) for e in s2])
        sources(ck, "%s() without seed" % nm, ip.events[n0:], w)
        for op, r in sorted(reg.results.items()):
            f = reg.K.find(op.split("/")[0])
            s3 = [e for e in r.events if e.kind == "seed"]
            ck.ob("%s.%s: never reseeds" % (nm, op), not s3, s3[0].where if s3 else f.where, "seed(%s)" % [[sh(x) for x in e.a] for e in s3])
            sources(ck, "%s.%s" % (nm, op), r.events, f.where)
            ck.count("operations")
    ck.each(("S", "L0", "L1", "L2", "SP"), one)
    for mod, name in ((ENS, "run_ensemble_entropy_order_threads_v2"), (SPR, "ensemble_shortest_path_v2_thread")):
        for given in (SEED, None):
            runner(ck, mod, name, given)
    # code run by importing the simulation modules
    for m in ck.prog.modules_under("source_py.simulation"):
        bad = module_calls(m)
        ck.ob("%s: importing it neither draws, seeds nor replaces the stream" % m.rel, not bad, bad[0][0] if bad else m.rel, "; ".join(x for _, x in bad))


def runner(ck, mod, name, given):
    """an ensemble runner creates the object it runs with the seed it was given"""
    T_ = Trace(ck, mod, name, thread_count=TH, **({"seed": given} if given is not None else {}))
    lab = "%s(%s)" % (name, "seed" if given is not None else "")
    for o in T_.live():
        e = T_.objs[o]
        got = dict(e.a[3]).get("seed") or (e.a[2][1] if len(e.a[2]) > 1 else NONE)
        ck.ob("%s: the simulation object is created with %s" % (lab, "that seed" if given is not None else "no seed"), got is (given if given is not None else NONE), e.where,
              "its seed is %s" % sh(got))
    own = [e for e in T_.events if e.kind in ("seed", "rng", "newrng") and e.guard is not FALSE]
    ck.ob("%s: the runner itself neither seeds nor draws" % lab, not own, own[0].where if own else T_.where, "; ".join("%s at %s" % (e.kind, e.where) for e in own[:4]))


def module_calls(m):
    out = []

    def go(n):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef)):
            return
        if isinstance(n, ast.If) and "__name__" in ast.unparse(n.test):
            return
        if isinstance(n, ast.Call):
            t = ast.unparse(n.func)
            if t.split(".")[0] in ("random", "secrets", "uuid") or "random" in t.split("."):
                out.append(("%s:%d" % (m.rel, n.lineno), t))
        for c in ast.iter_child_nodes(n):
            go(c)
    go(m.tree)
    return out
