#!/usr/bin/env python3
"""combo.py REPO [CHECK ...]: many checks on one copy of the repository, the states of each simulation class computed once (development aid).

Prints one line per check: ID exit-code details.  Classes: environment KINDS (default S,L1,L2,SP); every check runs in a fork of the
process that computed the states, so checks do not influence each other."""
import warnings
warnings.simplefilter('ignore')
import gc, importlib, io, os, pickle, signal, sys, threading, time
V = os.environ.get("SA_SNAP") or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
repo = sys.argv[1]
os.environ["SA_REPO"] = repo
os.environ.setdefault("SA_EVID", "/tmp/ev_combo")
sys.path.insert(0, V)
sys.setrecursionlimit(100000)
threading.stack_size(1 << 29)
gc.set_threshold(200000, 50, 1000)
from sa import terms
from sa.check import Check, Unsupported, Missing
LIMIT = int(os.environ.get("LIMIT", "500"))
PLAIN = ["C27", "C28", "C02", "C01", "C19", "C20", "C21", "C22", "C23"]
SIM = ["C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18"]
want = [a.upper() for a in sys.argv[2:]] or PLAIN + SIM
KINDS = os.environ.get("KINDS", "S,L1,L2,SP").split(",")
STOP = os.environ.get("STOP")        # stop at the first report


class One(Check):
    def __init__(self, pid, kind, regs, prog):
        self.pid, self.tier, self.obs, self.funcs, self.rules, self.notes, self.counts = pid, "quick", [], set(), [], [], {}
        self.prog, self._regs, self.t0, self.kind = prog, dict(regs), time.time(), kind

    def each(self, items, fn):
        if self.kind is None or self.kind in items:
            for x in ([self.kind] if self.kind else items):
                fn(x)


def child(pid, kind, regs, prog):
    """(exit code, text) of one check in a fork"""
    r, w = os.pipe()
    p = os.fork()
    if p == 0:
        os.close(r)
        sys.stdout = io.StringIO()
        out = (2, "?")
        terms.restart_budget()
        ck = One(pid, kind, regs, prog)
        try:
            signal.signal(signal.SIGALRM, lambda *a: terms.over_budget())
            signal.alarm(LIMIT)
            importlib.import_module("sa.checks." + pid.lower()).run(ck)
            bad = [o for o in ck.obs if not o["ok"]]
            out = (1, "; ".join("%s: %s" % (o["obligation"], o["detail"][:150]) for o in bad[:2])) if bad else (0, "")
        except (Missing, Unsupported) as e:
            bad = [o for o in ck.obs if not o["ok"]]
            out = (1, bad[0]["obligation"] + ": " + bad[0]["detail"][:150]) if bad else (2, "%s %s" % (type(e).__name__, e))
        except (terms.Budget, RecursionError, MemoryError) as e:
            out = (1, "BUDGET %s" % e)
        except BaseException as e:
            import traceback
            out = (2, "internal %s" % traceback.format_exc()[-300:])
        with os.fdopen(w, "wb") as f:
            f.write(pickle.dumps(out))
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        d = f.read()
    os.waitpid(p, 0)
    return pickle.loads(d) if d else (2, "died")


def group(kind, checks, res):
    """in a fork of its own: the states of one class, then its checks"""
    r, w = os.pipe()
    p = os.fork()
    if p == 0:
        os.close(r)
        out = []

        def go():
            base = One("base", kind, {}, Check("base", "quick").prog)
            regs = {}
            if kind:
                try:
                    signal.signal(signal.SIGALRM, lambda *a: terms.over_budget()) if threading.current_thread() is threading.main_thread() else None
                    base.regime(kind, ops=True)
                    regs = base._regs
                except BaseException as e:
                    regs = {}
            for c in checks:
                t = time.time()
                a = child(c, kind, regs, base.prog)
                out.append((c, a[0], a[1], time.time() - t))
                if a[0] and STOP:
                    break
        t = threading.Thread(target=go)
        t.start()
        t.join()
        with os.fdopen(w, "wb") as f:
            f.write(pickle.dumps(out))
        os._exit(0)
    os.close(w)
    return p, r


def main():
    todo = [(None, [c for c in want if c in PLAIN])] + [(k, [c for c in want if c in SIM and not (c == "C15" and k not in ("L1", "L2"))]) for k in KINDS]
    tot = {}
    stop = False
    jobs = []
    if os.environ.get("PAR"):
        jobs = [group(kind, cs, tot) for kind, cs in todo if cs]
    for kind, cs in todo:
        if not cs or stop:
            continue
        p, r = jobs.pop(0) if jobs else group(kind, cs, tot)
        with os.fdopen(r, "rb") as f:
            d = f.read()
        os.waitpid(p, 0)
        for c, rc, text, dt in (pickle.loads(d) if d else [(c, 2, "group died", 0) for c in cs]):
            o = tot.setdefault(c, [0, "", 0])
            o[2] += dt
            if rc and (not o[0] or rc == 1 and o[0] == 2):
                o[0], o[1] = rc, "[%s] %s" % (kind, text)
            if rc and STOP:
                stop = True
    for c in sorted(tot):
        print(c, tot[c][0], "%.0fs" % tot[c][2], tot[c][1].replace("\n", " ")[:400], flush=True)


main()
