"""Obligation bookkeeping, verdicts and evidence for one property."""
import ast
import json
import os
import pickle
import signal
import sys
import time
import traceback
from . import terms
from .loader import Program, Unsupported, Missing

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("SA_EVID") or os.path.join(VERIF, "evidence")


def repo_root():
    return os.environ.get("SA_REPO", "/repo")


class Check:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.obs = []
        self.funcs = set()
        self.rules = []
        self.notes = []
        self.counts = {}
        self.prog = Program(repo_root())
        self._regs = {}
        self.t0 = time.time()

    # ------------------------------------------------------------------ obligations
    def ob(self, name, ok, where="", detail=""):
        """record one obligation; ok is the decision of the analysis"""
        self.obs.append(dict(obligation=name, ok=bool(ok), where=str(where), detail="" if ok else str(detail)[:1500]))
        return bool(ok)

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def seen(self, ip_or_funcs):
        fs = getattr(ip_or_funcs, "funcs_seen", ip_or_funcs)
        self.funcs |= set(fs)

    def regime(self, kind, ops=False):
        """symbolic object of one class; with ops the state space between operations is computed too"""
        from .model import Regime
        k = (kind, ops)
        if k not in self._regs:
            for r in self._regs.values():
                r.close()
            self._regs.clear()
            self._regs[k] = Regime(self.prog, kind, ops=ops)
        return self._regs[k]

    # ------------------------------------------------------------------ one object class per process
    def each(self, items, fn):
        """fn(item) for every item, each in its own process; an item that cannot be decided does not hide what the others show"""
        late = None
        if os.environ.get("SA_SEQ"):
            for x in items:
                terms.restart_budget()
                try:
                    fn(x)
                except (terms.Budget, RecursionError, MemoryError) as e:
                    self.over(x, e)
                except (Unsupported, Missing) as e:
                    late = late or e
            if late:
                raise late
            return
        jobs = []
        for x in items:
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                err = None
                del self.obs[:]
                self.counts = {}
                terms.restart_budget()
                try:
                    signal.signal(signal.SIGALRM, lambda *a: terms.over_budget())      # the forked thread is the main one here
                    signal.alarm(terms.TIME_LIMIT + 30)
                    fn(x)
                    signal.alarm(0)
                except (terms.Budget, RecursionError, MemoryError) as e:
                    self.over(x, e)
                except (Unsupported, Missing) as e:
                    err = (type(e).__name__, str(e))
                except BaseException:
                    err = ("internal", traceback.format_exc())
                try:
                    if os.environ.get("SA_TERMS"):
                        import resource
                        print("TERMS", self.pid, x, len(terms._TAB), resource.getrusage(resource.RUSAGE_SELF).ru_maxrss // 1024, file=sys.stderr, flush=True)
                    for g in self._regs.values():
                        self.seen(g.funcs)
                    data = pickle.dumps((self.obs, [self.fname(f) for f in self.funcs], self.rules, self.notes, self.counts, err))
                    with os.fdopen(w, "wb") as f:
                        f.write(data)
                finally:
                    os._exit(0)
            os.close(w)
            jobs.append((pid, r, x))
        for pid, r, x in jobs:
            with os.fdopen(r, "rb") as f:
                data = f.read()
            os.waitpid(pid, 0)
            if not data:
                late = late or ("internal", "the analysis of %s died" % x)
                continue
            obs, funcs, rules, notes, counts, err = pickle.loads(data)
            self.obs += obs
            self.funcs |= set(funcs)
            for t in rules:
                self.rule(t)
            self.notes += [n for n in notes if n not in self.notes]
            for k, n in counts.items():
                self.count(k, n)
            late = late or err
        if isinstance(late, tuple):
            if late[0] == "Missing":
                raise Missing(late[1])
            if late[0] == "internal":
                raise RuntimeError(late[1])
            raise Unsupported(late[1], None, "")

    def over(self, x, e):
        """the values of the code analysed do not reach a normal form: nothing was shown for this class"""
        self.ob("[%s] the values the operations compute reach a normal form" % x, False, "", "%s: %s" % (type(e).__name__, e))

    @staticmethod
    def fname(f):
        return f.qual + " (" + f.where.split(":")[0] + ")" if hasattr(f, "where") else str(f)

    # ------------------------------------------------------------------ verdict
    def finish(self, level="other"):
        for r in self._regs.values():
            self.seen(r.funcs)
        bad = [o for o in self.obs if not o["ok"]]
        known = load_known(self.pid)
        new, old = [], []
        for o in bad:
            k = next((k for k in known if k["site"] == o["obligation"]), None)
            (old if k else new).append(o)
        fs = sorted({self.fname(f) for f in self.funcs})
        cov = dict(explanation="abstract interpretation of the current source into global value numbers; each obligation below is "
                               "decided by comparing normal forms / recorded effects, nothing of the program is executed",
                   rules=self.rules, obligations=len(self.obs), discharged=len(self.obs) - len(bad),
                   functions_analysed=len(fs), functions=fs, samples=[o["obligation"] for o in self.obs][:60], **self.counts)
        if self.notes:
            cov["notes"] = self.notes
        if not self.obs:
            raise Unsupported("no obligation was generated", None, self.pid)
        ev = dict(property=self.pid, tier=self.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=level, coverage=cov,
                  wall_s=round(time.time() - self.t0, 3))
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %d obligations, %d discharged, %d functions, %.1fs" % (self.pid, len(self.obs), len(self.obs) - len(bad), len(fs), time.time() - self.t0))
        for o in old:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, o["obligation"]))
        if new:
            path = os.path.join(EVID, self.pid + ".violation.json")
            with open(path, "w") as f:
                json.dump(new, f, indent=1)
            for o in new[:12]:
                print("  %s at %s: %s" % (o["obligation"], o["where"] or "?", o["detail"][:700]))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        return 0


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("known", []) if k["property"] == pid]


def where(ev):
    return ev.where() if hasattr(ev, "where") and callable(ev.where) else str(ev)
