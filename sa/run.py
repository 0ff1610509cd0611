"""python3 -m sa.run ID [--tier quick|thorough]: decide one property from the current source of the repository"""
import gc
import importlib
import os
import sys
import threading
import traceback


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    from . import terms
    from .check import Check, Unsupported, Missing
    mod = importlib.import_module("sa.checks." + pid.lower())
    rc = [2]

    def go():
        ck = None
        try:
            ck = Check(pid, tier)
            mod.run(ck)
            rc[0] = ck.finish()
            return
        except Missing as e:
            print("UNDECIDED property=%s: expected public name not found: %s" % (pid, e))
        except Unsupported as e:
            print("UNDECIDED property=%s: construct outside the analysed language: %s" % (pid, e))
            if os.environ.get("SA_TRACE"):
                traceback.print_exc()
        except (terms.Budget, RecursionError, MemoryError) as e:
            ck.over("analysis", e)
        except Exception:
            traceback.print_exc()
            print("UNDECIDED property=%s: internal error" % pid)
        if ck is not None and any(not o["ok"] for o in ck.obs):
            ck.notes.append("the analysis stopped early; obligations decided before that are reported")
            rc[0] = ck.finish()

    gc.set_threshold(200000, 50, 1000)        # terms are interned and live as long as the run
    sys.setrecursionlimit(100000)
    threading.stack_size(1 << 29)
    t = threading.Thread(target=go)
    t.start()
    t.join(840)
    if t.is_alive():
        print("UNDECIDED property=%s: no decision within 840 s" % pid)
    sys.stdout.flush()
    os._exit(rc[0])


if __name__ == "__main__":
    main()
