#!/usr/bin/env python3
"""selftest.py [CHECK ...]: runs checks against small edits of a copy of the repository.

tools/cases/*.py define CASES = [(kind, checks, file, old, new), ...]; kind 'bug': each listed check must report a violation;
'same': the edit keeps the behaviour and every check listed (or all, for '*') must stay quiet.  A case may have a list of
(file, old, new) triples instead of the last three fields."""
import glob, importlib.util, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor, as_completed
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = sorted(os.path.basename(f)[:-3].upper() for f in glob.glob(V + "/sa/checks/c[0-9][0-9].py"))


SNAP = tempfile.mkdtemp(prefix="selfsnap_")
shutil.copytree(V + "/sa", SNAP + "/sa", ignore=shutil.ignore_patterns("__pycache__"))
shutil.copy(V + "/known_findings.json", SNAP)


def load():
    out = []
    for f in sorted(glob.glob(V + "/tools/cases/*.py")):
        sp = importlib.util.spec_from_file_location("cases", f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        for k, c in enumerate(m.CASES):
            out.append((os.path.basename(f)[:-3] + "#%d" % k,) + tuple(c))
    return out


def one(job):
    name, kind, check, edits = job
    t = tempfile.mkdtemp(prefix="self_")
    try:
        d = t + "/repo"
        shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git", "data_pytest", "__pycache__"))
        for f, old, new in edits:
            s = open(d + "/" + f).read()
            if s.count(old) < 1:
                return name, check, "BAD CASE (text not found in %s: %r)" % (f, old[:60])
            s = s.replace(old, new, 1)
            open(d + "/" + f, "w").write(s)
            try:
                compile(s, f, "exec")
            except SyntaxError as e:
                return name, check, "BAD CASE %s" % e
        env = dict(os.environ, SA_REPO=d, SA_EVID=t)
        r = subprocess.run([sys.executable, "-m", "sa.run", check], cwd=SNAP, env=env, capture_output=True, text=True)
        want = 1 if kind == "bug" else 0
        if r.returncode == want:
            return name, check, "ok"
        return name, check, "%s: exit %d: %s" % ("MISSED" if kind == "bug" else "FALSE ALARM", r.returncode, " | ".join((r.stdout + r.stderr).splitlines()[-3:])[:330])
    finally:
        shutil.rmtree(t)


def main():
    sel = [a.upper() for a in sys.argv[1:] if a.upper() in ALL]
    pat = [a for a in sys.argv[1:] if a.upper() not in ALL]
    jobs = []
    for c in load():
        name, kind, checks = c[:3]
        edits = c[3] if len(c) == 4 else [tuple(c[3:6])]
        if pat and not any(p in name for p in pat):
            continue
        for ch in (ALL if checks == "*" else checks.split()):
            if ch in ALL and (not sel or ch in sel):
                jobs.append((name, kind, ch, edits))
    bad = 0
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "7"))) as ex:
        for n, f in enumerate(as_completed([ex.submit(one, j) for j in jobs])):
            name, ch, res = f.result()
            if n % 20 == 19:
                print("... %d of %d" % (n + 1, len(jobs)), flush=True)
            if res != "ok":
                bad += 1
                print(name, ch, res, flush=True)
    print("%d runs, %d unexpected" % (len(jobs), bad))
    shutil.rmtree(SNAP)


main()
