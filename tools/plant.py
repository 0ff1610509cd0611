#!/usr/bin/env python3
"""plant.py ID: confirm a planted bug in a scratch copy: applies, builds, passes the stable tests, demo 0 without / nonzero with."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def tests(d):
    x = os.path.join(d, "..", "junit.xml")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=d, PYTHONHASHSEED="0", MPLBACKEND="Agg")
    subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "--rootdir=" + d, "-p", "no:cacheprovider", "--randomly-seed=1", "--randomly-dont-reorganize",
                    "--timeout=300", "-o", "junit_family=xunit2", "--junitxml=" + x, "."], cwd=d + "/test_py", env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    import xml.etree.ElementTree as ET
    ok = set()
    for c in ET.parse(x).getroot().iter("testcase"):
        if not any(k.tag in ("failure", "error", "skipped") for k in c):
            ok.add(c.get("classname") + "::" + c.get("name"))
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    norm = lambda s: s.replace("test_py.", "")
    return sorted(norm(b) for b in base) and sorted({norm(b) for b in base} - {norm(o) for o in ok})


def demo(d, sd):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run(["bash", sd + "/demo.sh"], cwd=d, env=env, capture_output=True, text=True, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-300:]


def main(i, check=True):
    sd = os.path.join(V, "seeded", i)
    t = tempfile.mkdtemp(prefix="plant_")
    try:
        d = t + "/repo"
        shutil.copytree("/repo", d)
        out = t + "/demo"
        shutil.copytree(sd, out)
        for f in os.listdir(out):
            if f.endswith((".diff", ".patch")) or f == "meta.json":
                os.unlink(out + "/" + f)
        a, am = demo(d, out)
        subprocess.run(["git", "apply", sd + "/patch.diff"], cwd=d, check=True)
        b, bm = demo(d, out)
        miss = tests(d)
        print(i, "demo unchanged:", a, "demo patched:", b, "tests missing:", miss[:5])
        if a != 0: print("   ", am)
        if b == 0: print("   ", bm)
        ok = a == 0 and b != 0 and not miss
        if check:
            env = dict(os.environ, SA_REPO=d)
            p = json.load(open(sd + "/meta.json"))["property"]
            r = subprocess.run([sys.executable, "-m", "sa.run", p], cwd=V, env=env, capture_output=True, text=True)
            print("   check %s exit %d: %s" % (p, r.returncode, " | ".join((r.stdout + r.stderr).splitlines()[:4])[:500]))
        return ok
    finally:
        shutil.rmtree(t)


if __name__ == "__main__":
    ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
    bad = [i for i in ids if not main(i)]
    print("INVALID:", bad)
