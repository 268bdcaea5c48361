#!/usr/bin/env python3
"""Development aid: runs the checks against every planted bug in scratch copies (never /repo).  runseeds.py [-j N] [ids...]"""
import sys, os, json, subprocess, shutil, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(V + "/seeded"))
def one(i):
    d = os.path.join(V, "seeded", i); m = json.load(open(d + "/meta.json"))
    t = tempfile.mkdtemp(prefix="rs")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", t + "/r"], check=True)
        subprocess.run(["git", "apply", d + "/patch.diff"], cwd=t + "/r", check=True)
        t0 = time.time()
        p = subprocess.run(["python3-vt", V + "/check.py", m["property"], "quick"], env=dict(os.environ, VERIF_REPO=t + "/r", VERIF_TAG="." + i), capture_output=True, text=True, cwd=V)
        o = p.stdout
        kind = "MISSED"
        if p.returncode == 1: kind = "proof+input" if "failing input" in o and "failed obligation" in o else "input" if "failing input" in o else "proof only"
        elif p.returncode: kind = "ERROR %d" % p.returncode
        return i, m["property"], kind, time.time() - t0, o + p.stderr[-500:]
    finally:
        shutil.rmtree(t, ignore_errors=True)
        shutil.rmtree(V + "/build/work/" + m["property"] + "." + i, ignore_errors=True)
with ThreadPoolExecutor(4) as ex:
    for i, p, k, s, o in ex.map(one, ids):
        print("%-28s %s %-12s %5.1fs" % (i, p, k, s), flush=True)
        if "-v" in sys.argv or k.startswith(("MISSED", "ERROR")): print("    " + o.replace("\n", "\n    ")[:1500])
