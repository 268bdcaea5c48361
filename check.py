#!/usr/bin/env python3-vt
"""Decides one property: check.py <id> [quick|thorough].
1. proof:   contracts on the functions extracted from /repo's current sources, every obligation to the solver
2. replay:  the real code is compiled and run on the solver's counterexamples and on a bounded search with an
            independent oracle (labelled bounded; gives the failing input, and stands in where a function left
            the verifier's reach)
Exit 0: held.  Exit 1 + VIOLATION line: broken.  Exit 2: no answer."""
import sys, os, json, time, subprocess, re, importlib, resource, hashlib, shutil, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from registry import REG
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
TAG = os.environ.get("VERIF_TAG", "")     # development only: keeps runs on scratch copies apart

def literals(files):
    """string and integer literals of the current sources guide the search"""
    out, seen = [], set()
    for f in files:
        try: t = open(os.path.join(REPO, f), encoding="latin-1").read()
        except OSError: continue
        t = re.sub(r"/\*.*?\*/", "", t, flags=re.S)
        for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', t):
            try: s = bytes(m.group(1), "latin-1").decode("unicode_escape").encode("latin-1", "replace")
            except Exception: s = m.group(1).encode("latin-1")
            if len(s) <= 64 and s not in seen: seen.add(s); out.append("s " + s.hex())
        for m in re.finditer(r"(?<![\w.\"])(0[xX][0-9a-fA-F']+|\d[\d']*)[uUlLzZ]*(?![\w.\"])", t):
            try: n = int(m.group(1).replace("'", ""), 0)
            except ValueError: continue
            if n not in seen and n < 1 << 63: seen.add(n); out.append("n %d" % n)
        for m in re.finditer(r"'(\\?.)'", t):
            try: s = bytes(m.group(1), "latin-1").decode("unicode_escape").encode("latin-1")
            except Exception: continue
            if s not in seen: seen.add(s); out.append("s " + s.hex())
    return out[:600]

def known_findings(pid):
    r = {}
    try:
        for l in open(os.path.join(HERE, "known_findings.txt")):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == pid: r[m.group(2)] = m.group(3).strip()
    except OSError: pass
    return r

def prove(pid, tier, outp):
    """runs in a subprocess: contracts of one property"""
    resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30))
    sys.setrecursionlimit(20000)
    from engine.prove import Verifier
    from engine.unit import ExtractError
    c = REG[pid]
    res = dict(ok=False)
    t0 = time.time()
    try:
        mod = importlib.import_module("specs." + c["spec"])
        prog = mod.load()
        v = Verifier(prog, timeout=4000 if tier == "quick" else 15000)
        v.tier = tier
        class OutOfTime(BaseException): pass
        def stop(*a): raise OutOfTime()
        signal.signal(signal.SIGALRM, stop)
        signal.alarm(360 if tier == "quick" else 1400)
        try: getattr(mod, "run_" + pid)(v)
        except OutOfTime: v.rep.unsupported.append(dict(contract="(time)", why="the proof run reached its time limit; obligations not reached are undecided"))
        except ExtractError as e: v.rep.unsupported.append(dict(contract="(extraction)", why=str(e)[:500]))
        signal.alarm(0)
        p, f, u = v.totals()
        res = dict(ok=True, proved=p, failed=f, unknown=u, oblig={k: list(x) for k, x in v.rep.oblig.items()}, failures=v.rep.failures, unsupported=v.rep.unsupported,
                   functions=v.functions, lemmas=v.lemmas, models=sorted(v.rep.models), contracts_used=sorted(v.rep.contracts_used), lossy=sorted(v.rep.lossy),
                   assumed=sorted(map(str, v.rep.assumed)), inlined=sorted(v.rep.inlined), solver_s=round(v.rep.solver_s, 2), queries=v.rep.queries, paths=v.rep.paths)
    except ExtractError as e:
        res["error"] = "extraction: " + str(e)[:2000]
    except Exception as e:
        import traceback
        res["error"] = "engine: " + traceback.format_exc()[-2000:]
    res["seconds"] = round(time.time() - t0, 2)
    with open(outp, "w") as f: json.dump(res, f, default=str)

def run_limited(cmd, timeout, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True, **kw)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        o, e = p.communicate()
        return None, o, e

def all_sources():
    out = []
    for d, ds, fs in os.walk(os.path.join(REPO, "src")):
        out += [os.path.relpath(os.path.join(d, f), REPO) for f in fs if f.endswith(".cpp")]
    return sorted(out)

def harness(pid, tier, seed, hints, work):
    """compiles the real sources with the oracle and runs the bounded search; list of results"""
    c = REG[pid]
    out = []
    hf = os.path.join(work, "hints.txt")
    with open(hf, "w") as f: f.write("\n".join(hints) + "\n")
    for name in c.get("harness", []):
        exe = os.path.join(work, "h_" + os.path.basename(name))
        r = dict(name=name, built=False)
        out.append(r)
        t = time.time()
        if name.endswith(".py"):
            r["built"] = True
            cmd = ["python3-vt", os.path.join(HERE, "harness", name), tier, str(seed), hf]
        else:
            inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(HERE, "harness")]
            if c.get("standin"):
                from engine.unit import gen_dir
                try: inc += ["-I" + os.path.join(HERE, "standin", "include"), "-I" + os.path.join(gen_dir(), "include")]
                except Exception as x: r["error"] = str(x)[-1500:]; continue
            named = c.get("sources", [])
            if named == "ALL": named = all_sources() + c.get("more_sources", [])
            srcs = [os.path.join(HERE, "harness", name)] + [s if s.startswith("/") else os.path.join(REPO, s) for s in named]
            srcs.sort(key=lambda s: -os.path.getsize(s) if os.path.exists(s) else 0)
            flags = ["-std=c++20", "-O1", "-w", "-g0", "-fsanitize=undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=vptr"]
            if c.get("flags"): flags = c["flags"]
            from concurrent.futures import ThreadPoolExecutor
            objs = ["%s.%d.o" % (exe, i) for i in range(len(srcs))]
            with ThreadPoolExecutor(8) as pool:
                rs = list(pool.map(lambda so: run_limited(["g++", *flags, *inc, "-c", so[0], "-o", so[1]], 400), zip(srcs, objs)))
            errs = [(e or "timeout")[-1500:] for rc, o, e in rs if rc != 0]
            if errs: r["error"] = "\n".join(errs); continue
            rc, o, e = run_limited(["g++", *flags, *objs, "-o", exe, "-lfmt"], 200)
            if rc != 0: r["error"] = "link: " + (e or "")[-1500:]; continue
            r["built"] = True
            cmd = [exe, tier, str(seed), hf]
        r["build_s"] = round(time.time() - t, 1)
        t = time.time()
        rc, o, e = run_limited(cmd, 240 if tier == "quick" else 600)
        r["run_s"] = round(time.time() - t, 1)
        r["rc"] = rc
        r["known"] = re.findall(r"^KNOWN: (\S+)", o, re.M)
        m = re.search(r"^CASES: (\d+)", o, re.M)
        r["cases"] = int(m.group(1)) if m else 0
        fm = re.search(r"^FAIL: (.*)", o, re.M)
        if fm:
            im = re.search(r"^INPUT: (.*)", o, re.M)
            r["fail"] = fm.group(1)[:3000]; r["input"] = im.group(1)[:6000] if im else ""
            r["stderr"] = e[-1500:]
        elif rc != 0:
            if "runtime error:" in e:
                r["fail"] = "undefined behaviour: " + e[e.index("runtime error:"):][:400]
                r["input"] = "(see " + name + ")"
            else: r["error"] = "harness ended with %s: %s %s" % (rc, o[-500:], e[-800:])
    return out

def main():
    if len(sys.argv) >= 4 and sys.argv[1] == "--prove":
        return prove(sys.argv[2], sys.argv[3], sys.argv[4])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = REG[pid]
    t0 = time.time()
    work = os.path.join(BUILD, "work", pid + TAG)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    setup = os.path.join(HERE, "setup.sh")
    r = subprocess.run(["bash", setup, "--ensure"], capture_output=True, text=True)
    pr = dict(ok=False, error="setup: " + r.stderr[-1500:]) if r.returncode else None
    procs = None
    if pr is None:
        pj = os.path.join(work, "proof.json")
        rc, o, e = run_limited([sys.executable, os.path.abspath(__file__), "--prove", pid, tier, pj], 420 if tier == "quick" else 1500)
        try: pr = json.load(open(pj))
        except (OSError, ValueError): pr = dict(ok=False, error="proof run ended with %s: %s" % (rc, (e or "")[-1500:]))
    hints = []
    for f in pr.get("failures", []):
        for n, x in (f.get("hints") or {}).items():
            if isinstance(x, list): hints.append("s " + bytes([int(y) & 255 for y in x]).hex())
            elif isinstance(x, str) and re.fullmatch(r"-?\d+", x): hints.append("n " + x)
        for n, x in (f.get("model") or {}).items():
            if re.fullmatch(r"-?\d{1,18}", str(x)): hints.append("n " + str(x))
    hints = list(dict.fromkeys(hints))[:200]
    hs = harness(pid, tier, seed, hints + literals(c.get("literals", c.get("sources", []))), work)
    known = known_findings(pid)
    for k in known: print("KNOWN-FINDING: property=%s %s" % (pid, known[k])) if any(k in h.get("known", []) for h in hs) else None
    failed = [h for h in hs if "fail" in h]
    strange = [k for h in hs for k in h.get("known", []) if k not in known]
    definite = [f for f in pr.get("failures", []) if f["status"] == "failed"]
    undecided = [f for f in pr.get("failures", []) if f["status"] != "failed"]
    violations = len(failed) + len(definite) + len(strange)
    proof_ok = pr.get("ok") and not definite and not undecided and not pr.get("unsupported") and pr.get("proved", 0) > 0
    harness_ok = bool(hs) and all("error" not in h for h in hs) and not failed
    # --- evidence
    n_obl = pr.get("proved", 0) + pr.get("failed", 0) + pr.get("unknown", 0) + len(pr.get("unsupported", []))
    cov = dict(obligations=n_obl, discharged=pr.get("proved", 0), checker_cmd="python3-vt /verif/check.py %s %s (VC generator /verif/engine on the clang AST of /repo; back end z3 %s, cvc5 as second opinion)" % (pid, tier, z3v()),
               trusted_base=["clang 18 front end and /verif/exporter (typed AST of the current sources)", "VC generator /verif/engine", "z3"] + ["assumed contract: " + m for m in pr.get("models", [])],
               functions_under_contract=pr.get("functions", []), obligation_table=pr.get("oblig", {}), lemmas=pr.get("lemmas", []), bodies_executed=pr.get("inlined", []), contracts_used_modularly=pr.get("contracts_used", []),
               undecided=[dict(label=f["label"], detail=f["detail"][:400]) for f in undecided], failed=[dict(label=f["label"], detail=f["detail"][:400]) for f in definite], out_of_reach=pr.get("unsupported", []), abstractions=pr.get("lossy", []),
               solver_s=pr.get("solver_s", 0), solver_queries=pr.get("queries", 0), paths=pr.get("paths", 0), proof_wall_s=pr.get("seconds", 0), proof_error=pr.get("error"),
               bounded_replay=[dict(harness=h["name"], label="bounded, not counted as proved", cases=h.get("cases", 0), run_s=h.get("run_s"), error=h.get("error", "")[:600]) for h in hs],
               proof_complete=bool(proof_ok))
    ev = dict(property=pid, tier=tier, seed=seed, level="proof", coverage=cov, assumptions=c.get("assumptions", []), violations=violations, wall_s=round(time.time() - t0, 2))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json") if not TAG else os.path.join(work, "evidence.json"), "w") as f: json.dump(ev, f, indent=1, default=str)
    # --- verdict
    replay = os.path.join(BUILD, "replay", pid + TAG + ".txt")
    os.makedirs(os.path.dirname(replay), exist_ok=True)
    if violations:
        with open(replay, "w") as f:
            f.write("property %s\n" % pid)
            for h in failed: f.write("\nFAILING INPUT on the real code (harness/%s):\n  input: %s\n  what:  %s\n  replay: python3-vt /verif/check.py %s %s\n" % (h["name"], h["input"], h["fail"], pid, tier))
            for k in strange: f.write("\nfinding not listed: %s\n" % k)
            for x in definite + undecided:
                f.write("\n%s OBLIGATION: %s\n  in: %s\n  condition: %s\n  solver model: %s\n  inputs: %s\n  path: %s\n" % ("FAILED" if x in definite else "UNDECIDED", x["label"], x.get("where"), x["detail"], x["model"], x["hints"], x["path"]))
        for h in failed: print("failing input: %s -- %s" % (h["input"][:500], h["fail"][:500]))
        for x in definite[:5]: print("failed obligation: %s -- %s" % (x["label"], str(x["detail"])[:300]))
        print("VIOLATION property=%s replay=%s%s" % (pid, replay, "" if failed or strange else " no-failing-input-found"))
        return 1
    if proof_ok:
        print("%s: %d obligations discharged for %d functions (%.1f s solver); bounded replay: %d cases, no failure" % (pid, pr["proved"], len(pr["functions"]), pr.get("solver_s", 0), sum(h.get("cases", 0) for h in hs)))
        for h in hs:
            if "error" in h: print("note: harness %s did not run: %s" % (h["name"], h["error"][:300]))
        return 0
    for x in undecided[:8]: print("undecided: %s -- %s" % (x["label"], str(x["detail"])[:200]))
    for x in pr.get("unsupported", [])[:8]: print("out of reach: %s" % x)
    if pr.get("error"): print("proof not run: %s" % pr["error"][-600:])
    if harness_ok:
        print("%s: NOT PROVED on this tree (%d of %d obligations); bounded stand-in on the real code: %d cases, no failure" % (pid, pr.get("proved", 0), n_obl, sum(h.get("cases", 0) for h in hs)))
        return 0
    for h in hs:
        if "error" in h: print("harness %s: %s" % (h["name"], h["error"][:1500]))
    print("%s: no answer" % pid)
    return 2

def z3v():
    import z3
    return z3.get_version_string()

if __name__ == "__main__":
    sys.exit(main() or 0)
