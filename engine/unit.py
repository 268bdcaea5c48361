"""Extraction: runs the clang exporter on /repo's current sources and loads the typed AST."""
import json, os, subprocess, hashlib, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
EXPORTER = os.path.join(BUILD, "exporter")
STANDIN = os.path.join(VERIF, "standin")

class ExtractError(Exception):
    pass

def ensure_exporter():
    src = os.path.join(VERIF, "exporter", "exporter.cpp")
    if not os.path.exists(EXPORTER) or os.path.getmtime(EXPORTER) < os.path.getmtime(src):
        r = subprocess.run(["bash", os.path.join(VERIF, "exporter", "build.sh"), EXPORTER], capture_output=True, text=True)
        if r.returncode:
            raise ExtractError("exporter build failed: " + r.stderr[-2000:])

_gen = {}
def gen_dir():
    """tree classes and parser stand-ins generated from the current .tree and .g4 files (keyed by their content)"""
    src = os.path.join(REPO, "src", "v3x")
    h = hashlib.sha256()
    for f in sorted(os.listdir(src)):
        if f.endswith((".tree", ".g4")): h.update(f.encode() + b"\0" + open(os.path.join(src, f), "rb").read())
    tools = [os.path.join(VERIF, "tools", t) for t in ("gen_tree.py", "gen_antlr.py")]
    for t in tools: h.update(open(t, "rb").read())
    d = os.path.join(BUILD, "gen", h.hexdigest()[:16])
    if d in _gen: return d
    if not os.path.exists(os.path.join(d, "done")):
        tmp = "%s.%d" % (d, os.getpid())
        for t in tools:
            r = subprocess.run([sys.executable, t, src, os.path.join(tmp, "include")], capture_output=True, text=True)
            if r.returncode: raise ExtractError("stand-in generation failed: " + r.stderr[-1500:])
        open(os.path.join(tmp, "done"), "w").close()
        try: os.rename(tmp, d)
        except OSError:
            import shutil; shutil.rmtree(tmp, ignore_errors=True)
    _gen[d] = 1
    return d

def flags(standin):
    f = ["-std=c++20", "-I" + os.path.join(REPO, "include"), "-Wno-everything"]
    if standin:
        f += ["-I" + os.path.join(STANDIN, "include"), "-I" + os.path.join(gen_dir(), "include")]
    return f

def export(cpp, standin=False, tag=None, extra_roots=()):
    ensure_exporter()
    os.makedirs(os.path.join(BUILD, "ast"), exist_ok=True)
    out = os.path.join(BUILD, "ast", "%s.%d.json" % (tag or os.path.basename(cpp), os.getpid()))
    roots = [os.path.join(REPO, "src"), os.path.join(REPO, "include")] + list(extra_roots)
    r = subprocess.run([EXPORTER, out, ",".join(roots), cpp, "--"] + flags(standin), capture_output=True, text=True, timeout=300)
    if r.returncode or not os.path.exists(out):
        raise ExtractError("extraction of %s failed:\n%s" % (cpp, r.stderr[-3000:]))
    with open(out) as f:
        d = json.load(f)
    os.unlink(out)
    return d

class Unit:
    def __init__(self, data, name):
        self.name = name
        self.types = data["types"]
        self.decls = {int(k): v for k, v in data["decls"].items()}
        for i, d in self.decls.items():
            d["id"] = i
        self.byq = {}
        for i, d in self.decls.items():
            if d["k"] == "fn":
                self.byq.setdefault(d["q"], []).append(i)
        self.recs = {}
        for i, d in self.decls.items():
            if d["k"] == "rec":
                self.recs.setdefault(d["q"], []).append(i)

    def ty(self, t):
        return self.types[t] if t is not None and t >= 0 else {"k": "none", "s": ""}

    def strip(self, t):
        """type id with references removed"""
        ty = self.ty(t)
        while ty["k"] == "ref":
            t = ty["to"]
            ty = self.ty(t)
        return t

    def tas(self, d):
        a = d.get("ta")
        if not a: return ""
        return "<" + ",".join(self.ty(x["t"])["s"] if isinstance(x, dict) and "t" in x else str(x) for x in a) + ">"

    def sig(self, d):
        cls = self.decls.get(d.get("cls")) if d.get("cls") is not None else None
        return d["q"] + self.tas(d) + (self.tas(cls) if cls else "") + "(" + ",".join(uncv(self.ty(p["t"])["s"]) for p in d.get("ps", [])) + ")"

def uncv(s):
    """a parameter's type without const at top level, which does not distinguish functions"""
    if s.startswith("const ") and s[-1] not in "&*)": return s[6:]
    return s[:-5].rstrip() if s.endswith("const") and s[-6] in " *" else s

class Program:
    """All extracted translation units of one check."""
    def __init__(self):
        self.units = []
        self.bodies = {}   # sig -> (unit, decl)
        self.byq = {}      # qname -> [(unit, decl)] with bodies
        self.recs = {}     # qname -> (unit, decl)

    def add(self, unit):
        self.units.append(unit)
        for i, d in unit.decls.items():
            if d["k"] == "fn" and d.get("body") is not None:
                s = unit.sig(d)
                if s not in self.bodies:
                    self.bodies[s] = (unit, d)
                    self.byq.setdefault(d["q"], []).append((unit, d))
            if d["k"] == "rec" and "fs" in d:
                self.recs.setdefault(d["q"], (unit, d))
        return unit

    def load(self, rel, standin=False, extra_roots=()):
        cpp = rel if rel.startswith("/") else os.path.join(REPO, rel)
        return self.add(Unit(export(cpp, standin, rel.replace("/", "_"), extra_roots), rel))

    def find(self, q, pred=None):
        """the unique function with a body named q (optionally satisfying pred)"""
        c = [x for x in self.byq.get(q, []) if pred is None or pred(*x)]
        if not c:
            raise ExtractError("function under contract not found in the current source: " + q)
        return c[0]
