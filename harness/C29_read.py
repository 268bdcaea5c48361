"""Reads the values C29.cpp wrote with the Python package of the repository; stand-ins replace what tree-gen and SWIG
generate.  C29_read.py CASES REPO"""
import json, sys, types, struct, random
sys.dont_write_bytecode = True
cases, repo = sys.argv[1:3]
sys.path.insert(0, repo + "/python/module")

def fail(what, inp):
    print("FAIL: %s\nINPUT: %s" % (what.replace("\n", "\\n")[:1500], inp.replace("\n", "\\n")[:3000])); sys.exit(3)

class Node:
    def __init__(self, b): self.b = b
    def serialize(self): return self.b
    @staticmethod
    def deserialize(b):
        if not isinstance(b, bytes): raise TypeError("bytes expected")
        return Node(b)
class Tree:
    def __init__(self, b): self.b = b
    @classmethod
    def deserialize(cls, b):
        if not isinstance(b, bytes): raise TypeError("bytes expected")
        return cls(b)
class Root(Tree): pass
class Program(Tree): pass
class V3xAnalyzer:
    ret, calls = None, []
    def __init__(self, *a): pass
def method(name, static):
    def f(*a):
        V3xAnalyzer.calls.append((name, a if static else a[1:]))
        return V3xAnalyzer.ret
    return staticmethod(f) if static else f
for n in ("parse_file", "parse_string", "analyze_file", "analyze_string"):
    for s in ("", "_to_json"): setattr(V3xAnalyzer, n + s, method(n + s, n.startswith("parse")))
def mod(q, **kw):
    m = types.ModuleType(q); m.__dict__.update(kw); sys.modules[q] = m; return m
tm = mod("cqasm.v3x.types", Node=Node)
am = mod("cqasm.v3x.ast", Root=Root)
sm = mod("cqasm.v3x.semantic", Program=Program)
mod("libqasm", V3xAnalyzer=V3xAnalyzer)
try:
    import cqasm.v3x
    cqasm.v3x.types, cqasm.v3x.ast, cqasm.v3x.semantic = tm, am, sm
    import cqasm.v3x.primitives as P
    import cqasm.v3x.instruction as I
except Exception as e:
    fail("importing the package raises %s: %s" % (type(e).__name__, e), "import cqasm.v3x")

num = lambda s: struct.unpack("<d", struct.pack("<Q", int(s)))[0]
def value(i):
    k, x = i
    if k == "bool": return x
    if k == "int": return int(x)
    if k == "float": return num(x)
    if k == "string": return bytes.fromhex(x).decode("utf-8")
    if k == "binary": return bytes.fromhex(x)
    if k == "array": return [value(y) for y in x]
    if k == "map": return {bytes.fromhex(a).decode(): value(b) for a, b in x}
def ref(o): return None if o.data is None else (o.data.name, [t.b for t in o.data.types])
def same(a, b): return type(a) is type(b) and (struct.pack("<d", a) == struct.pack("<d", b) if isinstance(a, float) else a == b)
TYP = {"Str": P.Str, "Bool": P.Bool, "Int": P.Int, "Float": P.Float, "Version": P.Version, "InstructionRef": I.InstructionRef}
n = 0
for line in open(cases):
    t, m, want = json.loads(line)
    w = {"Str": lambda: bytes.fromhex(want).decode("utf-8"), "Bool": lambda: want, "Int": lambda: int(want), "Float": lambda: num(want), "Version": lambda: tuple(map(int, want)),
         "InstructionRef": lambda: None if want is None else (bytes.fromhex(want[0]).decode("utf-8"), [bytes.fromhex(x) for x in want[1]])}[t]()
    d = value(m); n += 1
    desc = "%s %r, written by the library as %r" % (t, w, d)
    def check(d, how):
        try: r = P.deserialize(TYP[t], d)
        except Exception as e: fail("%sreading it raises %s: %s" % (how, type(e).__name__, e), desc)
        if t == "InstructionRef":
            if not isinstance(r, I.InstructionRef): fail("%sit is read as a %s" % (how, type(r).__name__), desc)
            got = ref(r)
        elif t == "Version":
            if not isinstance(r, P.Version): fail("%sit is read as a %s" % (how, type(r).__name__), desc)
            got = tuple(r)
        else: got = r
        if not same(got, w): fail("%sit is read as %r" % (how, got), desc)
        return r
    r = check(d, "")
    try: d2 = P.serialize(TYP[t], r)
    except Exception as e: fail("writing it again raises %s: %s" % (type(e).__name__, e), desc)
    check(d2, "written again by the package as %r, " % (d2,))

R = random.Random(1)
def text(valid=False):
    b = bytes(R.choice([R.randrange(128), R.randrange(256)]) for _ in range(R.randrange(40)))
    return (b.decode("utf-8", "ignore").encode() if valid else b).decode("utf-8", "surrogateescape")
for i in range(2000):
    for name, cls in (("parse_file", Root), ("parse_string", Root), ("analyze_file", Program), ("analyze_string", Program)):
        for s in ("", "_to_json"):
            args = tuple(text() for _ in range(R.choice([1, 2]) if "string" in name else 1))
            errors = [text() for _ in range(R.randrange(1, 6))]
            tree = text(); ok = R.random() < 0.5
            V3xAnalyzer.ret = text() if s else ((tree,) if ok else ("", *errors))
            V3xAnalyzer.calls.clear()
            desc = "Analyzer.%s%r where the library yields %r" % (name + s, args, V3xAnalyzer.ret)
            try: r = getattr(cqasm.v3x.Analyzer(), name + s)(*args)
            except Exception as e: fail("it raises %s: %s" % (type(e).__name__, e), desc)
            if V3xAnalyzer.calls != [(name + s, args)]: fail("it calls the library as %r" % (V3xAnalyzer.calls,), desc)
            if s:
                if r != V3xAnalyzer.ret: fail("it yields %r" % (r,), desc)
            elif ok:
                if type(r) is not cls or r.b != tree.encode("utf-8", "surrogateescape"): fail("it yields %r of %r" % (type(r).__name__, getattr(r, "b", r)), desc)
            elif list(r) != errors: fail("it yields %r" % (r,), desc)
print("OK", n)
