"""Symbolic execution of the Python package in /repo/python/module, on the same values, store, loops and obligations
as the C++ executor.  The code is read from its current source with Python's own parser; what is not understood raises
Unsupported and leaves the obligation undecided.

Values: None = NONE, bool and int = terms, float = IEEE term, str = Special("pystr", (UTF-8 bytes, may hold lone
surrogates)), bytes = Special("pybytes", (bytes,)), tuple = Special("pytuple", (elements, class)),
list / dict / objects = Ptr to a store cell."""
import ast as A, os
from .vals import *
from .core import CxxThrow, Cell, CellLV, ConstLV, LV

NONE = Special("pynone", ())
def pstr(seq, esc=False): return Special("pystr", (seq if isinstance(seq, Seq) else Seq.lit(seq.encode("utf-8").decode("latin-1")), esc))
def pbytes(seq): return Special("pybytes", (seq,))
def ptuple(seq, cls="tuple"): return Special("pytuple", (seq if isinstance(seq, Seq) else Seq.of(seq), cls))
class Ret(Exception):
    def __init__(self, v): self.v = v

class PyFn:
    def __init__(self, node, mod, kind="function", cls=None): self.node, self.mod, self.kind, self.cls = node, mod, kind, cls
class PyBound:
    def __init__(self, fn, self_): self.fn, self.self_ = fn, self_
class PyCls:
    def __init__(self, name, q, bases, attrs): self.name, self.q, self.bases, self.attrs = name, q, bases, attrs
    def mro(self):
        out = [self]
        for b in self.bases: out += [c for c in (b.mro() if isinstance(b, PyCls) else [b]) if c not in out]
        return out
class PyMod:
    def __init__(self, q): self.q, self.env, self.tree = q, {}, None
class Native:
    """a builtin or a contract: fn(args, kwargs)"""
    def __init__(self, name, fn): self.name, self.fn = name, fn
class NativeCls:
    """a builtin type, or a class known by contract: attrs, and whether a value is an instance"""
    def __init__(self, q, attrs=None, inst=None, new=None): self.q, self.attrs, self.inst, self.new = q, attrs or {}, inst, new
class Super:
    def __init__(self, cls, obj): self.cls, self.obj = cls, obj
class BoundNative:
    def __init__(self, fn): self.fn = fn

EXC = {"Exception": (), "TypeError": ("Exception",), "ValueError": ("Exception",), "AssertionError": ("Exception",), "LookupError": ("Exception",), "KeyError": ("LookupError", "Exception"),
       "IndexError": ("LookupError", "Exception"), "AttributeError": ("Exception",), "RuntimeError": ("Exception",), "NotImplementedError": ("RuntimeError", "Exception"),
       "UnicodeError": ("ValueError", "Exception"), "UnicodeDecodeError": ("UnicodeError", "ValueError", "Exception"), "UnicodeEncodeError": ("UnicodeError", "ValueError", "Exception"), "StopIteration": ("Exception",), "NameError": ("Exception",)}

class Py:
    def __init__(self, ex, root, externals):
        """externals: dotted name -> value (contracts for what is not in the repository)"""
        self.ex, self.root, self.ext = ex, root, externals
        self.mods = {}
        self.loops = 0
        self.B = self.builtins()

    # ---- modules -------------------------------------------------------------------------------
    def module(self, q):
        if q in self.mods: return self.mods[q]
        m = self.mods[q] = PyMod(q)
        p = os.path.join(self.root, *q.split("."))
        f = p + ".py" if os.path.exists(p + ".py") else os.path.join(p, "__init__.py")
        if not os.path.exists(f):
            return m
        m.tree = A.parse(open(f, encoding="utf-8").read())
        for n in m.tree.body: self.top(m, n)
        return m
    def top(self, m, n):
        if isinstance(n, A.Import):
            for a in n.names:
                if a.asname: m.env[a.asname] = ("module", a.name)
                else: m.env[a.name.split(".")[0]] = ("module", a.name.split(".")[0])
        elif isinstance(n, A.ImportFrom):
            if n.level: raise Unsupported("relative import")
            for a in n.names: m.env[a.asname or a.name] = ("from", n.module, a.name)
        elif isinstance(n, A.FunctionDef): m.env[n.name] = PyFn(n, m)
        elif isinstance(n, A.ClassDef): m.env[n.name] = ("class", n)
        elif isinstance(n, A.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], A.Name): m.env[n.targets[0].id] = ("expr", n.value)
        elif isinstance(n, A.AnnAssign) and n.value is not None and isinstance(n.target, A.Name): m.env[n.target.id] = ("expr", n.value)
        elif isinstance(n, (A.Expr,)) and isinstance(n.value, A.Constant): pass
        elif isinstance(n, A.Pass): pass
        else: raise Unsupported("module level " + type(n).__name__)
    def resolve(self, m, k):
        v = m.env[k]
        if isinstance(v, tuple) and v and isinstance(v[0], str):
            if v[0] == "module": r = self.ext[v[1]] if v[1] in self.ext else self.module(v[1])
            elif v[0] == "from": r = self.attr_of_module(v[1], v[2])
            elif v[0] == "expr": r = self.ev(v[1], {}, m)
            else: r = self.mkclass(m, v[1])
            m.env[k] = r
            return r
        return v
    def attr_of_module(self, q, k):
        full = q + "." + k
        if full in self.ext: return self.ext[full]
        m = self.module(q)
        if k in m.env: return self.resolve(m, k)
        if any(e.startswith(full + ".") for e in self.ext) or os.path.exists(os.path.join(self.root, *full.split("."))) or os.path.exists(os.path.join(self.root, *full.split(".")) + ".py"): return self.module(full)
        raise Unsupported("name %s of module %s" % (k, q))
    def mkclass(self, m, n):
        attrs = {}
        c = PyCls(n.name, m.q + "." + n.name, [], attrs)
        c.bases = [self.ev(b, {}, m) for b in n.bases]
        if n.keywords or n.decorator_list: raise Unsupported("class decorator or keyword")
        for s in n.body:
            if isinstance(s, A.FunctionDef):
                kind = "function"
                for d in s.decorator_list:
                    if isinstance(d, A.Name) and d.id in ("staticmethod", "classmethod", "property"): kind = d.id
                    else: raise Unsupported("decorator")
                if s.name == "__new__": kind = "new"
                attrs[s.name] = PyFn(s, m, kind, c)
            elif isinstance(s, A.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], A.Name): attrs[s.targets[0].id] = self.ev(s.value, {}, m)
            elif isinstance(s, A.Expr) and isinstance(s.value, A.Constant) or isinstance(s, A.Pass): pass
            else: raise Unsupported("class level " + type(s).__name__)
        return c

    # ---- exceptions ----------------------------------------------------------------------------
    def throw(self, cls): raise CxxThrow(self.ex.temp(Obj("py::" + cls, {}), "exc"), "py::" + cls)

    # ---- builtins ------------------------------------------------------------------------------
    def builtins(self):
        ex = self.ex
        isk = lambda *ks: lambda v: isinstance(v, Special) and v.kind in ks
        def isint_(v): return isinstance(v, int) and not isinstance(v, bool) or isz(v) and v.sort() == z3.IntSort()
        def isbool_(v): return isinstance(v, bool) or isz(v) and z3.is_bool(v)
        def isfloat_(v): return isinstance(v, float) or isz(v) and z3.is_fp(v)
        def isptr(cls): return lambda v: isinstance(v, Ptr) and v.cls == cls
        B = {}
        B["str"] = NativeCls("str", {}, isk("pystr"), self.b_str)
        B["bytes"] = NativeCls("bytes", {}, isk("pybytes"), self.b_bytes)
        B["bool"] = NativeCls("bool", {}, isbool_, lambda a, k: False if not a else self.truth(a[0]))
        B["int"] = NativeCls("int", {}, lambda v: isint_(v) or isbool_(v), self.b_int)
        B["float"] = NativeCls("float", {}, isfloat_, self.b_float)
        B["complex"] = NativeCls("complex", {}, lambda v: False, None)
        B["tuple"] = NativeCls("tuple", {}, isk("pytuple"), lambda a, k: ptuple(self.items(a[0]) if a else Seq()))
        B["list"] = NativeCls("list", {}, isptr("py::list"), lambda a, k: self.mklist(self.items(a[0]) if a else Seq()))
        B["dict"] = NativeCls("dict", {}, isptr("py::dict"), self.b_dict)
        B["object"] = NativeCls("object", {}, lambda v: True, None)
        B["type"] = NativeCls("type", {}, lambda v: isinstance(v, (PyCls, NativeCls)), self.b_type)
        for e in EXC: B[e] = NativeCls(e, {}, lambda v: False, None)
        B["len"] = Native("len", lambda a, k: ex.seq_len(self.items(a[0])))
        B["isinstance"] = Native("isinstance", lambda a, k: self.isinstance(a[0], a[1]))
        B["map"] = Native("map", lambda a, k: self.mklist(self.mapped(a[1], lambda x: self.call(a[0], [x], {})) if len(a) == 2 else self.no("map of several")))
        B["iter"] = Native("iter", lambda a, k: a[0])
        B["callable"] = Native("callable", lambda a, k: isinstance(a[0], (PyFn, PyBound, PyCls, Native, NativeCls)))
        B["NotImplemented"] = Special("pyni", ())
        B["any"] = Native("any", lambda a, k: self.anyall(a[0], True))
        B["all"] = Native("all", lambda a, k: self.anyall(a[0], False))
        B["hasattr"] = Native("hasattr", lambda a, k: self.no("hasattr"))
        return B
    def no(self, what): raise Unsupported("Python " + what)
    def text(self, v):
        """a literal Python string, or None"""
        if isinstance(v, Special) and v.kind == "pystr":
            t = v.x[0].text()
            if t is not None: return t.encode("latin-1").decode("utf-8", "surrogateescape")
        return None
    def codec(self, v):
        t = self.text(v)
        if t is None: raise Unsupported("Python encoding that is not a literal")
        return t.lower().replace("_", "-").replace("utf8", "utf-8")
    def decode(self, b, enc, errors):
        """bytes -> str; the library's texts are valid UTF-8, the bytes of a serialized tree need not be"""
        if enc != "utf-8":
            if enc in ("ascii", "us-ascii"):
                if self.ex.branch(self.all_ascii(b)): return pstr(b)
                if errors == "strict": self.throw("UnicodeDecodeError")
            return self.other(enc + " decoding", b)
        return pstr(b)
    def other(self, what, b):
        """a different text: some function of the bytes that need not be the identity"""
        if self.ex.branch(self.all_ascii(b)): return pstr(b)
        n = self.ex.fresh_int("length", 0, 1 << 40)
        bs = self.ex.sym_string("%s %d" % (what, self.ex.fresh_id()))
        self.ex.assume(lt(self.ex.seq_len(b), self.ex.seq_len(bs)))      # each byte above 0x7f becomes two or more
        return pstr(bs)
    def all_ascii(self, b):
        c = b.concrete()
        if c is not None: return And(*[le(0, x) for x in c])
        return self.ex.uf("all ascii: %r" % (b,), [], z3.BoolSort())
    def b_str(self, a, k):
        if not a: return pstr("")
        v = a[0]
        if len(a) > 1 or k:
            enc = self.codec(a[1]) if len(a) > 1 else self.codec(k.pop("encoding", pstr("utf-8")))
            errors = self.codec(a[2]) if len(a) > 2 else self.codec(k.pop("errors", pstr("strict")))
            if k: self.no("str keyword")
            if not (isinstance(v, Special) and v.kind == "pybytes"): self.throw("TypeError")
            return self.decode(v.x[0], enc, errors)
        if isinstance(v, Special):
            if v.kind == "pystr": return v
            if v.kind == "pybytes":
                b = self.ex.sym_string("escaped bytes %d" % self.ex.fresh_id())
                return pstr(Seq.lit("b'") + b + Seq.lit("'"))
            if v is NONE or v.kind == "pynone": return pstr("None")
        raise Unsupported("Python str(%r)" % (v,))
    def b_bytes(self, a, k):
        if len(a) == 2 and isinstance(a[0], Special) and a[0].kind == "pystr": return self.m_encode(a[0], a[1:], k)
        if len(a) == 1 and isinstance(a[0], Special) and a[0].kind == "pybytes": return a[0]
        self.no("bytes()")
    def b_int(self, a, k):
        if len(a) != 1 or k: self.no("int with a base")
        v = a[0]
        if isinstance(v, bool) or isz(v) and z3.is_bool(v): return If(v, 1, 0)
        if isinstance(v, int) or isz(v) and v.sort() == z3.IntSort(): return v
        if self.text(v) is not None:
            try: return int(self.text(v))
            except ValueError: self.throw("ValueError")
        raise Unsupported("Python int(%r)" % (v,))
    def b_float(self, a, k):
        if len(a) != 1: self.no("float()")
        v = a[0]
        if isinstance(v, float) or isz(v) and z3.is_fp(v): return v
        if isinstance(v, int) or isz(v) and v.sort() == z3.IntSort(): return z3.fpToFP(z3.RNE(), z3.ToReal(iz(v)), z3.Float64())
        raise Unsupported("Python float(%r)" % (v,))
    def b_dict(self, a, k):
        if a: self.no("dict of something")
        return self.mkdict(tuple((n, v) for n, v in k.items()))
    def b_type(self, a, k):
        v = a[0]
        if isinstance(v, Special) and v.kind == "pytuple" and not isinstance(v.x[1], str): return v.x[1]
        if isinstance(v, Ptr) and isinstance(v.cls, PyCls): return v.cls
        for n in ("bool", "int", "float", "str", "bytes", "list", "dict"):
            if self.B[n].inst(v): return self.B[n]
        raise Unsupported("Python type(%r)" % (v,))
    def anyall(self, v, which):
        r = self.ex.temp(not which, "anyall")
        def body(el):
            if self.ex.branch(self.truth(el.get(self.ex))): r.set(self.ex, True)
            else: r.set(self.ex, False) if not which else None
        s = self.items(v).concrete()
        if s is None: self.no("any/all of a list of any length")
        for x in s:
            if self.ex.branch(self.truth(x)) == which: return which
        return not which
    def isinstance(self, v, c):
        if isinstance(c, Special) and c.kind == "pytuple":
            for x in c.x[0].concrete():
                if self.ex.branch(self.isinstance(v, x)): return True
            return False
        if isinstance(c, NativeCls):
            if c.inst is None: raise Unsupported("isinstance of " + c.q)
            if isinstance(v, Ptr) and isinstance(v.cls, PyCls): return any(x is c for x in v.cls.mro()) or c.q == "object"
            return c.inst(v)
        if isinstance(c, PyCls):
            if isinstance(v, Ptr) and isinstance(v.cls, PyCls): return c in v.cls.mro()
            if isinstance(v, Special) and v.kind == "pytuple" and isinstance(v.x[1], str): return v.x[1] == c.q
            return False
        raise Unsupported("isinstance of %r" % (c,))

    # ---- containers ----------------------------------------------------------------------------
    def mklist(self, seq): return Ptr(self.ex.newcell(seq, "pylist"), False, "py::list")
    def mkdict(self, items): return Ptr(self.ex.newcell(Special("pydict", tuple(items)), "pydict"), False, "py::dict")
    def dict_items(self, d): return self.ex.load(d.cell).x
    def items(self, v):
        if isinstance(v, Ptr) and v.cls == "py::list": return self.ex.as_seq(self.ex.load(v.cell))
        if isinstance(v, Ptr) and v.cls == "py::dict": return Seq.of([pstr(k) for k, _ in self.dict_items(v)])
        if isinstance(v, Special) and v.kind in ("pytuple",): return v.x[0]
        if isinstance(v, Special) and v.kind == "pybytes": return v.x[0]
        if isinstance(v, Special) and v.kind == "pystr":
            t = self.text(v)
            if t is not None: return Seq.of([pstr(ch) for ch in t])
        if isinstance(v, Seq): return v
        if v is NONE or isinstance(v, (int, float)) or isz(v): self.throw("TypeError")
        raise Unsupported("Python iteration over %r" % (v,))
    def iterate(self, v, body):
        s = self.items(v)
        self.loops += 1
        c = s.concrete()
        if c is not None:
            for x in c: body(ConstLV(x))
            return
        self.ex.iterate("py%d" % self.loops, self.ex.temp(s, "iterated"), body, catch=False)
    def mapped(self, v, f):
        out = self.ex.temp(Seq(), "mapped")
        def body(el): out.set(self.ex, out.get(self.ex) + Seq([U(f(el.get(self.ex)))]))
        self.iterate(v, body)
        return out.get(self.ex)

    # ---- truth, equality -----------------------------------------------------------------------
    def truth(self, v):
        if isinstance(v, bool): return v
        if isinstance(v, int): return v != 0
        if isz(v):
            if z3.is_bool(v): return v
            if z3.is_fp(v): return Not(z3.fpIsZero(v))
            return Not(eq(v, 0))
        if isinstance(v, Special):
            if v.kind == "pynone": return False
            if v.kind in ("pystr", "pybytes", "pytuple"): return Not(self.ex.empty(v.x[0]))
        if isinstance(v, Ptr):
            if v.cls == "py::list": return Not(self.ex.empty(self.items(v)))
            if v.cls == "py::dict": return bool(self.dict_items(v))
            if isinstance(v.cls, PyCls):
                if self.lookup(v.cls, "__bool__") or self.lookup(v.cls, "__len__"): self.no("__bool__")
                return True
            return True
        if isinstance(v, (PyFn, PyCls, NativeCls, Native, PyBound)): return True
        raise Unsupported("Python truth of %r" % (v,))
    def identical(self, a, b):
        if isinstance(a, Special) and isinstance(b, Special) and a.kind == "pynone" and b.kind == "pynone": return True
        if isinstance(a, Ptr) and isinstance(b, Ptr): return self.ex.veq(a, b) if type(a.cls) is type(b.cls) else False
        if isinstance(a, (PyCls, NativeCls)) or isinstance(b, (PyCls, NativeCls)): return a is b
        if isinstance(a, Special) != isinstance(b, Special) or (isinstance(a, Special) and a.kind != b.kind): return False
        if isinstance(a, bool) and isinstance(b, bool): return a == b
        if (isz(a) and z3.is_bool(a) or isinstance(a, bool)) and (isz(b) and z3.is_bool(b) or isinstance(b, bool)): return simp(bz(a) == bz(b))
        raise Unsupported("Python identity of %r and %r" % (a, b))
    def equal(self, a, b):
        if isinstance(a, Special) and isinstance(b, Special):
            if a.kind != b.kind: return False
            if a.kind == "pynone": return True
            return self.ex.veq(a.x[0], b.x[0])
        if isinstance(a, Special) or isinstance(b, Special): return False
        if isinstance(a, Ptr) and a.cls == "py::list" and isinstance(b, Ptr) and b.cls == "py::list": return self.ex.veq(self.items(a), self.items(b))
        num = lambda v: isinstance(v, (int, float)) or isz(v)
        if num(a) and num(b): return self.ex.veq(a, b)
        if isinstance(a, (PyCls, NativeCls)) or isinstance(b, (PyCls, NativeCls)): return a is b
        raise Unsupported("Python equality of %r and %r" % (a, b))

    # ---- attributes ----------------------------------------------------------------------------
    def lookup(self, cls, k):
        for c in cls.mro():
            if k in c.attrs: return c.attrs[k], c
        return None
    def getattr(self, v, k):
        if isinstance(v, PyMod): return self.attr_of_module(v.q, k)
        if isinstance(v, PyCls):
            r = self.lookup(v, k)
            if k == "__name__": return pstr(v.name)
            if r is None: self.throw("AttributeError")
            f = r[0]
            if isinstance(f, PyFn) and f.kind == "classmethod": return PyBound(f, v)
            return f
        if isinstance(v, NativeCls):
            if k == "__name__": return pstr(v.q.split(".")[-1])
            if k in v.attrs: return v.attrs[k]
            if k == "join" or k == "format": self.no(k)
            raise Unsupported("attribute %s of %s" % (k, v.q))
        if isinstance(v, Super):
            m = v.cls.mro()
            for c in m[1:]:
                if k in getattr(c, "attrs", {}):
                    f = c.attrs[k]
                    return PyBound(f, v.obj) if isinstance(f, PyFn) and f.kind == "function" else f
            if k == "__init__": return Native("object.__init__", lambda a, kw: NONE)
            if k == "__new__":
                base = [c for c in m[1:] if isinstance(c, NativeCls)]
                def new(a, kw):
                    c = a[0]
                    if any(b.q == "tuple" for b in base): return ptuple(self.items(a[1]) if len(a) > 1 else Seq(), c.q)
                    if any(b.q in ("list", "dict", "str", "int", "float", "bytes") for b in base): self.no("subclass of a builtin")
                    return Ptr(self.ex.newcell(Obj("py::" + c.q, {}), "pyobj"), False, c)
                return Native("__new__", new)
            raise Unsupported("super().%s" % k)
        if isinstance(v, Ptr) and isinstance(v.cls, PyCls):
            r = self.lookup(v.cls, k)
            if r is not None and isinstance(r[0], PyFn):
                f = r[0]
                if f.kind == "property": return self.call(f, [v], {})
                if f.kind == "function": return PyBound(f, v)
                if f.kind == "classmethod": return PyBound(f, v.cls)
                return f
            o = self.ex.load(v.cell)
            if k in o.f: return o.f[k]
            if k == "__class__": return v.cls
            if r is not None: return r[0]
            for c in v.cls.mro():
                if isinstance(c, NativeCls) and c.q not in ("object",):
                    raise Unsupported("attribute %s of an instance of %s" % (k, c.q))
            self.throw("AttributeError")
        if isinstance(v, Special) and v.kind == "pystr":
            if k == "encode": return Native(k, lambda a, kw: self.m_encode(v, a, kw))
            if k in ("format", "join", "split", "strip", "lower", "upper", "startswith", "endswith", "replace", "isidentifier"): return Native(k, lambda a, kw: self.strmethod(v, k, a, kw))
            raise Unsupported("str." + k)
        if isinstance(v, Special) and v.kind == "pybytes":
            if k == "decode": return Native(k, lambda a, kw: self.decode(v.x[0], self.codec(a[0]) if a else self.codec(kw.get("encoding", pstr("utf-8"))), self.codec(a[1]) if len(a) > 1 else self.codec(kw.get("errors", pstr("strict")))))
            raise Unsupported("bytes." + k)
        if isinstance(v, Ptr) and v.cls == "py::list":
            if k == "append": return Native(k, lambda a, kw: (self.ex.store_(v.cell, self.items(v) + Seq([U(a[0])])), NONE)[1])
            if k == "extend": return Native(k, lambda a, kw: (self.ex.store_(v.cell, self.items(v) + self.items(a[0])), NONE)[1])
            if k == "copy": return Native(k, lambda a, kw: self.mklist(self.items(v)))
            raise Unsupported("list." + k)
        if isinstance(v, Ptr) and v.cls == "py::dict":
            if k == "get": return Native(k, lambda a, kw: self.dget(v, a[0], a[1] if len(a) > 1 else NONE))
            if k == "items": return Native(k, lambda a, kw: self.mklist(Seq.of([ptuple([pstr(n), x]) for n, x in self.dict_items(v)])))
            if k == "keys": return Native(k, lambda a, kw: self.mklist(Seq.of([pstr(n) for n, x in self.dict_items(v)])))
            if k == "values": return Native(k, lambda a, kw: self.mklist(Seq.of([x for n, x in self.dict_items(v)])))
            raise Unsupported("dict." + k)
        if v is NONE or isinstance(v, Special) and v.kind == "pynone": self.throw("AttributeError")
        if isinstance(v, Ptr) and callable(self.ext.get("#attr")):
            r = self.ext["#attr"](v, k)
            if r is not None: return r
        raise Unsupported("attribute %s of %r" % (k, v))
    def strmethod(self, v, k, a, kw):
        t = self.text(v); ts = [self.text(x) for x in a]
        if t is not None and all(x is not None for x in ts) and not kw and k in ("strip", "lower", "upper", "replace"): return pstr(getattr(t, k)(*ts))
        if t is not None and all(x is not None for x in ts) and not kw and k in ("startswith", "endswith"): return getattr(t, k)(*ts)
        if t is not None and k == "split" and all(x is not None for x in ts): return self.mklist(Seq.of([pstr(x) for x in t.split(*ts)]))
        raise Unsupported("str." + k)
    def m_encode(self, v, a, kw):
        kw = dict(kw)
        enc = self.codec(a[0]) if a else self.codec(kw.pop("encoding", pstr("utf-8")))
        errors = self.codec(a[1]) if len(a) > 1 else self.codec(kw.pop("errors", pstr("strict")))
        if kw: self.throw("TypeError")
        b, esc = v.x
        if enc != "utf-8":
            if self.ex.branch(self.all_ascii(b)): return pbytes(b)
            if errors == "strict": self.throw("UnicodeEncodeError")
            return pbytes(self.other(enc + " encoding", b).x[0])
        if esc and errors != "surrogateescape":
            # bytes that are not UTF-8 came in as lone surrogates
            if self.ex.branch(self.ex.uf("valid UTF-8: %r" % (b,), [], z3.BoolSort())): return pbytes(b)
            if errors == "strict": self.throw("UnicodeEncodeError")
            return pbytes(self.other("lossy encoding", b).x[0])
        return pbytes(b)
    def dget(self, d, k, default):
        t = self.text(k)
        if t is None: raise Unsupported("Python key that is not a literal")
        for n, x in self.dict_items(d):
            if n == t: return x
        return default

    # ---- calls ---------------------------------------------------------------------------------
    def call(self, f, a, k):
        if isinstance(f, PyBound): return self.call(f.fn, [f.self_] + list(a), k)
        if isinstance(f, Native): return f.fn(list(a), dict(k))
        if isinstance(f, NativeCls):
            if f.q in EXC: return Special("pyexc", (f.q,))
            if f.new is None: raise Unsupported("call of " + f.q)
            return f.new(list(a), dict(k))
        if isinstance(f, PyFn): return self.run(f, list(a), dict(k))
        if isinstance(f, PyCls):
            new = self.lookup_py(f, "__new__")
            if new is not None: o = self.run(new, [f] + list(a), dict(k))
            elif any(isinstance(c, NativeCls) and c.q == "tuple" for c in f.mro()): o = ptuple(self.items(a[0]) if a else Seq(), f.q)
            elif any(isinstance(c, NativeCls) and c.q in EXC for c in f.mro()): return Special("pyexc", (f.q,))
            else: o = Ptr(self.ex.newcell(Obj("py::" + f.q, {}), "pyobj"), False, f)
            init = self.lookup_py(f, "__init__")
            if init is not None: self.run(init, [o] + list(a), dict(k))
            return o
        raise Unsupported("Python call of %r" % (f,))
    def lookup_py(self, cls, k):
        r = self.lookup_any(cls, k)
        return r if isinstance(r, PyFn) else None
    def lookup_any(self, cls, k):
        for c in cls.mro():
            if k in getattr(c, "attrs", {}): return c.attrs[k]
    def run(self, f, a, k):
        n = f.node
        if n.decorator_list and f.cls is None: raise Unsupported("decorated function")
        if isinstance(n, A.Lambda):
            env = dict(f.env)
        else: env = dict(getattr(f, "env", {}))
        ar = n.args
        names = [x.arg for x in ar.posonlyargs + ar.args]
        vals = list(a)
        env = {**env, "#fn": f}
        for i, nm in enumerate(names):
            if i < len(vals):
                if nm in k: self.throw("TypeError")
                env[nm] = self.ex.temp(vals[i], "py_" + nm)
            elif nm in k: env[nm] = self.ex.temp(k.pop(nm), "py_" + nm)
            else:
                j = i - (len(names) - len(ar.defaults))
                if j < 0: self.throw("TypeError")
                env[nm] = self.ex.temp(self.ev(ar.defaults[j], {}, f.mod), "py_" + nm)
        rest = vals[len(names):]
        if ar.vararg: env[ar.vararg.arg] = self.ex.temp(ptuple(rest), "py_" + ar.vararg.arg)
        elif rest: self.throw("TypeError")
        for nm, dflt in zip(ar.kwonlyargs, ar.kw_defaults):
            if nm.arg in k: env[nm.arg] = self.ex.temp(k.pop(nm.arg), "py")
            elif dflt is not None: env[nm.arg] = self.ex.temp(self.ev(dflt, {}, f.mod), "py")
            else: self.throw("TypeError")
        if ar.kwarg: env[ar.kwarg.arg] = self.ex.temp(self.mkdict(tuple(k.items())), "py")
        elif k: self.throw("TypeError")
        self.depth = getattr(self, "depth", 0) + 1
        try:
            if self.depth > 40: raise Unsupported("Python recursion")
            if isinstance(n, A.Lambda): return self.ev(n.body, env, f.mod)
            try: self.block(n.body, env, f.mod)
            except Ret as r: return r.v
            return NONE
        finally: self.depth -= 1

    # ---- statements ----------------------------------------------------------------------------
    def block(self, ss, env, m):
        for s in ss: self.stmt(s, env, m)
    def stmt(self, s, env, m):
        ex = self.ex
        if isinstance(s, A.Return): raise Ret(NONE if s.value is None else self.ev(s.value, env, m))
        if isinstance(s, A.Expr):
            if not isinstance(s.value, A.Constant): self.ev(s.value, env, m)
        elif isinstance(s, A.If):
            self.block(s.body if ex.branch(self.truth(self.ev(s.test, env, m))) else s.orelse, env, m)
        elif isinstance(s, A.Assign):
            v = self.ev(s.value, env, m)
            for t in s.targets: self.assign(t, v, env, m)
        elif isinstance(s, A.AnnAssign):
            if s.value is not None: self.assign(s.target, self.ev(s.value, env, m), env, m)
        elif isinstance(s, A.AugAssign):
            t = s.target
            if not isinstance(t, A.Name): self.no("augmented assignment")
            cur = env[t.id].get(ex)
            v = self.ev(s.value, env, m)
            if isinstance(cur, Ptr) and cur.cls == "py::list" and isinstance(s.op, A.Add): ex.store_(cur.cell, self.items(cur) + self.items(v))
            else: self.assign(t, self.binop(s.op, cur, v), env, m)
        elif isinstance(s, A.For):
            if s.orelse: self.no("for else")
            outer = set(env)
            def body(el):
                self.assign(s.target, el.get(ex), env, m)
                try: self.block(s.body, env, m)
                except Ret: 
                    if self.concrete_loop: raise
                    self.no("return inside a loop over a list of any length")
                if not self.concrete_loop:
                    for k in list(env):
                        if k not in outer: del env[k]
            it = self.ev(s.iter, env, m)
            old = getattr(self, "concrete_loop", True)
            self.concrete_loop = old and self.items(it).concrete() is not None
            if any(isinstance(x, (A.Break, A.Continue)) for x in A.walk(s)): self.no("break")
            try: self.iterate(it, body)
            finally: self.concrete_loop = old
        elif isinstance(s, A.Raise):
            if s.exc is None: self.no("re-raise")
            v = self.ev(s.exc, env, m)
            if isinstance(v, NativeCls): self.throw(v.q)
            if isinstance(v, Special) and v.kind == "pyexc": self.throw(v.x[0])
            self.no("raise")
        elif isinstance(s, A.Assert):
            if not ex.branch(self.truth(self.ev(s.test, env, m))): self.throw("AssertionError")
        elif isinstance(s, A.Pass): pass
        elif isinstance(s, A.Try):
            if s.finalbody or s.orelse: self.no("try with else or finally")
            try: self.block(s.body, env, m)
            except CxxThrow as t:
                for h in s.handlers:
                    if h.type is None or self.catches(self.ev(h.type, env, m), t.cls):
                        if h.name: env[h.name] = ex.temp(Special("pyexc", (t.cls,)), "py")
                        self.block(h.body, env, m); break
                else: raise
        elif isinstance(s, A.FunctionDef):
            f = PyFn(s, m); f.env = env
            env[s.name] = ex.temp(Special("pyfn", f), "py")
        elif isinstance(s, (A.Import, A.ImportFrom)):
            t = PyMod(m.q); self.top(t, s)
            for k in t.env: env[k] = ConstLV(self.resolve(t, k))
        else: raise Unsupported("Python " + type(s).__name__)
    def catches(self, c, cls):
        if isinstance(c, Special) and c.kind == "pytuple": return any(self.catches(x, cls) for x in c.x[0].concrete())
        n = cls.replace("py::", "")
        return c.q == n or c.q in EXC.get(n, ()) or c.q in ("BaseException",)
    def assign(self, t, v, env, m):
        ex = self.ex
        if isinstance(t, A.Name):
            if t.id in env and isinstance(env[t.id], CellLV): env[t.id].set(ex, v)
            else: env[t.id] = ex.temp(v, "py_" + t.id)
        elif isinstance(t, A.Attribute):
            o = self.ev(t.value, env, m)
            if not (isinstance(o, Ptr) and isinstance(o.cls, PyCls)): self.no("attribute assignment")
            r = self.lookup_any(o.cls, t.attr)
            if isinstance(r, PyFn) and r.kind == "property": self.throw("AttributeError")
            ex.store_(o.cell, ex.load(o.cell).with_(t.attr, v))
        elif isinstance(t, A.Subscript):
            o, k = self.ev(t.value, env, m), self.text(self.ev(t.slice, env, m))
            if not (isinstance(o, Ptr) and o.cls == "py::dict" and k is not None): self.no("item assignment")
            xs = self.dict_items(o)
            ys = tuple((n, v if n == k else x) for n, x in xs) if any(n == k for n, _ in xs) else xs + ((k, v),)
            ex.store_(o.cell, Special("pydict", ys))
        elif isinstance(t, (A.Tuple, A.List)):
            xs = self.items(v).concrete()
            if xs is None or any(isinstance(e, A.Starred) for e in t.elts): self.no("unpacking")
            if len(xs) != len(t.elts): self.throw("ValueError")
            for e, x in zip(t.elts, xs): self.assign(e, x, env, m)
        else: self.no("assignment")

    # ---- expressions ---------------------------------------------------------------------------
    def ev(self, e, env, m):
        v = self.ev_(e, env, m)
        if isinstance(v, Special) and v.kind == "pyfn": return v.x
        return v
    def ev_(self, e, env, m):
        ex = self.ex
        if isinstance(e, A.Constant):
            v = e.value
            if v is None: return NONE
            if isinstance(v, str): return pstr(v)
            if isinstance(v, bytes): return pbytes(Seq.lit(v))
            if isinstance(v, (bool, int)): return v
            if isinstance(v, float): return z3.FPVal(v, z3.Float64())
            self.no("constant")
        if isinstance(e, A.Name):
            if e.id in env: return env[e.id].get(ex)
            if e.id in m.env: return self.resolve(m, e.id)
            if e.id == "super": return Special("pysuper", ())
            if e.id in self.B: return self.B[e.id]
            raise Unsupported("Python name " + e.id)
        if isinstance(e, A.Attribute): return self.getattr(self.ev(e.value, env, m), e.attr)
        if isinstance(e, A.Call):
            f = self.ev(e.func, env, m)
            a, k = [], {}
            for x in e.args:
                if isinstance(x, A.Starred):
                    c = self.items(self.ev(x.value, env, m)).concrete()
                    if c is None: self.no("call with a list of any length")
                    a += c
                else: a.append(self.ev(x, env, m))
            for x in e.keywords:
                v = self.ev(x.value, env, m)
                if x.arg is None: k.update(self.dict_items(v))
                else: k[x.arg] = v
            if isinstance(f, Special) and f.kind == "pysuper":
                fn = env.get("#fn")
                if a: return Super(a[0], a[1])
                first = fn.node.args.args[0].arg
                return Super(fn.cls, env[first].get(ex))
            return self.call(f, a, k)
        if isinstance(e, A.Compare):
            l = self.ev(e.left, env, m)
            for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
                r = self.ev(r, env, m)
                c = self.compare(op, l, r)
                if i + 1 == len(e.ops): return c
                if not ex.branch(c): return False
                l = r
        if isinstance(e, A.BoolOp):
            for x in e.values[:-1]:
                v = self.ev(x, env, m)
                if ex.branch(self.truth(v)) != isinstance(e.op, A.And): return v
            return self.ev(e.values[-1], env, m)
        if isinstance(e, A.UnaryOp):
            v = self.ev(e.operand, env, m)
            if isinstance(e.op, A.Not): return Not(self.truth(v))
            if isinstance(e.op, A.USub) and (isinstance(v, int) or isz(v) and v.sort() == z3.IntSort()): return sub(0, v)
            if isinstance(e.op, A.USub) and isz(v) and z3.is_fp(v): return z3.fpNeg(v)
            self.no("unary operator")
        if isinstance(e, A.BinOp): return self.binop(e.op, self.ev(e.left, env, m), self.ev(e.right, env, m))
        if isinstance(e, A.IfExp): return self.ev(e.body if ex.branch(self.truth(self.ev(e.test, env, m))) else e.orelse, env, m)
        if isinstance(e, A.Dict):
            ks = [self.text(self.ev(x, env, m)) if x is not None else None for x in e.keys]
            if None in ks: self.no("dict key")
            d = {}
            for n, x in zip(ks, e.values): d[n] = self.ev(x, env, m)
            return self.mkdict(tuple(d.items()))
        if isinstance(e, (A.List, A.Tuple)):
            s = Seq()
            for x in e.elts:
                s = s + (self.items(self.ev(x.value, env, m)) if isinstance(x, A.Starred) else Seq([U(self.ev(x, env, m))]))
            return self.mklist(s) if isinstance(e, A.List) else ptuple(s)
        if isinstance(e, (A.ListComp, A.GeneratorExp)):
            if len(e.generators) != 1 or e.generators[0].is_async: self.no("nested comprehension")
            g = e.generators[0]
            inner = dict(env)
            out = ex.temp(Seq(), "mapped")
            def body(el):
                t = dict(inner)
                for n in A.walk(g.target):
                    if isinstance(n, A.Name): t.pop(n.id, None)
                self.assign(g.target, el.get(ex), t, m)
                for c in g.ifs:
                    if not ex.branch(self.truth(self.ev(c, t, m))): return
                out.set(ex, out.get(ex) + Seq([U(self.ev(e.elt, t, m))]))
            self.iterate(self.ev(g.iter, env, m), body)
            return self.mklist(out.get(ex))
        if isinstance(e, A.Subscript):
            o = self.ev(e.value, env, m)
            if isinstance(e.slice, A.Slice):
                if e.slice.step is not None: self.no("slice step")
                s = self.items(o); n = ex.seq_len(s)
                def bound(x, d):
                    if x is None: return d
                    v = self.ev(x, env, m)
                    if not isinstance(v, int): self.no("slice bound")
                    if v < 0: return If(lt(add(n, v), 0), 0, add(n, v)) if not isinstance(n, int) else max(0, n + v)
                    return (min(v, n) if isinstance(n, int) else (v if ex.branch(le(v, n)) else n))
                lo, hi = bound(e.slice.lower, 0), bound(e.slice.upper, n)
                r = ex.seq_slice(s, lo, hi) if ex.branch(le(lo, hi)) else Seq()
                if isinstance(o, Special) and o.kind == "pytuple": return ptuple(r)
                if isinstance(o, Special) and o.kind == "pybytes": return pbytes(r)
                if isinstance(o, Ptr): return self.mklist(r)
                self.no("slice of a string")
            k = self.ev(e.slice, env, m)
            if isinstance(o, Ptr) and o.cls == "py::dict":
                t = self.text(k)
                if t is None: self.no("dict key")
                for n, x in self.dict_items(o):
                    if n == t: return x
                self.throw("KeyError")
            if isinstance(o, (NativeCls, PyCls)): return o          # list[str] in an annotation
            if not isinstance(k, int) or isinstance(k, bool): self.no("index")
            s = self.items(o); n = ex.seq_len(s)
            i = k if k >= 0 else add(n, k)
            if not ex.branch(And(le(0, i), lt(i, n))): self.throw("IndexError")
            return ex.seq_at(s, i)
        if isinstance(e, A.Lambda):
            f = PyFn(e, m); f.env = dict(env); f.kind = "function"
            class _D: pass
            e.decorator_list = []
            return f
        if isinstance(e, A.NamedExpr):
            v = self.ev(e.value, env, m); self.assign(e.target, v, env, m); return v
        if isinstance(e, A.JoinedStr):
            s, esc = Seq(), False
            for x in e.values:
                v = self.ev(x.value if isinstance(x, A.FormattedValue) else x, env, m)
                if isinstance(x, A.FormattedValue) and (x.format_spec is not None or x.conversion != -1): self.no("format")
                v = self.b_str([v], {})
                s, esc = s + v.x[0], esc or v.x[1]
            return pstr(s, esc)
        raise Unsupported("Python " + type(e).__name__)
    def binop(self, op, a, b):
        if isinstance(op, A.Add):
            if isinstance(a, Special) and isinstance(b, Special) and a.kind == b.kind:
                if a.kind == "pystr": return pstr(a.x[0] + b.x[0], a.x[1] or b.x[1])
                if a.kind == "pybytes": return pbytes(a.x[0] + b.x[0])
                if a.kind == "pytuple": return ptuple(a.x[0] + b.x[0])
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.cls == b.cls == "py::list": return self.mklist(self.items(a) + self.items(b))
        num = lambda v: isinstance(v, int) and not isinstance(v, bool) or isz(v) and v.sort() == z3.IntSort()
        if num(a) and num(b):
            if isinstance(op, A.Add): return add(a, b)
            if isinstance(op, A.Sub): return sub(a, b)
            if isinstance(op, A.Mult): return mul(a, b)
        raise Unsupported("Python operator on %r and %r" % (a, b))
    def compare(self, op, a, b):
        if isinstance(op, A.Is): return self.identical(a, b)
        if isinstance(op, A.IsNot): return Not(self.identical(a, b))
        if isinstance(op, A.Eq): return self.equal(a, b)
        if isinstance(op, A.NotEq): return Not(self.equal(a, b))
        if isinstance(op, (A.In, A.NotIn)):
            if isinstance(b, Ptr) and b.cls == "py::dict":
                t = self.text(a)
                if t is None: self.no("membership of a key that is not a literal")
                r = any(n == t for n, _ in self.dict_items(b))
            else:
                c = self.items(b).concrete()
                if c is None: self.no("membership in a list of any length")
                r = False
                for x in c:
                    if self.ex.branch(self.equal(a, x) if not isinstance(a, (PyCls, NativeCls)) else a is x): r = True; break
            return Not(r) if isinstance(op, A.NotIn) else r
        num = lambda v: isinstance(v, int) or isz(v) and v.sort() == z3.IntSort()
        if num(a) and num(b):
            if isinstance(op, A.Lt): return lt(a, b)
            if isinstance(op, A.LtE): return le(a, b)
            if isinstance(op, A.Gt): return lt(b, a)
            if isinstance(op, A.GtE): return le(b, a)
        raise Unsupported("Python comparison of %r and %r" % (a, b))
