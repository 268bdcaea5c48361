"""Contracts for the Python package: what the library writes, the package reads back as the same values (C29).

The library's serialize functions (C++) run in the verifier and produce the map they write; the package's deserialize
functions (Python, from their current source) run on that map.  Contracts: CBOR text becomes str, binary becomes bytes,
numbers and bools themselves (tree-gen); a type is read back from its bytes (tree-gen, cqasm.v3x.types); SWIG hands
the library's strings over as str with undecodable bytes as lone surrogates."""
from .node_util import *
from .resolver_specs import vec, throw
from . import ser_specs as S
from .ser_specs import KINDS, CB, PR, written, pair
from engine.pyexec import *
from engine.unit import REPO
import os

PT = "cqasm.v3x."
NODE = T + "::TypeBase"

def load(): return S.load()

def is_node(v): return isinstance(v, Ptr) and v.cls == NODE
def node_deserialize(py):
    def f(a, k):
        v = a[0]
        if not (isinstance(v, Special) and v.kind == "pybytes"): raise Unsupported("deserialization of %r" % (v,))
        return S.c_deserialize(py.ex, None, None, None, [py.ex.temp(v.x[0], "bytes")])
    return f
def node_attr(py):
    def f(v, k):
        if is_node(v) and k == "serialize":
            c = v.cell
            return Native("serialize", lambda a, kw: pbytes(py.ex.sym_string("bytes of " + c.name, tuple(c.args))))
    return f
def start(ex, **more):
    ext = {}
    py = Py(ex, os.path.join(REPO, "python", "module"), ext)
    ext[PT + "types.Node"] = NativeCls(PT + "types.Node", {"deserialize": Native("deserialize", node_deserialize(py))}, is_node)
    ext["#attr"] = node_attr(py)
    for q in (PT + "types", PT + "ast", PT + "semantic", "libqasm"): py.mods.setdefault(q, PyMod(q))
    return py, ext

def of_cbor(py, item):
    """the Python value of an item written"""
    ex = py.ex
    kind = KINDS[item.f["kind"]]; x = item.f["x"]
    if kind == "string": return pstr(x)
    if kind == "binary": return pbytes(x)
    if kind == "array": return py.mklist(py.mapped(ex.as_seq(ex.load(x.cell)), lambda i: of_cbor(py, i)))
    if kind == "map": raise Unsupported("map inside a map")
    return x
def dict_of(py):
    return py.mkdict(tuple((k.text(), of_cbor(py, i)) for k, i in written(py.ex)))

def deserialized(py, typ, d): return py.call(py.attr_of_module(PT + "primitives", "deserialize"), [typ, d], {})
def typ_of(py, name): return py.attr_of_module(PT + ("instruction" if name == "InstructionRef" else "primitives"), name)

def reads(v, what, pyname, tname, mk, same):
    (us, ds), _ = pair(v, tname)
    L_ = "Python " + what + ": "
    def body(ex):
        py, _ = start(ex)
        lv, w = mk(ex, us)
        try:
            ex.call_fn(us, ds, None, [lv, ex.temp(Obj(CB + "::MapWriter", {}), "map writer")])
            r = deserialized(py, typ_of(py, pyname), dict_of(py))
        except CxxThrow as t:
            ex.oblige(False, L_ + "is written and read without an exception (%s)" % t.cls); return
        same(py, r, w, L_)
    v.scenario("Python reads " + what, body)

def again(v, what, pyname, mk, same):
    """serialize and deserialize of the package itself"""
    L_ = "Python to Python " + what + ": "
    def body(ex):
        py, _ = start(ex)
        x, w = mk(py)
        try:
            d = py.call(py.attr_of_module(PT + "primitives", "serialize"), [typ_of(py, pyname), x], {})
            r = deserialized(py, typ_of(py, pyname), d)
        except CxxThrow as t:
            ex.oblige(False, L_ + "is written and read without an exception (%s)" % t.cls); return
        same(py, r, w, L_)
    v.scenario("Python writes and reads " + what, body)

def kind_is(py, r, k): return isinstance(r, Special) and r.kind == k
def same_str(py, r, w, L_):
    py.ex.oblige(kind_is(py, r, "pystr"), L_ + "becomes a str")
    if kind_is(py, r, "pystr"): py.ex.prove_seq_eq(r.x[0], w, L_ + "the text is the one written")
def same_of(cls):
    def same(py, r, w, L_):
        ex = py.ex
        ok = py.B[cls].inst(r) and not (cls == "int" and (isinstance(r, bool) or isz(r) and z3.is_bool(r)))
        ex.oblige(ok, L_ + "becomes a " + cls)
        if ok: ex.oblige(ex.veq(r, w) if cls != "float" else simp(r == w) if isz(r) and isz(w) else r is w, L_ + "the value is the one written")
    return same
def same_version(py, r, w, L_):
    ok = isinstance(r, Special) and r.kind == "pytuple" and r.x[1].endswith("primitives.Version")
    py.ex.oblige(ok, L_ + "becomes a Version")
    if ok: py.ex.prove_seq_eq(r.x[0], w, L_ + "the components are those written, in order")
def same_ref(py, r, name, types, empty, L_):
    ex = py.ex
    ok = isinstance(r, Ptr) and isinstance(r.cls, PyCls) and r.cls.name == "InstructionRef"
    ex.oblige(ok, L_ + "becomes an InstructionRef")
    if not ok: return
    d = py.getattr(r, "data")
    none = isinstance(d, Special) and d.kind == "pynone"
    if empty: return ex.oblige(none, L_ + "one that refers to nothing stays so")
    ex.oblige(not none, L_ + "one that refers to an instruction stays so")
    if none: return
    n, ts = py.getattr(d, "name"), py.getattr(d, "types")
    same_str(py, n, name, L_ + "name: ")
    ex.prove_seq_eq(py.items(ts), types, L_ + "the operand types are those written, in order")

FRONT = (("parse_file", "ast.Root", False), ("parse_string", "ast.Root", False), ("analyze_file", "semantic.Program", True), ("analyze_string", "semantic.Program", True))

def front(v, name, root, method, nargs):
    """the front ends of the package: the tree of the bytes the library returns, or every error"""
    L_ = "Python Analyzer.%s: " % name
    json = name.endswith("_json")
    def body(ex):
        py, ext = start(ex)
        calls, trees = [], []
        ok = z3.Bool("the text is accepted"); ex.inputs["the text is accepted"] = ok
        data = ex.sym_string("serialized tree")
        errs = ex.sym_list("error", (), lambda e, n, a: pstr(e.sym_string(n + ".text", tuple(a)), True))
        n = ex.seq_len(errs)
        answer = pstr(ex.sym_string("json"), True)
        def lib(which):
            def f(a, k):
                if k: raise Unsupported("keyword argument of a SWIG method")
                calls.append((which, list(a)))
                if which.endswith("_json"): return answer
                if ex.branch(ok): return ptuple([pstr(data, True)])
                ex.assume(le(1, n))
                return ptuple(Seq([U(pstr(""))]) + errs)
            return f
        ext["libqasm.V3xAnalyzer"] = NativeCls("libqasm.V3xAnalyzer", {q + s: Native(q + s, lib(q + s)) for q in ("parse_file", "parse_string", "analyze_file", "analyze_string") for s in ("", "_to_json")}, lambda v_: False)
        def tree(which):
            def f(a, k):
                if not (len(a) == 1 and isinstance(a[0], Special) and a[0].kind == "pybytes"): py.throw("TypeError")
                p = Ptr(ex.newcell(Obj("py::tree", {}), "tree"), False, "py::tree")
                trees.append((which, a[0].x[0], p))
                return p
            return f
        for q in ("ast.Root", "semantic.Program", "ast.Program", "semantic.Root"):
            ext[PT + q] = NativeCls(PT + q, {"deserialize": Native("deserialize", tree(q))}, lambda v_: isinstance(v_, Ptr) and v_.cls == "py::tree")
        C = py.attr_of_module("cqasm.v3x", "Analyzer")
        args = [pstr(ex.sym_string("argument %d" % i)) for i in range(nargs)]
        try:
            if method:
                me = Ptr(ex.newcell(Obj("py::" + C.q, {}), "analyzer"), False, C)
                r = py.call(py.getattr(me, name), args, {})
            else: r = py.call(py.getattr(C, name), args, {})
        except CxxThrow as t:
            ex.oblige(False, L_ + "raises nothing of its own (%s)" % t.cls); return
        good = len(calls) == 1 and calls[0][0] == name and len(calls[0][1]) == nargs
        ex.oblige(good, L_ + "the method of that name of the library is called once with the same arguments")
        if good:
            for i, (a, b) in enumerate(zip(calls[0][1], args)):
                k = isinstance(a, Special) and a.kind == "pystr"
                ex.oblige(k, L_ + "the arguments are passed on")
                if k: ex.prove_seq_eq(a.x[0], b.x[0], L_ + "the arguments are passed on")
        if json:
            k = isinstance(r, Special) and r.kind == "pystr"
            ex.oblige(k, L_ + "yields the JSON text of the library")
            if k: ex.prove_seq_eq(r.x[0], answer.x[0], L_ + "yields the JSON text of the library")
            return
        if ex.branch(ok):
            good = len(trees) == 1 and r is trees[0][2] if trees else False
            ex.oblige(good, L_ + "an accepted text yields the tree read")
            if good:
                ex.oblige(trees[0][0] == root, L_ + "the tree is read as a " + root)
                ex.prove_seq_eq(trees[0][1], data, L_ + "the tree is read from the bytes the library wrote")
        else:
            good = isinstance(r, Ptr) and r.cls == "py::list"
            ex.oblige(good and not trees, L_ + "a rejected text yields a list of errors")
            if good: ex.prove_seq_eq(py.items(r), errs, L_ + "every error is listed, in order")
    v.scenario(L_[:-2] + " with %d arguments" % nargs, body)

def run_C29(v):
    v.contracts = dict(S.CON)
    def simple(sym):
        def mk(ex, unit):
            x = sym(ex); ex.inputs["value"] = x
            return ex.temp(x), x
        return mk
    def i64(ex):
        x = z3.Int("int"); ex.assume(And(le(-(1 << 63), x), lt(x, 1 << 63))); return x
    STR = "std::basic_string<char, std::char_traits<char>, std::allocator<char>>"
    v.part(reads, "string", "Str", STR, simple(lambda ex: ex.sym_string("text")), same_str)
    v.part(reads, "bool", "Bool", "bool", simple(lambda ex: z3.Bool("bool")), same_of("bool"))
    v.part(reads, "int", "Int", "long", simple(i64), same_of("int"))
    v.part(reads, "float", "Float", "double", simple(lambda ex: z3.Const("double", z3.Float64())), same_of("float"))
    def components(ex): return ex.sym_list("component", (), lambda e, n, a: e.sym_int(n, a, -(1 << 63), (1 << 63) - 1))
    def ver_mk(ex, unit):
        x = components(ex)
        return ex.temp(x, "version"), x
    v.part(reads, "Version", "Version", "cqasm::version::Version", ver_mk, same_version)
    I = "cqasm::v3x::instruction::Instruction"
    def ref_mk(ex, unit):
        p = Ptr(Cell("ref", (), I), z3.Bool("refers to nothing"), I)
        ex.inputs["refers to nothing"] = p.null
        return ex.temp(p, "reference"), p
    def ref_same(py, r, w, L_):
        ex = py.ex
        if ex.branch(w.null): return same_ref(py, r, None, None, True, L_)
        o = node(ex, w)
        same_ref(py, r, ex.as_seq(ex.rv(ex.field(o, "name"))), vec(ex, ex.field(o, "operand_types")), False, L_)
    v.part(reads, "instruction reference", "InstructionRef", "tree::base::Maybe<%s>" % I, ref_mk, ref_same)
    # the package's own writing and reading
    def self_mk(wrap, sym):
        def mk(py):
            x = sym(py.ex); return wrap(x), x
        return mk
    v.part(again, "string", "Str", self_mk(pstr, lambda ex: ex.sym_string("text")), same_str)
    v.part(again, "bool", "Bool", self_mk(lambda x: x, lambda ex: z3.Bool("bool")), same_of("bool"))
    v.part(again, "int", "Int", self_mk(lambda x: x, i64), same_of("int"))
    v.part(again, "float", "Float", self_mk(lambda x: x, lambda ex: z3.Const("double", z3.Float64())), same_of("float"))
    def pver(py):
        x = components(py.ex)
        return py.call(typ_of(py, "Version"), [py.mklist(x)], {}), x
    v.part(again, "Version", "Version", pver, same_version)
    def types_(ex): return ex.sym_list("type", (), lambda e, n, a: Ptr(Cell(n, tuple(a), NODE), False, NODE), NODE)
    def pref(py):
        n, ts = py.ex.sym_string("name"), types_(py.ex)
        return py.call(typ_of(py, "InstructionRef"), [pstr(n), py.mklist(ts)], {}), (n, ts)
    v.part(again, "instruction reference", "InstructionRef", pref, lambda py, r, w, L_: same_ref(py, r, w[0], w[1], False, L_))
    v.part(again, "empty instruction reference", "InstructionRef", lambda py: (py.call(typ_of(py, "InstructionRef"), [], {}), None), lambda py, r, w, L_: same_ref(py, r, None, None, True, L_))
    for name, root, method in FRONT:
        for n in (1, 2): v.part(front, name, root, method, n)
        v.part(front, name + "_to_json", None, method, 2 if "string" in name else 1)
