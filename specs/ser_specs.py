"""Contracts for reading back what was written: primitives, instruction and function references (C25).

Writing to a MapWriter of tree-gen is a contract: it maps a key to an item of a kind (bool, int, float, string, binary or
array) with the value given.  Reading is its inverse: the item of that key, if it is of the kind asked for; an exception
otherwise.  serialize and deserialize of whole trees are contracts too (tree-gen): a tree is read back equal."""
from .node_util import *
from .resolver_specs import vec, throw
from engine.lib_nodes import seq_equal, ptr_equal

PR, CB = "cqasm::v3x::primitives", "tree::cbor"
KINDS = ("bool", "int", "float", "string", "binary", "array", "map")

def load():
    p = Program()
    for f in ("src/v3x/primitives.cpp", "src/v3x/instruction.cpp", "src/v3x/core_function.cpp", "src/version.cpp"): p.load(f, standin=True)
    return p

def key_of(ex, a):
    s = ex.as_seq(ex.rv(a)); t = s.text()
    if t is None: raise Unsupported("key that is not a literal")
    return s
def item(kind, x): return Obj(CB + "::Reader", {"kind": KINDS.index(kind), "x": x})
def written(ex): return ex.store.get("written#0", ())
def c_put(kind):
    def put(ex, unit, d, this, args):
        k = key_of(ex, args[0])
        x = ex.copy_in(ex.rv(args[1]))
        if kind in ("string", "binary"): x = ex.as_seq(x)
        ex.store["written#0"] = written(ex) + ((k, item(kind, x)),)
        return UNIT
    return put
def c_array(ex, unit, d, this, args):
    k = key_of(ex, args[0])
    p = Ptr(ex.newcell(Seq(), "array#0"), False, "array")
    ex.store["written#0"] = written(ex) + ((k, item("array", p)),)
    return Obj(CB + "::ArrayWriter", {"to": p})
def c_add(kind):
    def put(ex, unit, d, this, args):
        lv = CellLV(this.get(ex).f["to"].cell)
        x = ex.copy_in(ex.rv(args[0]))
        if kind in ("string", "binary"): x = ex.as_seq(x)
        lv.set(ex, lv.get(ex) + Seq([U(item(kind, x))]))
        return UNIT
    return put
def c_get(kind):
    def get_(ex, unit, d, this, args):
        o = this.get(ex)
        if ex.branch(Not(eq(o.f["kind"], KINDS.index(kind)))): throw(ex, "std::runtime_error", "unexpected item")
        return o.f["x"]
    return get_
def c_get_array(ex, unit, d, this, args):
    o = this.get(ex)
    if ex.branch(Not(eq(o.f["kind"], KINDS.index("array")))): throw(ex, "std::runtime_error", "unexpected item")
    return ex.load(o.f["x"].cell)
def c_serialize(ex, unit, d, this, args):
    """tree::base::serialize: a byte string for each tree"""
    o = node(ex, ex.rv(args[0]))
    i = o.f["#sym"] if isinstance(o, Obj) and "#sym" in o.f else o
    if not isinstance(i, SymRef): raise Unsupported("serialization of %r" % (o,))
    return ex.sym_string("bytes of " + i.name, tuple(i.args))
def c_deserialize(ex, unit, d, this, args):
    """tree::base::deserialize: the tree whose bytes these are"""
    s = ex.as_seq(ex.rv(args[0]))
    if len(s.atoms) != 1 or not isinstance(s.atoms[0], SL) or not s.atoms[0].base.name.startswith("bytes of "): raise Unsupported("deserialization of %r" % (s,))
    b = s.atoms[0].base
    ex.prove_seq_eq(s, ex.sym_string(b.name, tuple(b.args)), "all bytes of a tree are read")
    return Ptr(Cell(b.name[9:], tuple(b.args), T + "::TypeBase"), False, T + "::TypeBase")
CON = {CB + "::MapWriter::append_" + k: c_put(k) for k in KINDS[:5]}
CON.update({CB + "::ArrayWriter::append_" + k: c_add(k) for k in KINDS[:5]})
CON.update({CB + "::Reader::as_" + k: c_get(k) for k in KINDS[:5]})
CON.update({CB + "::MapWriter::append_array": c_array, CB + "::Reader::as_array": c_get_array, CB + "::ArrayWriter::close": lambda ex, unit, d, this, args: UNIT,
            "tree::base::serialize": c_serialize, "tree::base::deserialize": c_deserialize})

def pair(v, tname, rname=None):
    """(serialize of that type, deserialize of that type)"""
    name = lambda u, t: u.ty(u.strip(t)).get("s", "").replace("const ", "").replace(" &", "").strip()
    s = v.prog.find(PR + "::serialize", lambda u, d: name(u, d["ps"][0]["t"]) == tname)
    r = v.prog.find(PR + "::deserialize", lambda u, d: name(u, d["ret"]) == tname)
    return s, r

def round_trip(v, what, tname, mk, same):
    (us, ds), (ur, dr) = pair(v, tname)
    L_ = what + ": "
    def body(ex):
        lv, w = mk(ex, us)
        try:
            ex.call_fn(us, ds, None, [lv, ex.temp(Obj(CB + "::MapWriter", {}), "map writer")])
            ks = [k.text() for k, _ in written(ex)]
            ex.oblige(len(set(ks)) == len(ks), L_ + "each key is written once")
            m = Special("map", (None, written(ex)))
            r = ex.call_fn(ur, dr, None, [ex.temp(m, "map reader")])
        except CxxThrow as t:
            ex.oblige(False, L_ + "is written and read without an exception"); return
        same(ex, r, w, L_)
    v.scenario(what, body)

def run_C25(v):
    v.contracts = dict(CON)
    def simple(sym):
        def mk(ex, unit):
            x = sym(ex); ex.inputs["value"] = x
            return ex.temp(x), x
        return mk
    def equal(ex, r, w, L_): ex.oblige(ex.veq(ex.rv(r), w), L_ + "is read back equal")
    def equal_seq(ex, r, w, L_): ex.prove_seq_eq(ex.as_seq(ex.rv(r)), w, L_ + "is read back equal")
    def i64(ex):
        x = z3.Int("int"); ex.assume(And(le(-(1 << 63), x), lt(x, 1 << 63))); return x
    v.part(round_trip, "string", "std::basic_string<char, std::char_traits<char>, std::allocator<char>>", simple(lambda ex: ex.sym_string("text")), equal_seq)
    v.part(round_trip, "bool", "bool", simple(lambda ex: z3.Bool("bool")), equal)
    v.part(round_trip, "int", "long", simple(i64), equal)
    def same_double(a, b): return simp(a == b) if isz(a) and isz(b) else a is b     # bit for bit: a NaN equals itself
    dbl = lambda n: z3.Const(n, z3.Float64())
    v.part(round_trip, "double", "double", simple(lambda ex: dbl("double")), lambda ex, r, w, L_: ex.oblige(same_double(ex.rv(r), w), L_ + "is read back equal"))
    def axis_mk(ex, unit):
        o = Obj(PR + "::Axis", {c: dbl("axis " + c) for c in "xyz"}); return ex.temp(o), o
    def axis_same(ex, r, w, L_):
        r = ex.rv(r)
        for c in "xyz": ex.oblige(same_double(ex.rv(ex.field(r, c)), w.f[c]), L_ + c + " is read back equal")
    v.part(round_trip, "Axis", PR + "::Axis", axis_mk, axis_same)
    CX = "std::complex"
    v.contracts.update({CX + "::real": lambda ex, unit, d, this, args: this.get(ex).f["re"], CX + "::imag": lambda ex, unit, d, this, args: this.get(ex).f["im"],
                        CX + "::(ctor)": lambda ex, unit, d, this, args: Obj(CX, {"re": ex.rv(args[0]), "im": ex.rv(args[1])}) if len(args) == 2 else NotImplemented,
                        CX + "::complex": lambda ex, unit, d, this, args: Obj(CX, {"re": ex.rv(args[0]), "im": ex.rv(args[1])}) if len(args) == 2 else NotImplemented})
    def cx_mk(ex, unit):
        o = Obj(CX, {"re": dbl("real part"), "im": dbl("imaginary part")}); return ex.temp(o), o
    def cx_same(ex, r, w, L_):
        r = ex.rv(r)
        for c in ("re", "im"): ex.oblige(same_double(r.f[c], w.f[c]), L_ + ("real" if c == "re" else "imaginary") + " part is read back equal")
    v.part(round_trip, "complex", "std::complex<double>", cx_mk, cx_same)
    VER = "cqasm::version::Version"
    def ver_mk(ex, unit):
        x = ex.sym_list("component", (), lambda e, n, a: e.sym_int(n, a, -(1 << 63), (1 << 63) - 1))
        return ex.temp(x, "version"), x
    v.part(round_trip, "Version", VER, ver_mk, equal_seq)
    # references: to nothing, or to an instruction or function of any name and operand types
    def ref(cls, lst, single):
        def mk(ex, unit):
            p = Ptr(Cell("ref", (), cls), z3.Bool("refers to nothing"), cls)
            ex.inputs["refers to nothing"] = p.null
            return ex.temp(p, "reference"), p
        def same(ex, r, w, L_):
            r = ex.rv(r)
            if ex.branch(w.null): return ex.oblige(null(r), L_ + "one that refers to nothing is read back as such")
            ex.oblige(Not(null(r)), L_ + "one that refers to something is read back as such")
            if r.cell is None or r.null is True: return
            a, b = node(ex, r), node(ex, w)
            ex.prove_seq_eq(ex.as_seq(ex.rv(ex.field(a, "name"))), ex.as_seq(ex.rv(ex.field(b, "name"))), L_ + "the name is read back equal")
            x, y = vec(ex, ex.field(a, lst)), vec(ex, ex.field(b, lst))
            ex.prove_seq_eq(x, y, L_ + "the operand types are read back equal")
            if single: ex.oblige(ptr_same(ex, ex.rv(ex.field(a, single)), ex.rv(ex.field(b, single))), L_ + "the return type is read back equal")
        return mk, same
    from .resolver_specs import ptr_same
    I, F = "cqasm::v3x::instruction::Instruction", "cqasm::v3x::function::CoreFunction"
    def equality(v, what, cls, lst, single):
        """what "equal" means for an instruction or a function: the name, the types and, for a function, the type returned"""
        unit, d = v.prog.find(cls + "::operator==")
        L_ = what + ": two are equal exactly if their names and types are"
        def body(ex):
            a, b = Ptr(Cell("one", (), cls), False, cls), Ptr(Cell("other", (), cls), False, cls)
            r = ex.call_fn(unit, d, CellLV(a.cell), [CellLV(b.cell)])
            x, y = node(ex, a), node(ex, b)
            names = [ex.as_seq(ex.rv(ex.field(n, "name"))) for n in (x, y)]
            want = And(ex.veq(*names), seq_equal(ex, vec(ex, ex.field(x, lst)), vec(ex, ex.field(y, lst))))
            if single: want = And(want, ptr_equal(ex, ex.rv(ex.field(x, single)), ex.rv(ex.field(y, single))))
            ex.oblige(eq(ex.rv(r), want), L_)
        v.scenario(what, body)
    v.part(equality, "instructions", I, "operand_types", None)
    v.part(equality, "functions", F, "param_types", "return_type")
    v.part(round_trip, "instruction reference", "tree::base::Maybe<%s>" % I, *ref(I, "operand_types", None))
    v.part(round_trip, "function reference", "tree::base::Maybe<%s>" % F, *ref(F, "param_types", "return_type"))
