"""Contracts for src/v3x/instruction_set.cpp and register_instructions.cpp (C16, C17)."""
from .node_util import *

I = "cqasm::v3x::instruction"
IS = I + "::InstructionSet"
ANALYSIS = ERR   # AnalysisError is an alias

def load():
    p = Program()
    for f in ("src/v3x/analyzer.cpp", "src/v3x/instruction_set.cpp", "src/v3x/register_instructions.cpp", "src/v3x/instruction.cpp", "src/v3x/types.cpp"): p.load(f, standin=True)
    return p

class Table:
    """the instance built by the real constructor, and its rows"""
    def __init__(self, ex, v):
        self.ex, self.v = ex, v
        self.lv = ex.lvof(self.call("get_instance", static=True))
        table = lambda f: ex.rv(self.call("get_" + f)).x[1]
        rows = lambda f: [(k, x.a, x.b) for k, x in table(f)]
        self.gates, self.nongates = rows("named_gate_map"), rows("non_gate_map")
        self.mods = [(k, x) for k, x in table("gate_modifier_map")]
        self.lists = {f: [x for x, *_ in table(f + "_list")] for f in ("single_qubit_named_gate", "two_qubit_named_gate", "non_gate")}
    def call(self, f, *args, static=False):
        unit, d = self.v.prog.find(IS + "::" + f)
        return self.ex.run_function(unit, d, None if static else self.lv, [self.ex.temp(a) for a in args])
    def flag(self, f, n): return simp(bz(self.ex.truth(self.ex.rv(self.call(f, n)))))
    def among(self, names, n): return simp(Or(*[self.ex.seq_eq_cond(k, n) for k in {repr(k): k for k in names}.values()]))

def lets(o): return 0 if o.has is False else len(o.v.atoms)

def opt_same(ex, a, b):
    """Bool: the optional strings are equal"""
    if a.has is False or b.has is False: return simp(And(Not(a.has), Not(b.has)))
    return simp(Or(And(Not(a.has), Not(b.has)), And(a.has, b.has, ex.seq_eq_cond(a.v, b.v))))

def classes(v):
    def body(ex):
        t = Table(ex, v)
        n = ex.sym_string("name"); ex.inputs["name"] = n
        G, N, M = t.among([r[0] for r in t.gates], n), t.among([r[0] for r in t.nongates], n), t.among([r[0] for r in t.mods], n)
        f = lambda x: t.flag(x, n)
        one, two, non, named = f("is_single_qubit_named_gate"), f("is_two_qubit_named_gate"), f("is_non_gate"), f("is_named_gate")
        B = lambda c: simp(c)
        iff = lambda a, b: simp(bz(a) == bz(b))
        ex.oblige(B(Implies(Or(one, two), G)), "only named gates of the table are single- or two-qubit named gates")
        ex.oblige(B(Implies(G, Or(one, two))), "every named gate of the table is a single- or a two-qubit gate")
        ex.oblige(iff(non, N), "the non-gates are exactly those of the table")
        ex.oblige(B(Not(Or(And(one, two), And(one, non), And(two, non)))), "no name is in two classes")
        ex.oblige(iff(named, Or(one, two)), "a named gate is a single- or two-qubit named gate")
        inv, pw, ct = f("is_inv_gate_modifier"), f("is_pow_gate_modifier"), f("is_ctrl_gate_modifier")
        lit = lambda s: ex.seq_eq_cond(Seq.lit(s), n)
        ex.oblige(And(iff(inv, lit("inv")), iff(pw, lit("pow")), iff(ct, lit("ctrl"))), "each modifier is recognised by its own name only")
        ex.oblige(iff(f("is_gate_modifier"), Or(lit("inv"), lit("pow"), lit("ctrl"))), "the modifiers are exactly inv, pow and ctrl")
        ex.oblige(iff(M, Or(lit("inv"), lit("pow"), lit("ctrl"))), "the modifier table has exactly inv, pow and ctrl")
        ex.oblige(iff(f("is_single_qubit_gate_modifier"), Or(lit("inv"), lit("pow"))), "inv and pow keep the number of qubits")
        ex.oblige(iff(f("is_two_qubit_gate_modifier"), lit("ctrl")), "ctrl adds a qubit")
        ex.oblige(B(Implies(M, Not(Or(G, N)))), "a modifier is never an instruction of the table")
        for l, w in (("single_qubit_named_gate", one), ("two_qubit_named_gate", two), ("non_gate", non)):
            ex.oblige(iff(t.among(t.lists[l], n), w), "the list of %ss has exactly the names recognised as such" % l.replace("_", " "))
        c1, c2 = f("is_single_qubit_gate_composition"), f("is_two_qubit_gate_composition")
        ex.oblige(B(Not(And(c1, c2))), "a composition is a single- or a two-qubit gate, not both")
        ex.oblige(B(Implies(Or(c1, c2), Not(Or(G, N, M)))), "a composition is never a name of the table")
        ex.oblige(iff(f("is_gate_composition"), Or(c1, c2)), "a gate composition is a single- or two-qubit one")
        ex.oblige(iff(f("is_single_qubit_gate"), Or(one, c1)), "single-qubit gates are the named and the composed ones")
        ex.oblige(iff(f("is_two_qubit_gate"), Or(two, c2)), "two-qubit gates are the named and the composed ones")
        ex.oblige(iff(f("is_gate"), Or(one, two, c1, c2)), "gates are the named and the composed ones")
        for w in ("measure", "reset", "init", "barrier", "wait"):
            ex.oblige(iff(f("is_" + w), lit(w)), "is_%s recognises exactly that name" % w)
            ex.oblige(t.among([r[0] for r in t.nongates], Seq.lit(w)), "%s is a non-gate of the table" % w)
        for name, params, ops in t.gates:
            k = lets(ops)
            ex.oblige(iff(t.flag("is_single_qubit_named_gate", name), k == 1), "a named gate is single-qubit exactly if its rows have one operand")
            ex.oblige(iff(t.flag("is_two_qubit_named_gate", name), k == 2), "a named gate is two-qubit exactly if its rows have two operands")
    v.scenario("classification of any name", body)

def lookups(v):
    def lookup(fname, rows_of, cls, extra=False):
        unit, d = v.prog.find(IS + "::" + fname)
        def body(ex):
            t = Table(ex, v)
            n = ex.sym_string("name"); ex.inputs["name"] = n
            rows = rows_of(t)
            if extra:
                c = ex.sym_int("count", (), 0, (1 << 64) - 1); ex.inputs["count"] = c
            try: r = ex.rv(t.call(fname, n, c) if extra else t.call(fname, n))
            except CxxThrow as x:
                ex.oblige(not extra and x.cls == ANALYSIS, fname + ": only an analysis error is raised")
                ex.oblige(Not(t.among([q[0] for q in rows], n)), fname + ": only unknown names are rejected")
                return
            if extra:
                hit = simp(Or(*[And(ex.seq_eq_cond(k, n), eq(c, lets(p))) for k, p in rows]))
                if not ex.branch(hit):
                    ex.oblige(Not(r.has), fname + ": nothing for a name or count without a row")
                    return
                ex.oblige(simp(Or(*[And(ex.seq_eq_cond(k, n), eq(c, lets(p)), opt_same(ex, r, p)) for k, p in rows])), fname + ": the parameter types of a row of that name with that count")
            else:
                ex.oblige(t.among([q[0] for q in rows], n), fname + ": unknown names are rejected")
                ex.oblige(simp(Or(*[And(ex.seq_eq_cond(k, n), opt_same(ex, r, p)) for k, p in rows])), fname + ": the parameter types of a row of that name")
        v.scenario("InstructionSet::" + fname, body)
    G = lambda t: [(k, p) for k, p, o in t.gates]
    N = lambda t: [(k, p) for k, p, o in t.nongates]
    M = lambda t: t.mods
    lookup("get_named_gate_param_types", G, ANALYSIS)
    lookup("get_non_gate_param_types", N, ANALYSIS)
    lookup("get_gate_modifier_param_types", M, ANALYSIS)
    lookup("get_instruction_param_types", lambda t: G(t) + N(t) + M(t), ANALYSIS)
    lookup("get_non_gate_param_types_with_param_count", N, ANALYSIS, True)

# ---- C17: registration of the default instruction set -------------------------------------------
AN = "cqasm::v3x::analyzer::Analyzer"
ONE = ("H", "I", "X", "X90", "mX90", "Y", "Y90", "mY90", "Z", "Z90", "mZ90", "S", "Sdag", "T", "Tdag", "Rx", "Ry", "Rz", "Rn", "U")
TWO = ("CNOT", "CZ", "CR", "CRk", "SWAP")
NON = {"measure": ("BQ", "WV", "BV", "WQ"), "reset": ("Q", "V"), "init": ("Q", "V"), "barrier": ("Q", "V"), "wait": ("Q", "V")}
PARAMS = {"Rx": "f", "Ry": "f", "Rz": "f", "Rn": "fffff", "U": "fff", "CR": "f", "CRk": "i", "wait": "i"}
LETTER = dict(Q="Qubit", B="Bit", b="Bool", i="Int", f="Float", V="QubitArray", W="BitArray")

def standard():
    """cQASM 3.0: name -> operand type lists (specification, independent of the table under test)"""
    out = set()
    for n in ONE:
        for o in "QV":
            out |= {(n, o), ("1q_" + n, o), ("2q_" + n, "Q" + o), ("2q_" + n, "V" + o)}
    for n in TWO: out |= {(n, a + b) for a in "QV" for b in "QV"}
    for n, os_ in NON.items(): out |= {(n, o) for o in os_}
    return out

def recorder(ex, unit, d, this, args):
    """Analyzer::register_instruction(name, operand types): what was registered, in order"""
    if len(args) != 2: return NotImplemented
    n, o = ex.as_seq(ex.rv(args[0])), ex.rv(args[1])
    if o.has is not True and o.has is not False: raise Unsupported("registration with an undetermined operand list")
    ops = Seq() if o.has is False else ex.as_seq(o.v)
    if n.text() is None or ops.text() is None: raise Unsupported("registration of an undetermined name")
    ex.store["recorded#0"] = ex.store.get("recorded#0", ()) + ((n.text(), ops.text()),)
    return UNIT

def registration(v):
    unit, d = v.prog.find(I + "::register_instructions")
    def setup(ex): return None, [ex.temp(Ptr(Cell("analyzer", (), AN), False, AN))], None
    def post(ex, r, c):
        got, want = set(ex.store.get("recorded#0", ())), standard()
        for n in sorted({n for n, o in got | want}):
            g, w = {o for m, o in got if m == n}, {o for m, o in want if m == n}
            ex.oblige(g == w, "%s is registered with exactly its operand type lists" % n if w else "nothing but the standard set is registered (%s)" % n)
    v.contract("register_instructions", unit, d, setup, post)

def table_params(v):
    """parameter lists of the standard set, as the table states them"""
    def body(ex):
        t = Table(ex, v)
        got = {(k.text(), "" if p.has is False else ex.as_seq(p.v).text()) for k, p, o in t.gates + t.nongates}
        want = {(n, PARAMS.get(n, "")) for n in ONE + TWO + tuple(NON)} | {("measure", "fff")}
        for n in sorted({n for n, o in got | want}):
            ex.oblige({p for m, p in got if m == n} == {p for m, p in want if m == n}, "%s has its parameter types in the table" % n)
        ex.oblige({(k.text(), "" if p.has is False else ex.as_seq(p.v).text()) for k, p in t.mods} == {("inv", ""), ("ctrl", ""), ("pow", "f")}, "pow takes one float, inv and ctrl nothing")
    v.scenario("parameter types of the standard set", body)

def letter_tag(c): 
    t = -1
    for l, n in LETTER.items(): t = If(eq(c, ord(l)), tt(n), t)
    return t
def is_letter(c): return Or(*[eq(c, ord(l)) for l in LETTER])

def from_spec(v):
    q = T + "::from_spec"
    u1, d1 = v.prog.find(q, lambda u, d: len(d["ps"]) == 1 and u.ty(u.strip(d["ps"][0]["t"]))["k"] != "rec")
    u2, d2 = v.prog.find(q, lambda u, d: u.ty(u.strip(d["ps"][0]["t"])).get("n") == "std::basic_string")
    def setup(ex):
        c = ex.sym_int("letter", (), -128, 127); ex.inputs["letter"] = c
        return None, [ex.temp(c)], c
    def post(ex, r, c):
        r = ex.rv(r)
        ex.oblige(is_letter(c), "from_spec: an unknown type letter is rejected")
        ex.oblige(Not(null(r)), "from_spec: yields a type")
        ex.oblige(eq(tag(ex, r), letter_tag(c)), "from_spec: the type the letter stands for")
    def thrown(ex, t, c): ex.oblige(Not(is_letter(c)), "from_spec: every type letter is accepted")
    v.contract("types::from_spec(letter)", u1, d1, setup, post, thrown)
    def one(ex, unit, d, this, args):
        if d is not d1 and unit.ty(unit.strip(d["ps"][0]["t"]))["k"] == "rec": return NotImplemented
        c = ex.rv(args[0])
        if not ex.branch(is_letter(c)):
            from engine.lib_std import throw_std
            throw_std(ex, "std::invalid_argument")
        p = Ptr(Cell("lettertype", (c,), T + "::TypeBase"), False, T + "::TypeBase")
        ex.add_fact(simp(bz(eq(tag(ex, p), letter_tag(c)))))
        return p
    def setup2(ex):
        s = ex.sym_string("spec"); ex.inputs["spec"] = s
        return None, [ex.temp(s)], s
    def post2(ex, r, s):
        r = ex.rv(r)
        r = r.f["#std::vector"] if isinstance(r, Obj) else r
        n = ex.seq_len(s)
        ex.oblige(eq(ex.seq_len(r), n), "from_spec: one type per letter")
        i = ex.sym_int("i", (), 0, MAXLEN)
        if not ex.branch(lt(i, n)): return
        p = ex.seq_at(r, i)
        ex.oblige(eq(tag(ex, p), letter_tag(ex.seq_at(s, i))), "from_spec: each type is that of its letter, in order")
    def thrown2(ex, t, s):
        pass
    saved = v.contracts
    v.contracts = dict(saved, **{q: one})
    v.contract("types::from_spec(letters)", u2, d2, setup2, post2, thrown2)
    v.contracts = saved

def analyzer_layer(v):
    """Analyzer::register_instruction: the instruction goes into the current scope's table, with types from its letters"""
    from .scope_specs import analyzer, AN, R
    from .resolver_specs import vec
    def one(ex, unit, d, this, args):
        ex.store["added#0"] = ex.store.get("added#0", ()) + ((this.get(ex), ex.rv(args[0])),)
        return UNIT
    def spec(ex, unit, d, this, args):
        ty = unit.ty(unit.strip(d["ps"][0]["t"]))
        if ty.get("n") != "std::basic_string": return NotImplemented
        s = ex.as_seq(ex.rv(args[0]))
        return Seq([OP("types from letters", [s], ex.sym_int("fslen!%d" % ex.fresh_id(), (), 0, MAXLEN))]) if not ex.branch(ex.empty(s)) else Seq()
    saved = v.contracts
    v.contracts = dict(saved, **{R + "::InstructionTable::add": one, T + "::from_spec": spec})
    unit, d = v.prog.find(AN + "::register_instruction", lambda u, d: len(d["ps"]) == 2)
    def setup(ex):
        this, st = analyzer(ex)
        n = ex.sym_string("name"); o = ex.sym(unit, unit.strip(d["ps"][1]["t"]), "operands", ())
        ex.inputs["name"] = n
        return this, [ex.temp(n), ex.temp(o)], (this, st, n, o)
    def post(ex, r, c):
        this, st, n, o = c
        rec = ex.store.get("added#0", ())
        ex.oblige(len(rec) == 1, "register_instruction: adds one instruction")
        if len(rec) != 1: return
        t, i = rec[0]
        ex.oblige(repr(t) == repr(ex.field(ex.seq_at(st, 0), "instruction_table")), "register_instruction: to the table of the current scope")
        ex.prove_seq_eq(ex.as_seq(ex.field(i, "name")), n, "register_instruction: under the given name")
        ts = vec(ex, ex.field(i, "operand_types"))
        if ex.branch(And(o.has, Not(ex.empty(ex.as_seq(o.v))))):
            ex.oblige(len(ts.atoms) == 1 and isinstance(ts.atoms[0], OP) and ts.atoms[0].name == "types from letters", "register_instruction: operand types from the letters")
            if len(ts.atoms) == 1 and isinstance(ts.atoms[0], OP): ex.prove_seq_eq(ts.atoms[0].args[0], ex.as_seq(o.v), "register_instruction: all letters given, in order")
        else: ex.oblige(ex.empty(ts), "register_instruction: no operands without letters")
    v.contract("Analyzer::register_instruction", unit, d, setup, post)
    v.contracts = saved

def resolve_instruction(v):
    """Analyzer::resolve_instruction: what the innermost scope whose table resolves the call gives"""
    from .scope_specs import analyzer, AN, R
    from .resolver_specs import vec, throw, types_text, ptr_same
    from engine import lib_maps as MP
    TAB = R + "::InstructionTable"
    cls = SEM + "::Instruction"
    def table(ex, t, kind, name): return (ex.uf("%s.resolves.%s" % (t.name, kind), list(t.args) + [MP.key_term(ex, name)], z3.BoolSort()),
                                          Ptr(Cell("instruction of %s.%s" % (t.name, kind), tuple(t.args) + (MP.key_term(ex, name),), cls), False, cls))
    def res(ex, unit, d, this, args):
        a = [ex.rv(x) for x in args]
        kind = "gate" if len(a) == 3 else "nongate"
        same = repr(vec(ex, a[-1])) == repr(ex.store["given#args"]) and (kind == "nongate" or same_ptr(a[1], ex.store["given#gate"]))
        if not same: raise Unsupported("resolution of other arguments than those given")
        ok, w = table(ex, this.get(ex), kind, ex.as_seq(a[0]))
        if not ex.branch(ok): throw(ex, R + ("::NameResolutionFailure" if ex.branch(ex.uf("unknown." + kind, list(this.get(ex).args) + [MP.key_term(ex, ex.as_seq(a[0]))], z3.BoolSort())) else "::OverloadResolutionFailure"))
        return w
    saved = v.contracts
    v.contracts = dict(saved, **{TAB + "::resolve": res, V + "::types_of": types_text})
    for kind, n in (("gate", 3), ("nongate", 2)):
        unit, d = v.prog.find(AN + "::resolve_instruction", lambda u, d: len(d["ps"]) == n)
        L_ = "resolve_instruction(%s): " % kind
        def setup(ex):
            this, st = analyzer(ex)
            name = ex.sym_string("name"); ex.inputs["name"] = name; ex.inputs["scopes"] = ex.seq_len(st)
            MP.key_term(ex, name)
            args = ex.sym(unit, unit.strip(d["ps"][-1]["t"]), "args", ())
            gate = sym_node(ex, SEM + "::Gate", "gate")
            ex.store["given#args"], ex.store["given#gate"] = vec(ex, args), gate
            return this, [ex.temp(x) for x in ((name, gate, args) if n == 3 else (name, args))], (st, name)
        def known(ex, c, j): return table(ex, ex.field(ex.seq_at(c[0], j), "instruction_table"), kind, c[1])
        def post(ex, r, c):
            r = ex.rv(r)
            i = r.cell.args[0]
            has, w = known(ex, c, i)
            ex.oblige(And(le(0, i), lt(i, ex.seq_len(c[0])), has, ptr_same(ex, r, w)), L_ + "the instruction a scope's table resolves the call to")
            j = ex.sym_int("inner", (), 0, MAXLEN)
            ex.oblige(Implies(lt(j, i), Not(known(ex, c, j)[0])), L_ + "no inner scope resolves the call")
        def thrown(ex, t, c):
            j = ex.sym_int("any", (), 0, MAXLEN)
            ex.oblige(Implies(lt(j, ex.seq_len(c[0])), Not(known(ex, c, j)[0])), L_ + "fails only if no scope resolves the call")
            ex.oblige(t.cls in (R + "::ResolutionFailure", R + "::NameResolutionFailure", R + "::OverloadResolutionFailure", ERR), L_ + "the failure is an analysis error")
        v.contract("Analyzer::resolve_instruction(%s)" % kind, unit, d, setup, post, thrown)
    v.contracts = saved

def run_C17(v):
    v.contracts = dict(ERR_CONTRACTS, **{AN + "::register_instruction": recorder})
    v.part(registration); v.part(table_params)
    v.contracts = dict(ERR_CONTRACTS)
    v.part(from_spec); v.part(analyzer_layer); v.part(resolve_instruction)

def run_C16(v):
    v.contracts = dict(ERR_CONTRACTS)
    v.part(classes); v.part(lookups); v.part(table_params)

