"""Contracts for the statements and blocks of src/v3x/semantic_analyzer.cpp (C18, C21, C22, C23)."""
from .sema_specs import *
from .sema_specs import load as _load

def load():
    p = Program()
    for f in ("src/v3x/semantic_analyzer.cpp", "src/v3x/analyzer.cpp", "src/v3x/instruction_set.cpp", "src/v3x/values.cpp", "src/v3x/types.cpp"): p.load(f, standin=True)
    return p

ONE = lambda c: "tree::base::One<%s>" % c
GATE, GI, NI = SEM + "::Gate", SEM + "::GateInstruction", SEM + "::NonGateInstruction"
VALUES = "tree::base::Any<%s::ValueBase>" % V
ANNOT = "tree::base::Any<%s::AnnotationData>" % SEM

def failure(ex, name, args):
    """an analysis error as a callee raises it: any message, and perhaps a location already"""
    from engine import lib_tree
    l = sym_ptr(ex, lib_tree.SL_CLS, "location of failure " + name, tuple(args), True)
    return CxxThrow(ex.temp(Obj(ERR, {"message_": ex.sym_string("message of failure " + name, tuple(args)), "what_message_": Seq(), "location_": l}), "exc"), ERR)
def may_fail(ex, what, o):
    """Bool: evaluating this part of the node fails"""
    return ex.uf("%s fails:%s" % (what, o.name), o.args, z3.BoolSort())
def vlist(ex, name, args=()):
    return ex.sym_list(name, tuple(args), lambda e, m, x: sym_ptr(e, V + "::ValueBase", m, x, False), V + "::ValueBase")
def sub(ex, what, o, good):
    o = ident(o)
    if ex.branch(may_fail(ex, what, o)): raise failure(ex, what + " of " + o.name, o.args)
    return good(o)
def values_of(ex, o): return vlist(ex, "values of " + o.name, o.args)
def gate_of(ex, o): return sym_node(ex, GATE, "gate of " + o.name, o.args)
def annotations_of(ex, o): return ex.sym_list("annotations of " + o.name, o.args, lambda e, m, x: sym_ptr(e, SEM + "::AnnotationData", m, x, False), SEM + "::AnnotationData")

def visit_list(ex, unit, d, this, args):
    return sub(ex, "operand list", ex.lvof(args[0]).get(ex), lambda o: anyof(VALUES, values_of(ex, o)))
def visit_gate(ex, unit, d, this, args):
    return sub(ex, "gate", ex.lvof(args[0]).get(ex), lambda o: anyof(ONE(GATE), gate_of(ex, o)))
def visit_annotated(ex, unit, d, this, args):
    """annotations never fail: the errors of their operands are recorded where they occur (visit_annotation_data)"""
    o = ident(ex.lvof(args[0]).get(ex))
    new = errors_in(ex, "annotations", o)
    ex.store["annotated#0"] = ex.store.get("annotated#0", Seq()) + new
    push_errors(ex, this, new)
    return anyof(ANNOT, annotations_of(ex, o))
def errors_in(ex, what, o): return ex.sym_list("errors of %s of %s" % (what, o.name), tuple(o.args), lambda e, m, x: SymRef(ERR, m, tuple(x)), ERR)
def push_errors(ex, this, new):
    """the analyzer records errors, after those it has"""
    lv = FieldLV(FieldLV(this, "result_"), "errors")
    cur = lv.get(ex)
    if isinstance(cur, SymRef): cur = ex.materialize(cur)
    lv.set(ex, cur.with_("#std::vector", cur.f["#std::vector"] + new) if isinstance(cur, Obj) else cur + new)
def visit_any(ex, unit, d, this, args):
    o = ident(this.get(ex))
    if o.cls == SYN + "::Gate": return sub(ex, "gate", o, lambda o: anyof(ONE(GATE), gate_of(ex, o)))
    if o.cls == SYN + "::ExpressionList": return sub(ex, "operand list", o, lambda o: anyof(VALUES, values_of(ex, o)))
    return visit_expr(ex, unit, d, this, args)

TERM = AZ + "::get_gate_terminal_name"
def terminal(ex, p): return ex.sym_string("terminal name of " + p.cell.name, p.cell.args)
def term_name(ex, unit, d, this, args):
    """the name of the gate the modifiers act on (terminal_name below: a gate without modifiers is its own terminal)"""
    p = ex.rv(args[0])
    if not isinstance(p, Ptr) or p.cell is None: raise Unsupported("terminal name of %r" % (p,))
    return terminal(ex, p)
term_name.recursive = True

def new_node(ex, cls, args): return Ptr(ex.newcell(make_node(ex, cls, args), "resolved"), False, cls)
def promoted(ex): return vlist(ex, "promoted operands")
def pair_of_operands(ex):
    """a measurement has two operands: every table row of measure has two operand types (decided by C17), and resolution yields one value per type (C13)"""
    ps = [sym_ptr(ex, V + "::ValueBase", "operand", (i,), False) for i in (0, 1)]
    for p in ps:
        for cls in ("VariableRef", "IndexRef"):      # arrays are declared with a positive size (decided by C22)
            ex.assume(lt(0, get(ex, get(ex, get(ex, p, "variable", V + "::" + cls), "typ", SEM + "::Variable"), "size", T + "::TypeBase")))
    return Seq([U(p) for p in ps])
def resolve(ex, unit, d, this, args):
    """Analyzer::resolve_instruction (C13, C17, C20): a new instruction node with the promoted operands, or an analysis error"""
    a = [ex.rv(x) for x in args]
    name = ex.as_seq(a[0])
    if ex.branch(z3.Bool("resolution fails")):
        ex.store["resolved#0"] = ex.store.get("resolved#0", ()) + ((name, a[1] if len(a) == 3 else None, vec(ex, a[-1]), None),)
        raise failure(ex, "resolution", ())
    ref = sym_ptr(ex, "cqasm::v3x::instruction::Instruction", "resolved instruction", (), False)
    if len(a) == 3: p = new_node(ex, GI, [ref, a[1], promoted(ex)])
    else: p = new_node(ex, NI, [ref, name, pair_of_operands(ex) if ex.branch(ex.seq_eq_cond(name, Seq.lit("measure"))) else promoted(ex)])
    ex.store["resolved#0"] = ex.store.get("resolved#0", ()) + ((name, a[1] if len(a) == 3 else None, vec(ex, a[-1]), p),)
    return p
def add_statement(ex, unit, d, this, args):
    ex.store["added#0"] = ex.store.get("added#0", ()) + (ex.rv(args[0]),)
    return UNIT
def resolve_params(ex, unit, d, this, args):
    """resolve_parameters, as proved under C21: the promoted parameters, or an analysis error"""
    name, ps = ex.as_seq(ex.rv(args[0])), vec(ex, args[1])
    ex.store["params#0"] = ex.store.get("params#0", ()) + ((name, ps),)
    if ex.branch(z3.Bool("the parameters do not match")): raise failure(ex, "parameters", ())
    ex.assume(among(ex, name, sum(groups().values(), [])))
    return make_values(ex, vlist(ex, "promoted parameters"))
def among(ex, s, names): return Or(*[ex.seq_eq_cond(Seq.lit(x), s) for x in names])
RP = AZ + "::resolve_parameters"
def size_check(ex, unit, d, this, args):
    """the size checks of an instruction, as proved under C18: succeed or raise an analysis error"""
    if ex.branch(z3.Bool("the sizes differ")): raise failure(ex, "sizes", ())
    return UNIT
SIZES = {AZ + "::" + n: size_check for n in ("check_gate_instruction", "check_non_gate_instruction", "check_qubit_operands_indices_have_same_size", "check_qubit_and_bit_indices_have_same_size")}
STMT = {SYN + "::Node::visit": visit_any, SA + "::visit_expression_list": visit_list, SA + "::visit_gate": visit_gate, SA + "::visit_annotated": visit_annotated, RP: resolve_params,
        TERM: term_name, AN + "::resolve_instruction": resolve, AN + "::add_statement_to_current_scope": add_statement}

def errors(ex, this): return vec(ex, ex.field(ex.field(this.get(ex), "result_"), "errors"))
def rejected(ex, c, L_, locs=False):
    """obligations: the statement is not added and exactly one error is added, after the earlier ones"""
    this, before, p = c[:3]
    ex.oblige(not ex.store.get("added#0", ()), L_ + "a rejected statement is not added")
    before = before + ex.store.get("annotated#0", Seq())      # annotations may be faulty besides
    e = errors(ex, this); n = ex.seq_len(before)
    ex.oblige(eq(ex.seq_len(e), add(n, 1)), L_ + "a rejected statement yields one error")
    ex.prove_seq_eq(ex.seq_slice(e, 0, n), before, L_ + "earlier errors stay")
    if not locs: return
    l = ex.field(ex.seq_at(e, n), "location_")
    where = loc(ex, p)
    ex.oblige(Implies(Not(null(where)), Not(null(l))), L_ + "the error of a rejected statement has a location")
def accepted(ex, c, r, L_, locs=False):
    this, before, p = c[:3]
    added = ex.store.get("added#0", ())
    ex.oblige(len(added) == 1 and same_ptr(added[0], r), L_ + "an accepted statement is added once")
    ex.prove_seq_eq(errors(ex, this), before + ex.store.get("annotated#0", Seq()), L_ + "an accepted statement yields no error, other than those of its annotations")
    if locs:
        ex.oblige(loc_same(ex, loc(ex, r), loc(ex, p)), L_ + "an accepted statement is located where it is written")
        ex.prove_seq_eq(vec(ex, get(ex, r, "annotations")), annotations_of(ex, ident(node(ex, p))), L_ + "an accepted statement carries its annotations")

def counts(ex, q):
    """specification: the number of (qubits, bits) an operand denotes"""
    def of(cls): 
        typ = get(ex, get(ex, q, "variable", V + "::" + cls), "typ", SEM + "::Variable")
        return tag(ex, typ), typ
    var, idx = is_leaf(ex, q, V, "VariableRef"), is_leaf(ex, q, V, "IndexRef")
    tv, typ = of("VariableRef"); ti, _ = of("IndexRef")
    size, n = get(ex, typ, "size", T + "::TypeBase"), ex.seq_len(vec(ex, get(ex, q, "indices", V + "::IndexRef")))
    def c(one, arr): return If(var, If(eq(tv, tt(one)), 1, If(eq(tv, tt(arr)), size, 0)), If(And(idx, Or(eq(ti, tt(one)), eq(ti, tt(arr)))), n, 0))
    return c("Qubit", "QubitArray"), c("Bit", "BitArray")

def start(ex, cls, this=None):
    this = this or sema(ex)
    c = Cell("node", (), cls)
    return this, [CellLV(c)], (this, errors(ex, this), Ptr(c, False, cls))
def nothing_fails(ex, p, cls, fields):
    for f, what in fields:
        q = get(ex, p, f, cls)
        ex.assume(Not(may_fail(ex, what, ident(node(ex, q)))))
    ex.assume(And(Not(z3.Bool("resolution fails")), Not(z3.Bool("the parameters do not match"))))

def gate_instruction(v, prop):
    cls = SYN + "::GateInstruction"
    unit, d = v.prog.find(SA + "::visit_gate_instruction")
    L_ = "visit_gate_instruction: "
    saved = v.contracts
    v.contracts = dict(saved, **STMT, **({} if prop == "C18" else SIZES))
    def setup(ex):
        ex.inputs["operands"] = ex.seq_len(promoted(ex))
        return start(ex, cls)
    def post(ex, r, c):
        p = c[2]
        r = unbox(ex, r, ONE(GI), L_[:-2])
        res = ex.store.get("resolved#0", ())
        if prop == "C21" and res:
            name, g, ops, w = res[0]
            want = gate_of(ex, ident(node(ex, get(ex, p, "gate", cls))))
            ex.oblige(len(res) == 1 and same_ptr(g, want), L_ + "looked up once, for its own gate")
            ex.prove_seq_eq(ops, values_of(ex, ident(node(ex, get(ex, p, "operands", cls)))), L_ + "with its own operands in order")
            inner = get(ex, want, "gate", GATE)
            gname = ex.as_seq(get(ex, want, "name", GATE))
            if ex.branch(null(inner)): ex.prove_seq_eq(name, gname, L_ + "a gate without modifier is looked up under its name")
            else:
                pre = "1q_" if ex.branch(Or(*[ex.seq_eq_cond(gname, Seq.lit(m)) for m in ("inv", "pow")])) else "2q_"
                ex.prove_seq_eq(name, Seq.lit(pre) + terminal(ex, inner), L_ + "a gate with modifiers is looked up under the class its outermost modifier implies and the name of the gate modified")
        if ex.branch(null(r)): return rejected(ex, c, L_, prop == "C22") if prop != "C21" else None
        if prop != "C21": accepted(ex, c, r, L_, prop == "C22")
        if prop == "C21":
            ex.oblige(bool(res) and same_ptr(r, res[0][3]), L_ + "the instruction accepted is the one looked up")
            if res and res[0][3] is not None:
                ex.oblige(same_ptr(get(ex, r, "gate"), res[0][1]), L_ + "an accepted instruction carries its gate")
                ex.prove_seq_eq(vec(ex, get(ex, r, "operands")), promoted(ex), L_ + "an accepted instruction carries the promoted operands in order")
        if prop == "C18":
            ops = vec(ex, get(ex, r, "operands"))
            i = ex.sym_int("i", (), 0, MAXLEN); j = add(i, 1)      # equality of all counts follows from that of neighbours (lemma)
            ex.assume(lt(j, ex.seq_len(ops)))
            ex.oblige(eq(counts(ex, ex.seq_at(ops, i))[0], counts(ex, ex.seq_at(ops, j))[0]), L_ + "the operands of an accepted gate denote equally many qubits")
    v.contract("visit_gate_instruction", unit, d, setup, post)
    if prop == "C18":
        def setup2(ex):
            this, a, c = setup(ex)
            nothing_fails(ex, c[2], cls, (("gate", "gate"), ("operands", "operand list")))
            ops = promoted(ex)
            i = z3.Int("ii!%d" % ex.fresh_id())
            ex.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < iz(ex.seq_len(ops))), iz(counts(ex, ex.seq_at(ops, i))[0]) == iz(counts(ex, ex.seq_at(ops, 0))[0]))))
            return this, a, c
        v.contract("visit_gate_instruction (operands of equal size)", unit, d, setup2, lambda ex, r, c: ex.oblige(Not(null(unbox(ex, r, ONE(GI), L_[:-2]))), L_ + "a gate on operands that denote equally many qubits is accepted"))
        n = z3.Int("n"); f = z3.Function("f", z3.IntSort(), z3.IntSort()); i = z3.Int("i")
        adj = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i + 1 < n), f(i) == f(i + 1)))
        m = z3.Int("m")
        v.lemma("neighbours equal: if the first m are equal to the first, so are the first m+1", z3.Implies(z3.And(m >= 1, m < n, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < m), f(i) == f(0)))), f(m) == f(0)), adj)
    v.contracts = saved

def non_gate_instruction(v, prop):
    cls = SYN + "::NonGateInstruction"
    unit, d = v.prog.find(SA + "::visit_non_gate_instruction")
    L_ = "visit_non_gate_instruction: "
    saved = v.contracts
    v.contracts = dict(saved, **STMT)
    def setup(ex): return start(ex, cls)
    def asked(ex, p): return ex.as_seq(get(ex, get(ex, p, "name", cls), "name", SYN + "::Keyword"))
    def post(ex, r, c):
        p = c[2]
        r = unbox(ex, r, ONE(NI), L_[:-2])
        res, par = ex.store.get("resolved#0", ()), ex.store.get("params#0", ())
        if prop == "C21":
            if res:
                ex.oblige(len(res) == 1, L_ + "looked up once")
                ex.prove_seq_eq(res[0][0], asked(ex, p), L_ + "looked up under its name")
                ex.prove_seq_eq(res[0][2], values_of(ex, ident(node(ex, get(ex, p, "operands", cls)))), L_ + "with its own operands in order")
            if par:
                ex.oblige(len(par) == 1, L_ + "its parameters are checked once")
                ex.prove_seq_eq(par[0][0], asked(ex, p), L_ + "its parameters are checked under its name")
                ex.prove_seq_eq(par[0][1], values_of(ex, ident(node(ex, get(ex, p, "parameters", cls)))), L_ + "its own parameters are checked, in order")
        if ex.branch(null(r)): return rejected(ex, c, L_, prop == "C22") if prop != "C21" else None
        if prop != "C21": accepted(ex, c, r, L_, prop == "C22")
        if prop == "C21":
            ex.oblige(len(res) == 1 and same_ptr(r, res[0][3]), L_ + "the instruction accepted is the one looked up")
            if len(res) == 1 and res[0][3] is not None:
                ex.prove_seq_eq(ex.as_seq(get(ex, r, "name")), asked(ex, p), L_ + "an accepted instruction carries its name")
            ex.oblige(len(par) == 1, L_ + "the parameters of an accepted instruction are checked")
            if len(par) == 1: ex.prove_seq_eq(vec(ex, get(ex, r, "parameters")), vlist(ex, "promoted parameters"), L_ + "an accepted instruction carries the promoted parameters in order")
        if prop == "C18" and ex.branch(ex.seq_eq_cond(ex.as_seq(get(ex, r, "name")), Seq.lit("measure"))):
            x, y = [counts(ex, q) for q in pair_of_operands(ex).concrete()]
            ex.oblige(eq(add(x[0], y[0]), add(x[1], y[1])), L_ + "an accepted measurement has as many qubits as bits")
    v.contract("visit_non_gate_instruction", unit, d, setup, post)
    if prop == "C18":
        def setup2(ex):
            this, a, c = setup(ex)
            nothing_fails(ex, c[2], cls, (("operands", "operand list"), ("parameters", "operand list")))
            x, y = [counts(ex, q) for q in pair_of_operands(ex).concrete()]
            ex.assume(Implies(ex.seq_eq_cond(asked(ex, c[2]), Seq.lit("measure")), eq(add(x[0], y[0]), add(x[1], y[1]))))
            return this, a, c
        v.contract("visit_non_gate_instruction (matching sizes)", unit, d, setup2, lambda ex, r, c: ex.oblige(Not(null(unbox(ex, r, ONE(NI), L_[:-2]))), L_ + "a measurement into as many bits as qubits, and any other instruction, is accepted"))
    v.contracts = saved

# ---- parameters and modifiers (C21) --------------------------------------------------------------
from . import instr_specs as IS_
def given(ex): return vlist(ex, "given parameters")
def pok(ex, v, t):
    """specification: the value can be promoted to the kind of type (C14 decides which)"""
    return ex.uf("promotes:" + v.cell.name, tuple(v.cell.args) + (t,), z3.BoolSort())
def pval(ex, v, t): return Ptr(Cell("promoted:" + v.cell.name, tuple(v.cell.args) + (t,), V + "::ValueBase"), Not(pok(ex, v, t)), V + "::ValueBase")
def promote_to(ex, unit, d, this, args):
    v, t = ex.rv(args[0]), ex.rv(args[1])
    if v.cell is None or t.cell is None: raise Unsupported("promotion of an empty value")
    return pval(ex, v, tag(ex, t))
def type_of_value(ex, unit, d, this, args):
    v = ex.rv(args[0])
    if v.cell is None: raise Unsupported("type of an empty value")
    return Ptr(Cell("kind of:" + v.cell.name, v.cell.args, T + "::TypeBase"), False, T + "::TypeBase")
def check_promotes(ex, unit, d, this, args):
    a, t = ex.rv(args[0]), ex.rv(args[1])
    if a.cell is None or t.cell is None or not a.cell.name.startswith("kind of:"): raise Unsupported("check_promote of another type")
    return ex.uf("promotes:" + a.cell.name[8:], tuple(a.cell.args) + (tag(ex, t),), z3.BoolSort())
def type_text_(ex, unit, d, this, args): return type_text(ex, unit, d, this, args)

def parameter_lists():
    """specification: name -> the parameter type lists it may be given (cQASM 3.0)"""
    out = {n: [IS_.PARAMS.get(n, "")] for n in IS_.ONE + IS_.TWO + tuple(IS_.NON)}
    out["measure"] = ["", "fff"]
    out.update(inv=[""], ctrl=[""], pow=["f"])
    return out
def groups():
    g = {}
    for n, ls in parameter_lists().items(): g.setdefault(tuple(ls), []).append(n)
    return g

def parameters(v):
    unit, d = v.prog.find(RP)
    saved = v.contracts
    v.contracts = dict(saved, **{V + "::promote": promote_to, V + "::type_of": type_of_value, V + "::check_promote": check_promotes})
    every = [n for ns in groups().values() for n in ns]
    for ls, ns in list(groups().items()) + [(None, None)]:
        what = "any other name" if ls is None else "names taking (%s)" % ") or (".join(ls)
        L_ = "resolve_parameters: "
        def setup(ex):
            n = ex.sym_string("name"); ex.inputs["name"] = n
            lits = [ex.seq_eq_cond(Seq.lit(x), n) for x in (ns or every)]
            ex.assume(Or(*lits) if ns else Not(Or(*lits)))
            ps = given(ex); ex.inputs["parameters"] = ex.seq_len(ps)
            if ls == ("i",):      # the grammar always gives wait its parameter list
                ex.assume(Or(lt(0, ex.seq_len(ps)), Not(ex.seq_eq_cond(Seq.lit("wait"), n))))
            return None, [ex.temp(n), ex.temp(make_values(ex, ps))], (n, ps)
        def matches(ex, ps, l): return And(eq(ex.seq_len(ps), len(l)), *[pok(ex, ex.seq_at(ps, k), tt(IS_.LETTER[x])) for k, x in enumerate(l)])
        def post(ex, r, c):
            n, ps = c
            if ls is None: return ex.oblige(False, L_ + "an unknown name is an error")
            r = vec(ex, r)
            hit = [l for l in ls if ex.branch(eq(ex.seq_len(ps), len(l)))]
            ex.oblige(bool(hit), L_ + "another number of parameters than a table entry states is an error")
            if not hit: return
            l = hit[0]
            ex.oblige(matches(ex, ps, l), L_ + "a parameter of another type is an error")
            ex.oblige(eq(ex.seq_len(r), len(l)), L_ + "as many parameters as the table entry states")
            for k, x in enumerate(l): ex.oblige(ptr_same(ex, ex.seq_at(r, k), pval(ex, ex.seq_at(ps, k), tt(IS_.LETTER[x]))), L_ + "the promoted parameters in order")
        def thrown(ex, t, c):
            ex.oblige(t.cls == ERR, L_ + "fails with an analysis error")
            if ls is not None: ex.oblige(Not(Or(*[matches(ex, c[1], l) for l in ls])), L_ + "parameters as a table entry states are accepted")
        v.contract("resolve_parameters (%s)" % what, unit, d, setup, post, thrown)
    v.contracts = saved
def make_values(ex, s): return Obj(VALUES, {"#std::vector": s})

def modified(ex, w):
    """specification: (the gate applies to two qubits, given that it was accepted)"""
    inner, name = get(ex, w, "gate", GATE), ex.as_seq(get(ex, w, "name", GATE))
    if ex.branch(null(inner)): return among(ex, name, IS_.TWO)
    return ex.seq_eq_cond(Seq.lit("ctrl"), name)
def accepted_gate(ex, w):
    """what visit_gate guarantees of a gate it accepts (well-formed syntax: exactly the modifiers have a gate inside)"""
    inner, name = get(ex, w, "gate", GATE), ex.as_seq(get(ex, w, "name", GATE))
    return And(Implies(null(inner), among(ex, name, IS_.ONE + IS_.TWO)), Implies(Not(null(inner)), And(among(ex, name, ("inv", "pow", "ctrl")))))

def gate(v, prop):
    cls = SYN + "::Gate"
    saved = v.contracts
    L_ = "visit_gate: "
    def inner_gate(ex, unit, d, this, args):
        return sub(ex, "gate", ex.lvof(args[0]).get(ex), lambda o: anyof(ONE(GATE), gate_of(ex, o)))
    inner_gate.recursive = True
    unit, d = v.prog.find(SA + "::visit_gate")
    def parts(ex, p): return get(ex, p, "gate", cls), get(ex, get(ex, p, "name", cls), "name", SYN + "::Keyword"), get(ex, p, "parameters", cls)
    def setup(ex):
        this, a, c = start(ex, cls)
        g, name, ps = parts(ex, c[2])
        # precondition (grammar): exactly the modifiers have a gate inside, the others are no keywords
        ex.assume(iff(Not(null(g)), among(ex, ex.as_seq(name), ("inv", "pow", "ctrl"))))
        ex.assume(Not(among(ex, ex.as_seq(name), tuple(IS_.NON))))
        if ex.branch(Not(null(g))): ex.assume(accepted_gate(ex, gate_of(ex, ident(node(ex, g)))))
        return this, a, c
    def checked(ex, c):
        par = ex.store.get("params#0", ())
        ex.oblige(len(par) <= 1, L_ + "the parameters are checked once")
        if len(par) != 1: return False
        g, name, ps = parts(ex, c[2])
        ex.prove_seq_eq(par[0][0], ex.as_seq(name), L_ + "the parameters are checked under the name written")
        ex.prove_seq_eq(par[0][1], values_of(ex, ident(node(ex, ps))), L_ + "the parameters written are checked, in order")
        return True
    def two(ex, g): return modified(ex, gate_of(ex, ident(node(ex, g))))
    def post(ex, r, c):
        p = c[2]
        r = unbox(ex, r, ONE(GATE), L_[:-2])
        ok = checked(ex, c)
        ex.oblige(ok, L_ + "the parameters of an accepted gate are checked")
        ex.oblige(Not(null(r)), L_ + "yields a gate")
        g, name, ps = parts(ex, p)
        ex.prove_seq_eq(ex.as_seq(get(ex, r, "name")), ex.as_seq(name), L_ + "an accepted gate carries its name")
        ex.prove_seq_eq(vec(ex, get(ex, r, "parameters")), vlist(ex, "promoted parameters"), L_ + "an accepted gate carries the promoted parameters in order")
        inner = get(ex, r, "gate")
        if ex.branch(null(g)): ex.oblige(null(inner), L_ + "a named gate has no gate inside")
        else:
            ex.oblige(And(Not(null(inner)), same_ptr(inner, gate_of(ex, ident(node(ex, g))))), L_ + "a modifier carries the gate it modifies")
            ex.oblige(Not(two(ex, g)), L_ + "a modifier in front of a two-qubit gate is an error")
        ex.oblige(accepted_gate(ex, r), L_ + "an accepted gate is a named gate or a modifier with its gate")
        ex.oblige(loc_same(ex, loc(ex, r), loc(ex, p)), L_ + "an accepted gate is located where it is written")
        ex.prove_seq_eq(vec(ex, get(ex, r, "annotations")), annotations_of(ex, ident(node(ex, p))), L_ + "an accepted gate carries its annotations")
        ex.prove_seq_eq(errors(ex, c[0]), c[1] + ex.store.get("annotated#0", Seq()), L_ + "an accepted gate yields no error, other than those of its annotations")
    def thrown(ex, t, c):
        p = c[2]
        ex.oblige(t.cls == ERR, L_ + "fails with an analysis error")
        checked(ex, c)
        ex.oblige(Or(null(loc(ex, p)), Not(null(ex.field(t.v.get(ex), "location_")))), L_ + "a failure is located")
    v.contracts = dict(saved, **STMT)
    v.contracts[SA + "::visit_gate"] = inner_gate
    v.contract("visit_gate", unit, d, setup, post, thrown)
    def setup2(ex):
        this, a, c = setup(ex)
        p = c[2]
        g, name, ps = parts(ex, p)
        nothing_fails(ex, p, cls, (("parameters", "operand list"),))
        if ex.branch(Not(null(g))): ex.assume(And(Not(may_fail(ex, "gate", ident(node(ex, g)))), Not(two(ex, g))))
        return this, a, c
    v.contract("visit_gate (nothing in it fails)", unit, d, setup2, lambda ex, r, c: None, lambda ex, t, c: ex.oblige(False, L_ + "a modifier in front of a single-qubit gate is accepted"))
    # the name of the gate the modifiers act on
    v.contracts = dict(saved, **{TERM: term_name})
    unit, d = v.prog.find(TERM)
    def setup3(ex):
        g = sym_node(ex, GATE, "gate")
        return None, [ex.temp(g)], g
    def post3(ex, r, g):
        inner = get(ex, g, "gate", GATE)
        ex.prove_seq_eq(ex.as_seq(r), ex.as_seq(get(ex, g, "name", GATE)) if ex.branch(null(inner)) else terminal(ex, inner), "get_gate_terminal_name: the innermost gate's name")
    saved2 = v.contracts
    v.contract("get_gate_terminal_name", unit, d, setup3, post3)
    v.contracts = saved
def iff(a, b): return simp(bz(a) == bz(b))

def expression_list(v):
    """an expression list yields the values of its expressions, in order"""
    cls = SYN + "::ExpressionList"
    unit, d = v.prog.find(SA + "::visit_expression_list")
    L_ = "visit_expression_list: "
    saved = v.contracts
    v.contracts = dict(saved, **{SA + "::visit_expression": visit_expr})
    def setup(ex):
        c = Cell("node", (), cls); p = Ptr(c, False, cls)
        s = vec(ex, get(ex, p, "items", cls)); ex.inputs["expressions"] = ex.seq_len(s)
        return sema(ex), [CellLV(c)], s
    def post(ex, r, s):
        r = vec(ex, unbox(ex, r, VALUES, L_[:-2]))
        ex.oblige(eq(ex.seq_len(r), ex.seq_len(s)), L_ + "one value per expression")
        i = ex.sym_int("i", (), 0, MAXLEN)
        if not ex.branch(lt(i, ex.seq_len(s))): return
        fails, w = ev(ex, node(ex, ex.seq_at(s, i)))
        ex.oblige(And(Not(fails), ptr_same(ex, ex.seq_at(r, i), w)), L_ + "the value of each expression, in order")
    def thrown(ex, t, s):
        ex.oblige(t.cls == ERR, L_ + "fails with an analysis error")
    v.contract("visit_expression_list", unit, d, setup, post, thrown)
    def setup2(ex):
        this, a, s = setup(ex)
        i = z3.Int("ii!%d" % ex.fresh_id())
        fails, w = ev(ex, node(ex, ex.seq_at(s, i)))
        ex.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < iz(ex.seq_len(s))), z3.Not(bz(fails)))))
        return this, a, s
    v.contract("visit_expression_list (no expression fails)", unit, d, setup2, lambda ex, r, c: None, lambda ex, t, c: ex.oblige(False, L_ + "fails only if an expression does"))
    v.contracts = saved

def run_C18(v):
    v.contracts = dict(ERR_CONTRACTS)
    v.part(gate_instruction, "C18"); v.part(non_gate_instruction, "C18"); v.part(expression_list)
def run_C21(v):
    v.contracts = dict(ERR_CONTRACTS)
    v.part(parameters); v.part(gate, "C21"); v.part(expression_list)
    v.part(gate_instruction, "C21"); v.part(non_gate_instruction, "C21")
