"""Contracts for VariableTable and the scope functions of src/v3x/analyzer.cpp (C20)."""
from .resolver_specs import *

AZ = "cqasm::v3x::analyzer"
AN = AZ + "::Analyzer"
SC = AZ + "::Scope"
VT = R + "::VariableTable"

def load():
    p = Program()
    for f in ("src/v3x/analyzer.cpp", "src/v3x/resolver.cpp", "src/v3x/types.cpp", "src/v3x/instruction.cpp"): p.load(f, standin=True)
    return p

def tab(ex, o): return ex.field(o, "table")

def variable_table(v):
    unit, d = v.prog.find(VT + "::add")
    def setup(ex):
        this = CellLV(Cell("vtable", (), VT))
        name = ex.sym_string("name"); ex.inputs["name"] = name
        val = sym_node(ex, V + "::ValueBase", "value")
        return this, [ex.temp(name), ex.temp(val)], (this, tab(ex, this.get(ex)), name, val)
    def check(ex, c, added):
        this, old, name, val = c
        k = ex.sym_string("anyname"); ex.inputs["other name"] = k
        has0, v0 = MP.lookup(ex, old, k); has1, v1 = MP.lookup(ex, tab(ex, this.get(ex)), k)
        if added and ex.branch(ex.seq_eq_cond(name, k)):
            ex.oblige(not has0, "VariableTable::add: a declared name is not declared again")
            ex.oblige(has1 and same_ptr(v1, val), "VariableTable::add: the name stands for the given value")
            return
        ex.oblige(has0 == has1, "VariableTable::add: no other name is added or removed")
        if has0 and has1: ex.oblige(ptr_same(ex, v1, v0), "VariableTable::add: other names keep their value, and so does a name declared before")
    def post(ex, r, c): check(ex, c, True)
    def thrown(ex, t, c):
        has, _ = MP.lookup(ex, c[1], c[2])
        ex.oblige(has, "VariableTable::add: a new name is accepted")
        ex.oblige(t.cls == R + "::NameResolutionFailure", "VariableTable::add: declaring a name twice is a name failure")
        check(ex, c, False)
    v.contract("VariableTable::add", unit, d, setup, post, thrown)

    unit2, d2 = v.prog.find(VT + "::resolve")
    def setup2(ex):
        this = CellLV(Cell("vtable", (), VT))
        name = ex.sym_string("name"); ex.inputs["name"] = name
        return this, [ex.temp(name)], (this, tab(ex, this.get(ex)), name)
    def post2(ex, r, c):
        has, val = MP.lookup(ex, c[1], c[2])
        r = ex.rv(r)
        ex.oblige(has, "VariableTable::resolve: an unknown name is a failure")
        if not has: return
        ex.oblige(Not(null(r)), "VariableTable::resolve: yields a value")
        ex.oblige(not same_ptr(r, val), "VariableTable::resolve: yields a copy, so that changing it leaves the declaration alone")
        ex.oblige(node_equal(ex, node(ex, r), node(ex, val)), "VariableTable::resolve: the copy equals the declared value")
    def thrown2(ex, t, c):
        has, val = MP.lookup(ex, c[1], c[2])
        ex.oblige(not has, "VariableTable::resolve: a declared name is found")
        ex.oblige(t.cls == R + "::NameResolutionFailure", "VariableTable::resolve: an unknown name is a name failure")
    v.contract("VariableTable::resolve", unit2, d2, setup2, post2, thrown2)

def vt_has(ex, o, name):
    m = tab(ex, o)
    b, upd = m.x
    if upd: raise Unsupported("resolution in a table under construction")
    return ex.uf(b.name + ".has", list(b.args) + [MP.key_term(ex, name)], z3.BoolSort()), Ptr(Cell("copy of " + b.name, tuple(b.args) + (MP.key_term(ex, name),), V + "::ValueBase"), False, V + "::ValueBase")
def vt_resolve(ex, unit, d, this, args):
    """VariableTable::resolve, as proved above: a copy, or a name failure"""
    has, c = vt_has(ex, this.get(ex), ex.as_seq(ex.rv(args[0])))
    if not ex.branch(has): throw(ex, R + "::NameResolutionFailure")
    return c
def vt_add(ex, unit, d, this, args):
    """VariableTable::add, as proved above"""
    o = this.get(ex)
    name = ex.as_seq(ex.rv(args[0]))
    m = tab(ex, o)
    has, _ = MP.lookup(ex, m, name)
    if has: throw(ex, R + "::NameResolutionFailure")
    FieldLV(this, "table").set(ex, MP.update(m, name, ex.rv(args[1])))
    return UNIT

def analyzer(ex):
    this = CellLV(Cell("analyzer", (), AN))
    st = ex.as_seq(ex.field(this.get(ex), "scope_stack_"))
    ex.assume(le(1, ex.seq_len(st)))     # invariant: the global scope is never popped (every pop_scope follows its push_scope)
    return this, st
def stack(ex, this): return ex.as_seq(ex.field(this.get(ex), "scope_stack_"))

def resolve_variable(v):
    unit, d = v.prog.find(AN + "::resolve_variable")
    def setup(ex):
        this, st = analyzer(ex)
        name = ex.sym_string("name"); ex.inputs["name"] = name; ex.inputs["scopes"] = ex.seq_len(st)
        MP.key_term(ex, name)
        return this, [ex.temp(name)], (st, name)
    def known(ex, c, j): return vt_has(ex, ex.field(ex.seq_at(c[0], j), "variable_table"), c[1])
    def post(ex, r, c):
        r = ex.rv(r)
        i = r.cell.args[0]
        has, w = known(ex, c, i)
        ex.oblige(And(le(0, i), lt(i, ex.seq_len(c[0])), has, ptr_same(ex, r, w)), "resolve_variable: a copy of the value of that name in a scope that has it")
        j = ex.sym_int("inner", (), 0, MAXLEN)
        ex.oblige(Implies(lt(j, i), Not(known(ex, c, j)[0])), "resolve_variable: no inner scope has the name")
    def thrown(ex, t, c):
        j = ex.sym_int("any", (), 0, MAXLEN)
        ex.oblige(Implies(lt(j, ex.seq_len(c[0])), Not(known(ex, c, j)[0])), "resolve_variable: fails only if no scope has the name")
        ex.oblige(t.cls in (R + "::NameResolutionFailure", ERR), "resolve_variable: the failure is an analysis error")
    v.contract("Analyzer::resolve_variable", unit, d, setup, post, thrown)

def same_scope(ex, a, b, label):
    """obligations: two scopes hold the same"""
    for t in ("variable_table", "consteval_core_function_table", "instruction_table", "variables", "block"):
        x, y = ex.field(a, t), ex.field(b, t)
        ex.oblige(repr(x) == repr(y) or ex.valid(ex.veq(x, y)), label + " (" + t + ")")
def rest_unchanged(ex, this, st, drop, keep, label):
    """scopes [keep..) of the new stack are scopes [drop..) of the old one"""
    new = stack(ex, this)
    n, m = ex.seq_len(new), ex.seq_len(st)
    ex.oblige(eq(sub(n, keep), sub(m, drop)), label + ": number of scopes")
    i = ex.sym_int("si", (), 0, MAXLEN)
    if not ex.branch(lt(i, sub(m, drop))): return
    x, y = ex.seq_at(new, add(i, keep)), ex.seq_at(st, add(i, drop))
    if isinstance(x, SymRef) and isinstance(y, SymRef): ex.oblige(x.name == y.name and ex.valid(And(*[eq(a, b) for a, b in zip(x.args, y.args)])), label + ": the other scopes are untouched")
    else: same_scope(ex, x, y, label + ": the other scopes are untouched")

def scopes(v):
    unit, d = v.prog.find(AN + "::push_scope")
    def setup(ex):
        this, st = analyzer(ex); return this, [], (this, st)
    def post(ex, r, c):
        this, st = c
        s = ex.seq_at(stack(ex, this), 0)
        k = ex.sym_string("anyname")
        has, _ = MP.lookup(ex, tab(ex, ex.field(s, "variable_table")), k)
        ex.oblige(not has, "push_scope: the new scope declares nothing")
        ex.oblige(eq(ex.seq_len(vec(ex, ex.field(s, "variables"))), 0), "push_scope: the new scope has no variables")
        b = ex.field(s, "block")
        ex.oblige(Not(null(b)), "push_scope: the new scope has a block")
        ex.oblige(eq(ex.seq_len(vec(ex, get(ex, b, "statements"))), 0), "push_scope: the block of the new scope is empty")
        rest_unchanged(ex, this, st, 0, 1, "push_scope")
    v.contract("Analyzer::push_scope", unit, d, setup, post)
    unit2, d2 = v.prog.find(AN + "::pop_scope")
    def setup2(ex):
        this, st = analyzer(ex); ex.assume(le(2, ex.seq_len(st))); return this, [], (this, st)
    v.contract("Analyzer::pop_scope", unit2, d2, setup2, lambda ex, r, c: rest_unchanged(ex, c[0], c[1], 1, 0, "pop_scope"))
    unit3, d3 = v.prog.find(AN + "::register_variable")
    def setup3(ex):
        this, st = analyzer(ex)
        name = ex.sym_string("name"); ex.inputs["name"] = name
        val = sym_node(ex, V + "::ValueBase", "value")
        return this, [ex.temp(name), ex.temp(val)], (this, st, name, val)
    def check3(ex, c, done):
        this, st, name, val = c
        k = ex.sym_string("anyname")
        s0, s1 = ex.seq_at(st, 0), ex.seq_at(stack(ex, this), 0)
        has0, v0 = MP.lookup(ex, tab(ex, ex.field(s0, "variable_table")), k)
        has1, v1 = MP.lookup(ex, tab(ex, ex.field(s1, "variable_table")), k)
        if done and ex.branch(ex.seq_eq_cond(name, k)):
            ex.oblige(not has0, "register_variable: a name of the current scope is not declared again")
            ex.oblige(has1 and same_ptr(v1, val), "register_variable: the name stands for the value in the current scope")
        else:
            ex.oblige(has0 == has1, "register_variable: no other name is added or removed")
            if has0 and has1: ex.oblige(ptr_same(ex, v1, v0), "register_variable: declarations already made stay in force")
        rest_unchanged(ex, this, st, 1, 1, "register_variable")
    def thrown3(ex, t, c):
        has, _ = MP.lookup(ex, tab(ex, ex.field(ex.seq_at(c[1], 0), "variable_table")), c[2])
        ex.oblige(has, "register_variable: a name new in this scope is accepted, whatever outer scopes declare")
        check3(ex, c, False)
    v.contract("Analyzer::register_variable", unit3, d3, setup3, lambda ex, r, c: check3(ex, c, True), thrown3)
    unit4, d4 = v.prog.find(AN + "::add_variable_to_current_scope")
    def setup4(ex):
        this, st = analyzer(ex)
        val = sym_node(ex, SEM + "::Variable", "variable")
        return this, [ex.temp(val)], (this, st, val)
    def post4(ex, r, c):
        this, st, val = c
        a, b = vec(ex, ex.field(ex.seq_at(stack(ex, this), 0), "variables")), vec(ex, ex.field(ex.seq_at(st, 0), "variables"))
        n = ex.seq_len(b)
        ex.oblige(eq(ex.seq_len(a), add(n, 1)), "add_variable_to_current_scope: one more variable")
        ex.oblige(same_ptr(ex.seq_at(a, n), val), "add_variable_to_current_scope: the given variable is last")
        i = ex.sym_int("i", (), 0, MAXLEN)
        if ex.branch(lt(i, n)): ex.oblige(ptr_same(ex, ex.seq_at(a, i), ex.seq_at(b, i)), "add_variable_to_current_scope: earlier variables stay in order")
        rest_unchanged(ex, this, st, 1, 1, "add_variable_to_current_scope")
    v.contract("Analyzer::add_variable_to_current_scope", unit4, d4, setup4, post4)

def run_C20(v):
    v.contracts = dict(ERR_CONTRACTS)
    v.part(variable_table)
    v.contracts = dict(ERR_CONTRACTS, **{VT + "::resolve": vt_resolve, VT + "::add": vt_add})
    v.part(resolve_variable); v.part(scopes)
