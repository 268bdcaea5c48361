"""Contracts for blocks, variables, annotations and programs of the semantic analyzer (C22, C23)."""
from .stmt_specs import *
from .scope_specs import analyzer, stack, tab, rest_unchanged, VT, SC
from .annot_specs import le2, eq2, lt2, A as LOC_
from .resolver_specs import R
from .node_util import loc_copy
from engine import lib_tree

def load():
    lib_tree.L.transparent_bases.add(SYN + "::Visitor")   # `*this` as a visitor is the analyzer object itself
    p = Program()
    for f in ("src/v3x/semantic_analyzer.cpp", "src/v3x/analyzer.cpp", "src/v3x/instruction_set.cpp", "src/v3x/values.cpp", "src/v3x/types.cpp", "src/annotations.cpp", "src/version.cpp"): p.load(f, standin=True)
    return p

def ends(ex, l):
    """(first, last) of the location l points to, as (line, column) pairs"""
    o = ex.load(l.cell)
    rg = ex.field(o, "range")
    g = lambda w: (ex.field(ex.field(rg, w), "line"), ex.field(ex.field(rg, w), "column"))
    return g("first"), g("last")

def own_sema(ex):
    """the analyzer object with its result as a value of its own (its errors grow in loops)"""
    s = SymRef(SA, "sema", ())
    res = ex.field(s, "result_")
    o = ex.materialize(res)
    e = o.f["errors"]
    o = o.with_("errors", ex.materialize(e) if isinstance(e, SymRef) else e)
    return CellLV(ex.newcell(Obj(SA, {"analyzer_": ex.field(s, "analyzer_"), "result_": o}), "sema"))

def add_statement_spec(v):
    """Analyzer::add_statement_to_current_scope"""
    unit, d = v.prog.find(AN + "::add_statement_to_current_scope")
    L_ = "add_statement_to_current_scope: "
    ST = SEM + "::Statement"
    def setup(ex):
        this, st = analyzer(ex)
        b = ex.field(ex.seq_at(st, 0), "block")
        ex.assume(Not(null(b)))                      # every scope has a block (constructor, push_scope: C20)
        s = sym_node(ex, ST, "statement")
        old = vec(ex, get(ex, b, "statements", SEM + "::Block"))
        bl, sl = loc(ex, b), loc(ex, s)
        keep = None
        if bl.cell is not None and ex.branch(Not(bl.null)): keep = ends(ex, bl); ex.assume(le2(*keep))
        if ex.branch(Not(sl.null)): ex.assume(le2(*ends(ex, sl)))
        return this, [ex.temp(s)], (this, st, b, s, old, keep, sl)
    def post(ex, r, c):
        this, st, b, s, old, keep, sl = c
        b1 = ex.field(ex.seq_at(stack(ex, this), 0), "block")
        ex.oblige(same_ptr(b1, b), L_ + "the block of the scope stays the same")
        new = vec(ex, get(ex, b1, "statements"))
        n = ex.seq_len(old)
        ex.oblige(eq(ex.seq_len(new), add(n, 1)), L_ + "one statement is added")
        ex.prove_seq_eq(ex.seq_slice(new, 0, n), old, L_ + "earlier statements stay, in order")
        ex.oblige(same_ptr(ex.seq_at(new, n), s), L_ + "the statement comes last")
        rest_unchanged(ex, this, st, 1, 1, L_[:-2])
        l = loc(ex, b1)
        if ex.branch(null(sl)):
            ex.oblige(null(l) if keep is None else Not(null(l)), L_ + "a statement without location leaves the location alone")
            if keep is not None: f, z = ends(ex, l); ex.oblige(And(eq2(f, keep[0]), eq2(z, keep[1])), L_ + "a statement without location leaves the location alone")
            return
        ex.oblige(Not(null(l)), L_ + "the block has a location")
        f, z = ends(ex, l)
        sf, sz = ends(ex, sl)
        ex.oblige(le2(f, z), L_ + "a location never ends before it starts")
        ex.oblige(And(le2(f, sf), le2(sz, z)), L_ + "the block's location covers the statement")
        if keep is None: return ex.oblige(And(eq2(f, sf), eq2(z, sz)), L_ + "the first statement gives the block its location")
        ex.oblige(And(le2(f, keep[0]), le2(keep[1], z)), L_ + "the block's location still covers earlier statements")
        ex.oblige(And(Or(eq2(f, sf), eq2(f, keep[0])), Or(eq2(z, sz), eq2(z, keep[1]))), L_ + "the block's location covers no more than needed")
    v.contract("Analyzer::add_statement_to_current_scope", unit, d, setup, post)

def asm(v):
    cls = SYN + "::AsmDeclaration"
    unit, d = v.prog.find(SA + "::visit_asm_declaration")
    L_ = "visit_asm_declaration: "
    saved = v.contracts
    v.contracts = dict(saved, **STMT)
    RES = SEM + "::AsmDeclaration"
    def post(ex, r, c):
        p = c[2]
        r = unbox(ex, r, ONE(RES), L_[:-2])
        ex.oblige(Not(null(r)), L_ + "an assembly declaration is accepted")
        accepted(ex, c, r, L_, True)
        ex.prove_seq_eq(ex.as_seq(get(ex, r, "backend_name")), ex.as_seq(get(ex, get(ex, p, "backend_name", cls), "name", SYN + "::Identifier")), L_ + "with its backend name")
        ex.prove_seq_eq(ex.as_seq(get(ex, r, "backend_code")), ex.as_seq(get(ex, p, "backend_code", cls)), L_ + "with its code")
    v.contract("visit_asm_declaration", unit, d, lambda ex: start(ex, cls), post)
    v.contracts = saved


def variable(v):
    cls = SYN + "::Variable"
    unit, d = v.prog.find(SA + "::visit_variable")
    L_ = "visit_variable: "
    VAR = SEM + "::Variable"
    def register(ex, unit, d, this, args):
        """register_variable (C20): declares the name in the current scope, unless it is declared there"""
        ex.store["registered#0"] = ex.store.get("registered#0", ()) + ((ex.as_seq(ex.rv(args[0])), ex.rv(args[1])),)
        if ex.branch(z3.Bool("the name is declared")): raise failure(ex, "declaration", ())
        return UNIT
    def add_variable(ex, unit, d, this, args):
        ex.store["listed#0"] = ex.store.get("listed#0", ()) + (ex.rv(args[0]),)
        return UNIT
    def no_statement(ex, unit, d, this, args): raise Unsupported("a declaration adds a statement")
    saved = v.contracts
    v.contracts = dict(saved, **STMT)
    v.contracts.update({AN + "::register_variable": register, AN + "::add_variable_to_current_scope": add_variable})
    def parts(ex, p):
        t = get(ex, p, "typ", cls)
        name = ex.as_seq(get(ex, get(ex, t, "name", SYN + "::Type"), "name", SYN + "::Keyword"))
        sz = get(ex, t, "size", SYN + "::Type")
        n = get(ex, sz, "value", SYN + "::IntegerLiteral")
        q, b = [ex.seq_eq_cond(Seq.lit(x), name) for x in ("qubit", "bit")]
        return q, b, null(sz), n
    def good(ex, p):
        q, b, single, n = parts(ex, p)
        return And(Or(q, b), Or(single, lt(0, n)))
    def setup(ex):
        r = start(ex, cls)
        p = r[2][2]
        ex.inputs["size"] = parts(ex, p)[3]
        return r
    def post(ex, r, c):
        this, before, p = c
        r = unbox(ex, r, ONE(VAR), L_[:-2])
        reg, lst = ex.store.get("registered#0", ()), ex.store.get("listed#0", ())
        ident_ = get(ex, p, "name", cls)
        name = ex.as_seq(get(ex, ident_, "name", SYN + "::Identifier"))
        ex.oblige(len(reg) <= 1, L_ + "declares at most one name")
        if reg: ex.prove_seq_eq(reg[0][0], name, L_ + "declares its own name")
        if ex.branch(null(r)):
            ex.oblige(not lst, L_ + "a rejected declaration lists no variable")
            ex.oblige(z3.Bool("the name is declared") if reg else True, L_ + "a rejected declaration declares no name")
            ex.oblige(Or(Not(good(ex, p)), z3.Bool("the name is declared")), L_ + "a new name of a known type and positive size is accepted")
            return rejected(ex, c, L_, True)
        ex.oblige(And(good(ex, p), Not(z3.Bool("the name is declared")) if reg else False), L_ + "another type, a size below one or a name declared before is an error")
        ex.prove_seq_eq(errors(ex, this), before + ex.store.get("annotated#0", Seq()), L_ + "an accepted declaration yields no error, other than those of its annotations")
        ex.oblige(len(lst) == 1 and same_ptr(lst[0], r), L_ + "an accepted declaration lists its variable once")
        ex.prove_seq_eq(ex.as_seq(get(ex, r, "name")), name, L_ + "the variable has the name declared")
        q, b, single, n = parts(ex, p)
        t = get(ex, r, "typ")
        ex.oblige(Not(null(t)), L_ + "the variable has a type")
        ex.oblige(eq(tag(ex, t), If(q, If(single, tt("Qubit"), tt("QubitArray")), If(single, tt("Bit"), tt("BitArray")))), L_ + "the type declared")
        ex.oblige(eq(get(ex, t, "size"), If(single, 1, n)), L_ + "the size declared, one for a single qubit or bit")
        ex.oblige(loc_same(ex, loc(ex, r), loc(ex, ident_)), L_ + "the variable is located at its name")
        ex.prove_seq_eq(vec(ex, get(ex, r, "annotations")), annotations_of(ex, ident(node(ex, p))), L_ + "the variable carries its annotations")
        if len(reg) == 1:
            w = reg[0][1]
            ex.oblige(And(is_leaf(ex, w, V, "VariableRef"), same_ptr(get(ex, w, "variable"), r)), L_ + "the name stands for the variable")
    v.contract("visit_variable", unit, d, setup, post)
    v.contracts = saved

def annotation_data(v):
    cls = SYN + "::AnnotationData"
    unit, d = v.prog.find(SA + "::visit_annotation_data")
    L_ = "visit_annotation_data: "
    RES = SEM + "::AnnotationData"
    saved = v.contracts
    def visit(ex, unit, d, this, args):
        """Expression::visit: the value of the expression, or an analysis error, perhaps located"""
        o = ident(this.get(ex))
        fails, w = ev(ex, o)
        if ex.branch(fails): raise failure(ex, "operand of " + o.name, o.args)
        return anyof(VAL, w)
    v.contracts = dict(saved, **{SYN + "::Node::visit": visit})
    def operands(ex, p): return vec(ex, get(ex, get(ex, p, "operands", cls), "items", SYN + "::ExpressionList"))
    def setup(ex):
        r = start(ex, cls, own_sema(ex))
        ex.inputs["operands"] = ex.seq_len(operands(ex, r[2][2]))
        return r
    def post(ex, r, c):
        this, before, p = c
        r = unbox(ex, r, ONE(RES), L_[:-2])
        ex.oblige(Not(null(r)), L_ + "yields an annotation")
        if ex.branch(null(r)): return
        for f in ("interface", "operation"): ex.prove_seq_eq(ex.as_seq(get(ex, r, f)), ex.as_seq(get(ex, get(ex, p, f, cls), "name", SYN + "::Identifier")), L_ + "its " + f)
        ex.oblige(loc_same(ex, loc(ex, r), loc(ex, p)), L_ + "located where it is written")
        s = operands(ex, p)
        def f(k):
            fails, w = ev(ex, node(ex, ex.seq_at(s, k)))
            return [(fails, Seq()), (Not(fails), Seq([U(w)]))]
        ex.prove_seq_eq(vec(ex, get(ex, r, "operands")), fold(ex, ex.seq_len(s), f), L_ + "the values of its operands in order, without those that fail")
        def g(k):
            o = ident(node(ex, ex.seq_at(s, k)))
            fails, _ = ev(ex, o)
            return [(And(fails, c), e) for c, e in located(ex, "operand of " + o.name, o.args, loc(ex, p))] + [(Not(fails), Seq())]
        ex.prove_seq_eq(errors(ex, this), before + fold(ex, ex.seq_len(s), g), L_ + "one error for each operand that fails, located")
    v.contract("visit_annotation_data", unit, d, setup, post)
    v.contracts = saved

def annotated(v):
    cls = SYN + "::Annotated"
    unit, d = v.prog.find(SA + "::visit_annotated")
    L_ = "visit_annotated: "
    def one(ex, unit, d, this, args):
        o = ident(ex.lvof(args[0]).get(ex))
        return anyof("tree::base::One<%s::AnnotationData>" % SEM, sym_ptr(ex, SEM + "::AnnotationData", "annotation of " + o.name, tuple(o.args), False))
    saved = v.contracts
    v.contracts = dict(saved, **{SA + "::visit_annotation_data": one})
    def setup(ex):
        p = sym_node(ex, cls, "node")
        s = vec(ex, get(ex, p, "annotations", cls)); ex.inputs["annotations"] = ex.seq_len(s)
        return sema(ex), [CellLV(p.cell)], s
    def post(ex, r, s):
        r = vec(ex, unbox(ex, r, ANNOT, L_[:-2]))
        ex.oblige(eq(ex.seq_len(r), ex.seq_len(s)), L_ + "one annotation for each written")
        i = ex.sym_int("i", (), 0, MAXLEN)
        if not ex.branch(lt(i, ex.seq_len(s))): return
        o = ident(node(ex, ex.seq_at(s, i)))
        ex.oblige(ptr_same(ex, ex.seq_at(r, i), sym_ptr(ex, SEM + "::AnnotationData", "annotation of " + o.name, tuple(o.args), False)), L_ + "each annotation, in order")
    v.contract("visit_annotated", unit, d, setup, post)
    v.contracts = saved

def located(ex, name, args, where):
    """fold cases: the error a failing part raises, with a location of its own or that of the node around it"""
    e = failure(ex, name, args).v.get(ex)
    own = e.f["location_"]
    return [(Not(own.null), Seq([U(e)])), (own.null, Seq([U(ex.freeze(e.with_("location_", loc_copy(ex, where)), ex.store, {}))]))]

def block(v):
    cls = SYN + "::GlobalBlock"
    unit, d = v.prog.find(SA + "::visit_global_block")
    L_ = "visit_global_block: "
    def visit(ex, unit, d, this, args):
        """a statement's visit: records its errors (visit_variable, visit_gate_instruction, ...: nothing escapes them), or raises"""
        o = ident(this.get(ex))
        if ex.branch(may_fail(ex, "statement", o)): raise failure(ex, "statement of " + o.name, o.args)
        push_errors(ex, ex.lvof(args[0]), errors_in(ex, "statement", o))
        return Special("any", None)
    saved = v.contracts
    v.contracts = dict(saved, **{SYN + "::Node::visit": visit})
    def setup(ex):
        c = Cell("node", (), cls); p = Ptr(c, False, cls)
        s = vec(ex, get(ex, p, "statements", SYN + "::Block")); ex.inputs["statements"] = ex.seq_len(s)
        this = own_sema(ex)
        sc = scopes(ex, this)
        ex.assume(le(1, ex.seq_len(sc)))      # the analyzer starts with the global scope (constructor: C20) and keeps it
        return this, [CellLV(c)], (this, errors(ex, this), p, s, sc)
    def post(ex, r, c):
        this, before, p, s, sc = c
        where = loc(ex, p)
        def f(k):
            o = ident(node(ex, ex.seq_at(s, k)))
            bad = may_fail(ex, "statement", o)
            return [(And(bad, c), e) for c, e in located(ex, "statement of " + o.name, o.args, where)] + [(Not(bad), errors_in(ex, "statement", o))]
        ex.prove_seq_eq(errors(ex, this), before + fold(ex, ex.seq_len(s), f), L_ + "every statement is visited once, in order, whatever becomes of the others, and failures are located")
        if not (isinstance(r, Special) and r.kind == "any"): raise Unsupported("result of visit_global_block")
        t = r.x[1]
        if not (isinstance(t, Special) and t.kind == "tuple" and len(t.x) == 2): raise Unsupported("result of visit_global_block")
        top = ex.seq_at(sc, 0)
        ex.oblige(same_ptr(ex.rv(t.x[0]), ex.field(top, "block")), L_ + "yields the block the statements go to")
        ex.prove_seq_eq(vec(ex, t.x[1]), vec(ex, ex.field(top, "variables")), L_ + "yields the variables the declarations go to")
    v.contract("visit_global_block", unit, d, setup, post)
    v.contracts = saved
def scopes(ex, this):
    a = ex.field(this.get(ex), "analyzer_")
    return ex.as_seq(ex.field(a.get(ex) if isinstance(a, LV) else a, "scope_stack_"))

def run_C22(v):
    v.contracts = dict(ERR_CONTRACTS)
    v.part(add_statement_spec); v.part(asm); v.part(variable); v.part(annotation_data); v.part(annotated); v.part(block)
    v.part(gate_instruction, "C22"); v.part(non_gate_instruction, "C22")

# ---- versions and programs (C23) ---------------------------------------------------------------
VER = "cqasm::version::Version"
from .version_specs import I64
def items_of(ex, x):
    """the components of a version value"""
    x = ex.rv(x)
    if isinstance(x, SymRef): x = ex.materialize(x)
    return x.f["#std::vector"] if isinstance(x, Obj) else ex.as_seq(x)
def first_difference(ex, sa, sb, name):
    """compare(a, b) as specified under C08: the sign of the first difference, missing components counting as zero"""
    na, nb = ex.seq_len(sa), ex.seq_len(sb)
    at = lambda s, n: (lambda i: simp(If(lt(i, n), ex.seq_at(s, i), 0)))
    def sym_at(s, n):
        if len(s.atoms) == 1 and isinstance(s.atoms[0], SL): return lambda i: simp(If(lt(i, n), s.atoms[0].base.elem(ex, add(s.atoms[0].lo, i)), 0))
        c = cint(n)
        return lambda i: simp(nested([ex.seq_at(s, k) for k in range(c)], i))
    def nested(vs, i):
        r = 0
        for k in reversed(range(len(vs))): r = If(eq(i, k), vs[k], r)
        return r
    ea, eb = sym_at(sa, na), sym_at(sb, nb)
    M = simp(If(lt(na, nb), nb, na))
    fd, i = z3.Int("fd " + name), z3.Int("i")
    ex.add_fact(And(le(0, fd), le(fd, M)))
    ex.add_fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < fd), bz(eq(ea(i), eb(i))))))
    ex.add_fact(Implies(lt(fd, M), Not(eq(ea(fd), eb(fd)))))
    return simp(If(eq(fd, M), 0, If(lt(ea(fd), eb(fd)), -1, 1)))
def compare_contract(known):
    """Version::compare on the versions a, b of known() -> (a, b, outcome)"""
    def compare(ex, unit, d, this, args):
        a, b, spec = known(ex)
        x, y = items_of(ex, this.get(ex)), items_of(ex, args[0])
        same = lambda p, q: ex.valid(ex.seq_eq_cond(p, q))
        if same(x, a) and same(y, b): return spec
        if same(x, b) and same(y, a): return simp(-spec)
        raise Unsupported("comparison of other versions")
    return compare
def text_version(ex, unit, d, this, args):
    """Version(text) (C07), for the texts of the code"""
    x = ex.rv(args[0]) if args else None
    s = x.seq if isinstance(x, CStr) else x if isinstance(x, Seq) else None
    t = ex.concrete_str(s) if s is not None and hasattr(ex, "concrete_str") else literal(s)
    if t is None or not all(p.isdigit() for p in t.split(".")): return NotImplemented
    return Obj(VER, {"#std::vector": Seq([U(int(p)) for p in t.split(".")])})
def literal(s):
    if s is None: return None
    out = ""
    for a in s.atoms:
        if not isinstance(a, U): return None
        c = cint(a.v)
        if c is None: return None
        out += chr(c)
    return out
def show_version(ex, unit, d, this, args):
    """operator<<(ostream, Version) (C07): some text (only error messages hold it here)"""
    from engine.lib_std import os_write
    os_write(ex, args[0], ex.sym_string("text of a version"))
    return args[0]
def api_of(ex, this): 
    a = ex.field(this.get(ex), "analyzer_")
    return items_of(ex, ex.field(a.get(ex) if isinstance(a, LV) else a, "api_version"))

def visit_version(v):
    cls = SYN + "::Version"
    unit, d = v.prog.find(SA + "::visit_version")
    L_ = "visit_version: "
    def setup(ex):
        r = start(ex, cls, own_sema(ex))
        this, before, p = r[2]
        a, b = items_of(ex, get(ex, p, "items", cls)), api_of(ex, this)
        ex.inputs["version"] = a; ex.inputs["supported"] = b
        spec = first_difference(ex, a, b, "version")
        ex.store["versions#0"] = (a, b, spec)
        return r[0], r[1], (this, before, p, a, b, spec)
    def post(ex, r, c):
        this, before, p, a, b, spec = c
        r = unbox(ex, r, ONE(SEM + "::Version"), L_[:-2])
        ex.oblige(Not(null(r)), L_ + "yields a version")
        if null(r) is True: return
        got, e = items_of(ex, get(ex, r, "items")), errors(ex, this)
        n = ex.seq_len(a)
        i = ex.sym_int("i", (), 0, MAXLEN)
        ex.oblige(loc_same(ex, loc(ex, r), loc(ex, p)), L_ + "the version is located where it is written")
        if ex.branch(eq(ex.seq_len(e), ex.seq_len(before))):
            ex.prove_seq_eq(e, before, L_ + "no error is lost")
            ex.oblige(eq(spec, 0), L_ + "a version that differs from the supported one is an error")
            ex.oblige(Implies(lt(i, n), le(0, ex.seq_at(a, i))), L_ + "a negative component is an error")
            return ex.prove_seq_eq(got, a, L_ + "the version states the accepted components")
        k = z3.Int("k!")
        good = And(eq(spec, 0), z3.ForAll([k], z3.Implies(z3.And(k >= 0, bz(lt(k, n))), bz(le(0, ex.seq_at(a, k))))))
        ex.oblige(Not(good), L_ + "the supported version is accepted")
        m = ex.seq_len(before)
        ex.oblige(eq(ex.seq_len(e), add(m, 1)), L_ + "one error")
        ex.prove_seq_eq(ex.seq_slice(e, 0, m), before, L_ + "no error is lost")
        ex.oblige(loc_same(ex, ex.field(ex.seq_at(e, m), "location_"), loc(ex, p)), L_ + "the error is located at the version")
        ex.prove_seq_eq(got, b, L_ + "the version defaults to the supported one")
    saved = v.contracts
    v.contracts = dict(saved, **{VER + "::compare": compare_contract(lambda ex: ex.store["versions#0"]), "cqasm::version::operator<<": show_version})
    v.contract("visit_version", unit, d, setup, post)
    v.contracts = saved

def visit_program(v):
    cls = SYN + "::Program"
    unit, d = v.prog.find(SA + "::visit_program")
    L_ = "visit_program: "
    VEC = "tree::base::Any<%s::Variable>" % SEM
    def version(ex, unit, d, this, args):
        o = ident(ex.lvof(args[0]).get(ex))
        push_errors(ex, this, errors_in(ex, "version", o))
        return anyof(ONE(SEM + "::Version"), sym_ptr(ex, SEM + "::Version", "version of " + o.name, tuple(o.args), False))
    def variables(ex, o): return ex.sym_list("variables of " + o.name, tuple(o.args), lambda e, m, x: sym_ptr(e, SEM + "::Variable", m, x, False), SEM + "::Variable")
    def global_block(ex, unit, d, this, args):
        o = ident(ex.lvof(args[0]).get(ex))
        push_errors(ex, this, errors_in(ex, "block", o))
        return Special("any", ("std::tuple<tree::base::One<%s::Block>, const %s &>" % (SEM, VEC), Special("tuple", (sym_ptr(ex, SEM + "::Block", "block of " + o.name, tuple(o.args), False), ex.temp(variables(ex, o))))))
    saved = v.contracts
    v.contracts = dict(saved, **{SA + "::visit_version": version, SA + "::visit_global_block": global_block})
    def setup(ex): return start(ex, cls, own_sema(ex))
    def post(ex, r, c):
        this, before, p = c
        if not (isinstance(r, Special) and r.kind == "any"): raise Unsupported("result of visit_program")
        res = r.x[1]
        api = api_of(ex, this)
        root = ex.field(res, "root")
        ex.oblige(Not(null(root)), L_ + "yields a program")
        vo, bo = (ident(node(ex, get(ex, p, f, cls))) for f in ("version", "block"))
        ex.prove_seq_eq(items_of(ex, get(ex, root, "api_version")), api, L_ + "it states the supported version as its API version")
        ex.oblige(ptr_same(ex, get(ex, root, "version"), sym_ptr(ex, SEM + "::Version", "version of " + vo.name, tuple(vo.args), False)), L_ + "its version is that of the version statement")
        ex.oblige(ptr_same(ex, get(ex, root, "block"), sym_ptr(ex, SEM + "::Block", "block of " + bo.name, tuple(bo.args), False)), L_ + "its block is the global block")
        ex.prove_seq_eq(vec(ex, get(ex, root, "variables")), variables(ex, bo), L_ + "its variables are those declared")
        ex.prove_seq_eq(vec(ex, ex.field(res, "errors")), before + errors_in(ex, "version", vo) + errors_in(ex, "block", bo), L_ + "the errors of the version and of the statements, in order")
    v.contract("visit_program", unit, d, setup, post)
    v.contracts = saved

def constructor(v):
    unit, d = v.prog.find(AN + "::(ctor)", lambda u, d: len(d["ps"]) == 1 and not d.get("cc") and not d.get("mc"))
    L_ = "Analyzer: "
    def setup(ex):
        s = ex.sym_list("api_version", (), lambda e, nm, a: e.sym_int(nm, a, -I64 - 1, I64))
        ex.inputs["api_version"] = s
        three = Seq([U(3), U(0)])
        spec = first_difference(ex, s, three, "api version")
        ex.store["versions#0"] = (s, three, spec)
        this = ex.temp(Obj(AN, {}), "analyzer")
        return this, [ex.temp(Obj(VER, {"#std::vector": s}))], (this, s, spec)
    def post(ex, r, c):
        this, s, spec = c
        ex.oblige(eq(spec, 0), L_ + "another version is refused")
        r = this.get(ex)
        ex.prove_seq_eq(items_of(ex, ex.field(r, "api_version")), s, L_ + "the supported version is the one given")
        st = ex.as_seq(ex.field(r, "scope_stack_"))
        ex.oblige(eq(ex.seq_len(st), 1), L_ + "starts with the global scope alone")
        sc = ex.seq_at(st, 0)
        b = ex.field(sc, "block")
        ex.oblige(Not(null(b)), L_ + "the global scope has a block")
        if null(b) is not True: ex.oblige(ex.empty(vec(ex, get(ex, b, "statements"))), L_ + "without statements")
        ex.oblige(ex.empty(vec(ex, ex.field(sc, "variables"))), L_ + "and without variables")
    def thr(ex, t, c): ex.oblige(Not(eq(c[2], 0)), L_ + "version 3.0 is supported")
    saved = v.contracts
    v.contracts = dict(saved, **{VER + "::compare": compare_contract(lambda ex: ex.store["versions#0"]), VER + "::(ctor)": text_version, VER + "::Version": text_version})
    v.contract("Analyzer constructor", unit, d, setup, post, thr)
    v.contracts = saved

def run_C23(v):
    v.contracts = dict(ERR_CONTRACTS)
    v.part(visit_version); v.part(visit_program); v.part(constructor)
