"""Contracts for src/v3x/semantic_analyzer.cpp and include/libqasm/v3x/semantic_analyzer.hpp (C15, C18, C19, C21, C22, C23)."""
from .node_util import *
from .resolver_specs import vec, throw, ptr_same, name_res_contract

AZ = "cqasm::v3x::analyzer"
AN = AZ + "::Analyzer"
SA = AZ + "::SemanticAnalyzer"
SYN = "cqasm::v3x::syntactic"
VAL = "tree::base::One<%s::ValueBase>" % V

def load():
    p = Program()
    for f in ("src/v3x/semantic_analyzer.cpp", "src/v3x/analyzer.cpp", "src/v3x/values.cpp", "src/v3x/types.cpp"): p.load(f, standin=True)
    return p

def anyof(ty, v): return Special("any", (ty, v))
def sema(ex): return CellLV(Cell("sema", (), SA))
def ident(o):
    if isinstance(o, Obj) and "#sym" in o.f: o = o.f["#sym"]
    if not isinstance(o, SymRef): raise Unsupported("visiting a node under construction")
    return o
def ev(ex, o):
    """specification: (evaluation of an expression node fails, its value)"""
    o = ident(o)
    a = tuple(o.args)
    return ex.uf("evaluation fails:" + o.name, a, z3.BoolSort()), sym_ptr(ex, V + "::ValueBase", "value of " + o.name, a, False)
def visit_expr(ex, unit, d, this, args):
    """visit_expression / Expression::visit: the value of the expression, or an analysis error"""
    o = ex.lvof(args[0]).get(ex) if d["q"].endswith("visit_expression") else this.get(ex)
    fails, v = ev(ex, o)
    if ex.branch(fails): raise CxxThrow(ex.temp(Obj(ERR, {"message_": Seq(), "what_message_": Seq(), "location_": NULL}), "exc"), ERR)
    return anyof(VAL, v)

def expression(v):
    unit, d = v.prog.find(SA + "::visit_expression")
    def setup(ex):
        p = sym_node(ex, SYN + "::Expression", "expr"); ex.inputs["expr.kind"] = tag(ex, p)
        return sema(ex), [CellLV(p.cell)], p
    def post(ex, r, p):
        fails, w = ev(ex, node(ex, p))
        r = unbox(ex, r, VAL, "visit_expression")
        ex.oblige(And(Not(fails), ptr_same(ex, r, w)), "visit_expression: yields the value of the expression")
        ex.oblige(loc_same(ex, loc(ex, r), loc(ex, p)), "visit_expression: located at the expression")
    def thrown(ex, t, p):
        fails, w = ev(ex, node(ex, p))
        ex.oblige(And(fails, t.cls == ERR), "visit_expression: fails only if the evaluation does")
    saved = v.contracts
    v.contracts = dict(saved, **{SYN + "::Node::visit": visit_expr})
    v.contract("visit_expression", unit, d, setup, post, thrown)
    v.contracts = saved

def unbox(ex, r, ty, label):
    r = ex.rv(r)
    ok = isinstance(r, Special) and r.kind == "any" and r.x is not None and r.x[0] == ty
    ex.oblige(ok, label + ": yields a " + ty)
    if not ok: raise PathEnd()
    return r.x[1]

OPS = {"unary_minus": ("-", ["expr"]), "bitwise_not": ("~", ["expr"]), "logical_not": ("!", ["expr"]), "ternary_conditional": ("?:", ["cond", "if_true", "if_false"])}
OPS.update({k: (o, ["lhs", "rhs"]) for k, o in dict(power="**", product="*", division="/", modulo="%", addition="+", subtraction="-", shift_left="<<", shift_right=">>", cmp_gt=">", cmp_lt="<",
            cmp_ge=">=", cmp_le="<=", cmp_eq="==", cmp_ne="!=", bitwise_and="&", bitwise_xor="^", bitwise_or="|", logical_and="&&", logical_xor="^^", logical_or="||").items()})
def camel(n): return "".join(w.capitalize() for w in n.split("_"))
def call_impl(v): return v.prog.find(SA + "::visit_function_call", lambda u, d: len(d["ps"]) == 2)

def operators(v):
    """every operator expression evaluates the operator's function on its own operands, in source order"""
    RES = Cell("result of the call", (), V + "::ValueBase")
    def rec(ex, unit, d, this, args):
        if len(d["ps"]) != 2: return NotImplemented
        n, a = ex.rv(args[0]), ex.rv(args[1])
        name = get(ex, n, "name")
        items = None if a.cell is None else vec(ex, get(ex, a, "items"))
        ex.store["called#0"] = ex.store.get("called#0", ()) + ((ex.as_seq(name), items, a),)
        if ex.branch(z3.Bool("the call fails")): raise CxxThrow(ex.temp(Obj(ERR, {}), "exc"), ERR)
        return Ptr(RES, False, V + "::ValueBase")
    saved = v.contracts
    v.contracts = dict(saved, **{SA + "::visit_function_call": rec})
    for k, (op, fields) in OPS.items():
        L_ = "visit_%s_expression: " % k
        cls = SYN + "::" + camel(k) + "Expression"
        unit, d = v.prog.find(SA + "::visit_%s_expression" % k)
        def setup(ex):
            c = Cell("node", (), cls)
            return sema(ex), [CellLV(c)], Ptr(c, False, cls)
        def check(ex, p):
            g = ex.store.get("called#0", ())
            ex.oblige(len(g) == 1, L_ + "calls one function")
            if len(g) != 1: return False
            name, items, _ = g[0]
            ex.oblige(name.text() == "operator" + op, L_ + "the function of the operator")
            got = items.concrete() if items is not None else None
            ex.oblige(got is not None and len(got) == len(fields) and all(same_ptr(x, get(ex, p, f, cls)) for x, f in zip(got, fields)), L_ + "on its own operands in source order")
            return True
        def post(ex, r, p):
            check(ex, p)
            r = unbox(ex, r, VAL, L_[:-2])
            ex.oblige(r.cell is not None and r.cell.key == RES.key, L_ + "yields what the function yields")
        def thrown(ex, t, p):
            if check(ex, p): ex.oblige(t.cls == ERR, L_ + "a failed call is an analysis error")
        v.contract("visit_%s_expression" % k, unit, d, setup, post, thrown)
    unit, d = v.prog.find(SA + "::visit_function_call", lambda u, d: len(d["ps"]) == 1)
    cls = SYN + "::FunctionCall"
    def setup(ex):
        c = Cell("node", (), cls)
        return sema(ex), [CellLV(c)], Ptr(c, False, cls)
    def check(ex, p):
        g = ex.store.get("called#0", ())
        ex.oblige(len(g) == 1, "visit_function_call: calls one function")
        if len(g) != 1: return
        name, items, a = g[0]
        ex.prove_seq_eq(name, ex.as_seq(get(ex, get(ex, p, "name", cls), "name", SYN + "::Identifier")), "visit_function_call: the function named")
        w = get(ex, p, "arguments", cls)
        ex.oblige(same_ptr(a, w) and ex.valid(bz(a.null) == bz(w.null)), "visit_function_call: on the arguments written")
    def post(ex, r, p):
        check(ex, p)
        r = unbox(ex, r, VAL, "visit_function_call")
        ex.oblige(r.cell is not None and r.cell.key == RES.key, "visit_function_call: yields what the function yields")
    v.contract("visit_function_call(node)", unit, d, setup, post, lambda ex, t, p: check(ex, p))
    v.contracts = saved

def calls(v):
    """visit_function_call(name, arguments): the named function applied to the values of the arguments in order"""
    unit, d = call_impl(v)
    RES = lambda ex: sym_ptr(ex, V + "::ValueBase", "function result", (), True)
    def res(ex, unit, d, this, args):
        ex.store["called#0"] = ex.store.get("called#0", ()) + ((ex.as_seq(ex.rv(args[0])), vec(ex, args[1])),)
        if ex.branch(z3.Bool("resolution fails")): raise CxxThrow(ex.temp(Obj(ERR, {}), "exc"), ERR)
        return RES(ex)
    saved = v.contracts
    v.contracts = dict(saved, **{SA + "::visit_expression": visit_expr, AN + "::resolve_function": res})
    cls = SYN + "::ExpressionList"
    def setup(ex):
        n = sym_node(ex, SYN + "::Identifier", "identifier"); a = sym_ptr(ex, cls, "arguments", (), True)
        s = vec(ex, get(ex, a, "items", cls))
        ex.inputs["arguments"] = ex.seq_len(s)
        return sema(ex), [ex.temp(n), ex.temp(a)], (n, a, s)
    def check(ex, c, thrown=False):
        n, a, s = c
        g = ex.store.get("called#0", ())
        ex.oblige(len(g) == 1 or thrown and not g, "visit_function_call: resolves one function")
        i = ex.sym_int("i", (), 0, MAXLEN)
        if len(g) != 1: return False
        name, vals = g[0]
        ex.prove_seq_eq(name, ex.as_seq(get(ex, n, "name", SYN + "::Identifier")), "visit_function_call: the function named")
        if ex.branch(a.null): ex.oblige(ex.empty(vals), "visit_function_call: no arguments without an argument list"); return True
        ex.oblige(eq(ex.seq_len(vals), ex.seq_len(s)), "visit_function_call: one value per argument")
        if not ex.branch(lt(i, ex.seq_len(s))): return True
        fails, w = ev(ex, node(ex, ex.seq_at(s, i)))
        ex.oblige(And(Not(fails), ptr_same(ex, ex.seq_at(vals, i), w)), "visit_function_call: each argument is evaluated, in order")
        return True
    def post(ex, r, c):
        check(ex, c)
        r = ex.rv(r); w = RES(ex)
        ex.oblige(same_ptr(r, w), "visit_function_call: yields what the function yields")
        ex.oblige(Not(w.null), "visit_function_call: an implementation without result is an error")
    def thrown(ex, t, c):
        called = check(ex, c, True)
        ex.oblige(t.cls == ERR, "visit_function_call: fails with an analysis error")
        if called: ex.oblige(Or(z3.Bool("resolution fails"), RES(ex).null), "visit_function_call: fails only if the function does")
    v.contract("visit_function_call(name, arguments)", unit, d, setup, post, thrown)
    v.contracts = saved

def literals(v):
    """literals and identifiers"""
    for k, leafname in (("boolean", "ConstBool"), ("integer", "ConstInt"), ("float", "ConstFloat")):
        cls = SYN + "::" + camel(k) + "Literal"
        unit, d = v.prog.find(SA + "::visit_%s_literal" % k)
        def setup(ex):
            c = Cell("node", (), cls); p = Ptr(c, False, cls)
            ex.inputs["literal"] = get(ex, p, "value", cls)
            return sema(ex), [CellLV(c)], p
        def post(ex, r, p):
            L_ = "visit_%s_literal" % k
            r = unbox(ex, r, VAL, L_)
            ex.oblige(Not(null(r)), L_ + ": yields a value")
            ex.oblige(is_leaf(ex, r, V, leafname), L_ + ": a constant of the literal's type")
            x, w = get(ex, r, "value", V + "::" + leafname), get(ex, p, "value", cls)
            ex.oblige(simp(x == w) if isz(x) and z3.is_fp(x) else simp(bz(x) == bz(w)) if leafname == "ConstBool" else eq(x, w), L_ + ": the literal's value")
        v.contract("visit_%s_literal" % k, unit, d, setup, post)
    unit, d = v.prog.find(SA + "::visit_identifier")
    def res(ex, unit, d, this, args):
        ex.store["asked#0"] = ex.store.get("asked#0", ()) + (ex.as_seq(ex.rv(args[0])),)
        if ex.branch(z3.Bool("unknown name")): raise CxxThrow(ex.temp(Obj(ERR, {}), "exc"), ERR)
        return sym_node(ex, V + "::ValueBase", "resolved")
    saved = v.contracts
    v.contracts = dict(saved, **{AN + "::resolve_variable": res})
    cls = SYN + "::Identifier"
    def setup(ex):
        c = Cell("node", (), cls)
        return sema(ex), [CellLV(c)], Ptr(c, False, cls)
    def check(ex, p):
        g = ex.store.get("asked#0", ())
        ex.oblige(len(g) == 1, "visit_identifier: resolves one name")
        if len(g) == 1: ex.prove_seq_eq(g[0], ex.as_seq(get(ex, p, "name", cls)), "visit_identifier: its own name")
    def post(ex, r, p):
        check(ex, p)
        r = unbox(ex, r, VAL, "visit_identifier")
        ex.oblige(same_ptr(r, sym_node(ex, V + "::ValueBase", "resolved")), "visit_identifier: yields what the name resolves to")
    v.contract("visit_identifier", unit, d, setup, post, lambda ex, t, p: check(ex, p))
    v.contracts = saved

# ---- indices -----------------------------------------------------------------------------------
CI = V + "::ConstInt"
ONE_CI, MANY_CI = "tree::base::One<%s>" % CI, "tree::base::Many<%s>" % CI
def as_int(ex, w):
    """specification: (a value is a constant integer after promotion, which one)"""
    if ex.branch(is_leaf(ex, w, V, "ConstInt")): return True, get(ex, w, "value", CI)
    if ex.branch(is_leaf(ex, w, V, "ConstBool")): return True, If(get(ex, w, "value", V + "::ConstBool"), 1, 0)
    return False, 0
def const_int(v):
    unit, d = v.prog.find(SA + "::visit_const_int")
    def setup(ex):
        p = sym_node(ex, SYN + "::Expression", "expr")
        w = ev(ex, node(ex, p))[1]
        ex.inputs["value.kind"] = tag(ex, w)
        vt_, ok = value_type(ex, w)
        ex.assume(ok)          # an indexed reference refers to an array
        return sema(ex), [CellLV(p.cell)], p
    def post(ex, r, p):
        fails, w = ev(ex, node(ex, p))
        ok, n = as_int(ex, w)
        ex.oblige(And(Not(fails), ok), "visit_const_int: anything but a constant integer is an error")
        if ok: ex.oblige(eq(ex.rv(r), n), "visit_const_int: yields the value of the expression")
    def thrown(ex, t, p):
        fails, w = ev(ex, node(ex, p))
        ex.oblige(t.cls == ERR, "visit_const_int: fails with an analysis error")
        if ex.branch(fails): return
        ex.oblige(not as_int(ex, w)[0], "visit_const_int: a constant integer is accepted")
    saved = v.contracts
    v.contracts = dict(saved, **{SYN + "::Node::visit": visit_expr})
    v.contract("visit_const_int", unit, d, setup, post, thrown)
    v.contracts = saved

def ci(ex, p):
    """specification: (an index expression fails, its value)"""
    o = ident(node(ex, p))
    return ex.uf("not a constant integer:" + o.name, o.args, z3.BoolSort()), ex.sym_int("integer of " + o.name, o.args, -(1 << 63), (1 << 63) - 1)
def ci_contract(ex, unit, d, this, args):
    p = Ptr(args[0].cell, False) if isinstance(args[0], CellLV) else None
    if p is None: raise Unsupported("index expression %r" % (args[0],))
    fails, n = ci(ex, p)
    if ex.branch(fails): raise CxxThrow(ex.temp(Obj(ERR, {"location_": NULL}), "exc"), ERR)
    return n
def opt_same(ex, p, q): return loc_same(ex, loc(ex, p), loc(ex, q))

def index_nodes(v):
    saved = v.contracts
    v.contracts = dict(saved, **{SA + "::visit_const_int": ci_contract})
    cls = SYN + "::IndexItem"
    unit, d = v.prog.find(SA + "::visit_index_item")
    def setup(ex):
        c = Cell("node", (), cls); p = Ptr(c, False, cls)
        ex.inputs["index"] = ci(ex, get(ex, p, "index", cls))[1]
        return sema(ex), [CellLV(c)], p
    def post(ex, r, p):
        fails, n = ci(ex, get(ex, p, "index", cls))
        r = unbox(ex, r, ONE_CI, "visit_index_item")
        ex.oblige(Not(null(r)), "visit_index_item: yields an index")
        ex.oblige(And(Not(fails), eq(get(ex, r, "value", CI), n)), "visit_index_item: the index written")
        ex.oblige(opt_same(ex, r, p), "visit_index_item: located where it is written")
    v.contract("visit_index_item", unit, d, setup, post, lambda ex, t, p: ex.oblige(And(t.cls == ERR, ci(ex, get(ex, p, "index", cls))[0]), "visit_index_item: fails only if the expression is no constant integer"))
    rcls = SYN + "::IndexRange"
    unit, d = v.prog.find(SA + "::visit_index_range")
    def ends(ex, p): return ci(ex, get(ex, p, "first", rcls)), ci(ex, get(ex, p, "last", rcls))
    def setup(ex):
        c = Cell("node", (), rcls); p = Ptr(c, False, rcls)
        (f1, a), (f2, b) = ends(ex, p)
        ex.inputs["first"], ex.inputs["last"] = a, b
        # precondition obliged by visit_index: a range is expanded only within the declared size (a 64-bit integer);
        # a list longer than 2^62 cannot be held in memory
        ex.assume(And(lt(b, (1 << 63) - 1), Implies(le(a, b), le(0, a)), lt(sub(b, a), MAXLEN)))
        return sema(ex), [CellLV(c)], p
    def post(ex, r, p):
        (f1, a), (f2, b) = ends(ex, p)
        r = vec(ex, unbox(ex, r, MANY_CI, "visit_index_range"))
        ex.oblige(And(Not(f1), Not(f2), le(a, b)), "visit_index_range: a range whose end is below its start is an error")
        ex.oblige(eq(ex.seq_len(r), add(sub(b, a), 1)), "visit_index_range: one index for every integer from first to last, both included")
        i = ex.sym_int("i", (), 0, MAXLEN)
        if not ex.branch(lt(i, ex.seq_len(r))): return
        q = ex.seq_at(r, i)
        ex.oblige(eq(get(ex, q, "value", CI), add(a, i)), "visit_index_range: the integers from first to last in order")
        ex.oblige(opt_same(ex, q, p), "visit_index_range: located where the range is written")
    def thrown(ex, t, p):
        (f1, a), (f2, b) = ends(ex, p)
        ex.oblige(t.cls == ERR, "visit_index_range: fails with an analysis error")
        ex.oblige(Or(f1, f2, lt(b, a)), "visit_index_range: a range from a constant integer to one not below it is accepted")
    v.contract("visit_index_range", unit, d, setup, post, thrown)
    v.contracts = saved

def index_list(v):
    cls = SYN + "::IndexList"
    unit, d = v.prog.find(SA + "::visit_index_list")
    def item(ex, o): return sym_node(ex, CI, "index of " + o.name, tuple(o.args))
    def rng(ex, o):
        s = ex.sym_list("indices of " + o.name, tuple(o.args), lambda e, m, x: sym_ptr(e, CI, m, x, False), CI)
        return s
    def bad(ex, o, kind): return ex.uf("%s fails:%s" % (kind, o.name), o.args, z3.BoolSort())
    def contract(kind):
        def f(ex, unit, d, this, args):
            o = ident(ex.lvof(args[0]).get(ex))
            if ex.branch(bad(ex, o, kind)): raise CxxThrow(ex.temp(Obj(ERR, {"location_": NULL}), "exc"), ERR)
            return anyof(ONE_CI, item(ex, o)) if kind == "item" else anyof(MANY_CI, rng(ex, o))
        return f
    saved = v.contracts
    v.contracts = dict(saved, **{SA + "::visit_index_item": contract("item"), SA + "::visit_index_range": contract("range")})
    def setup(ex):
        c = Cell("node", (), cls); p = Ptr(c, False, cls)
        s = vec(ex, get(ex, p, "items", cls)); ex.inputs["entries"] = ex.seq_len(s)
        return sema(ex), [CellLV(c)], (p, s)
    def post(ex, r, c):
        p, s = c
        r = vec(ex, unbox(ex, r, MANY_CI, "visit_index_list"))
        def f(k):
            q = ex.seq_at(s, k); o = ident(node(ex, q))
            it = is_leaf(ex, q, SYN, "IndexItem")
            return [(it, Seq([U(item(ex, o))])), (Not(it), rng(ex, o))]
        ex.prove_seq_eq(r, fold(ex, ex.seq_len(s), f), "visit_index_list: the indices of every entry, in order")
    def thrown(ex, t, c):
        ex.oblige(t.cls == ERR, "visit_index_list: fails with an analysis error, if an entry does")
    v.contract("visit_index_list", unit, d, setup, post, thrown)
    v.contracts = saved

def index(v):
    cls = SYN + "::Index"
    unit, d = v.prog.find(SA + "::visit_index")
    def lst(ex): return ex.sym_list("indices", (), lambda e, m, x: sym_ptr(e, CI, m, x, False), CI)
    def list_contract(ex, unit, d, this, args):
        if ex.branch(z3.Bool("the index list fails")): raise CxxThrow(ex.temp(Obj(ERR, {"message_": Seq(), "what_message_": Seq(), "location_": NULL}), "exc"), ERR)
        if args[0].cell.name != "node.indices*": raise Unsupported("another index list")
        # precondition of visit_index_range, for any entry of the list
        p = Ptr(Cell("node", (), cls), False, cls)
        n = parts(ex, p)[-1]
        es = vec(ex, get(ex, get(ex, p, "indices", cls), "items", SYN + "::IndexList"))
        k = ex.sym_int("entry", (), 0, MAXLEN)
        q = ex.seq_at(es, k)
        (f1, a), (f2, b) = [ci(ex, get(ex, q, f, SYN + "::IndexRange")) for f in ("first", "last")]
        ex.oblige(Implies(And(lt(k, ex.seq_len(es)), is_leaf(ex, q, SYN, "IndexRange"), Not(f1), Not(f2), le(a, b)), And(le(0, a), lt(b, n))), "visit_index: a range is expanded only if it is within the declared size")
        return anyof(MANY_CI, lst(ex))
    saved = v.contracts
    v.contracts = dict(saved, **{SA + "::visit_expression": visit_expr, SA + "::visit_index_list": list_contract, SA + "::visit_const_int": ci_contract, V + "::type_of": type_text})
    def setup(ex):
        c = Cell("node", (), cls); p = Ptr(c, False, cls)
        fails, w, var, typ, arr, n = parts(ex, p)
        ex.inputs["value.kind"] = tag(ex, w); ex.inputs["size"] = n
        ex.inputs["indices"] = ex.seq_len(lst(ex))
        return sema(ex), [CellLV(c)], p
    def parts(ex, p):
        fails, w = ev(ex, node(ex, get(ex, p, "expr", cls)))
        var = get(ex, w, "variable", V + "::VariableRef")
        typ = get(ex, var, "typ", SEM + "::Variable")
        arr = And(is_leaf(ex, w, V, "VariableRef"), Or(eq(tag(ex, typ), tt("QubitArray")), eq(tag(ex, typ), tt("BitArray"))))
        return fails, w, var, typ, arr, get(ex, typ, "size", T + "::TypeBase")
    def post(ex, r, p):
        fails, w, var, typ, arr, n = parts(ex, p)
        r = unbox(ex, r, VAL, "visit_index")
        ex.oblige(And(Not(fails), arr), "visit_index: anything but a qubit or bit array variable is an error")
        ex.oblige(Not(null(r)), "visit_index: yields a value")
        ex.oblige(is_leaf(ex, r, V, "IndexRef"), "visit_index: yields an indexed reference")
        ex.oblige(same_ptr(get(ex, r, "variable", V + "::IndexRef"), var), "visit_index: to the variable indexed")
        ex.prove_seq_eq(vec(ex, get(ex, r, "indices", V + "::IndexRef")), lst(ex), "visit_index: with exactly the indices written")
        i = ex.sym_int("i", (), 0, MAXLEN)
        x = get(ex, ex.seq_at(lst(ex), i), "value", CI)
        ex.oblige(Implies(lt(i, ex.seq_len(lst(ex))), And(le(0, x), lt(x, n))), "visit_index: an index below zero or not below the declared size is an error")
    def thrown(ex, t, p):
        ex.oblige(t.cls == ERR, "visit_index: fails with an analysis error")
    v.contract("visit_index", unit, d, setup, post, thrown)
    def setup2(ex):
        this, args, p = setup(ex)
        fails, w, var, typ, arr, n = parts(ex, p)
        i = z3.Int("ii!%d" % ex.fresh_id())
        x = get(ex, ex.seq_at(lst(ex), i), "value", CI)
        ex.assume(And(Not(fails), arr, Not(z3.Bool("the index list fails"))))
        ex.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < iz(ex.seq_len(lst(ex)))), bz(And(le(0, x), lt(x, n))))))
        # ... and the ends of the ranges are constant integers within it, too
        es = vec(ex, get(ex, get(ex, p, "indices", cls), "items", SYN + "::IndexList"))
        q = ex.seq_at(es, i)
        (f1, a), (f2, b) = [ci(ex, get(ex, q, f, SYN + "::IndexRange")) for f in ("first", "last")]
        ex.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < iz(ex.seq_len(es)), bz(is_leaf(ex, q, SYN, "IndexRange"))), bz(And(Not(f1), Not(f2), le(0, a), le(a, b), lt(b, n))))))
        return this, args, p
    v.contract("visit_index (indices within the declared size)", unit, d, setup2, lambda ex, r, c: None, lambda ex, t, c: ex.oblige(False, "visit_index: indices within the declared size are accepted"))
    v.contracts = saved
def type_text(ex, unit, d, this, args):
    """values::type_of, used for messages only"""
    return Seq([OP("type of the value", [], ex.sym_int("typetext.len", (), 0, MAXLEN))])

def run_C19(v):
    v.contracts = dict(ERR_CONTRACTS)
    v.part(expression); v.part(const_int); v.part(index_nodes); v.part(index_list); v.part(index)
def run_expressions(v):
    """the part of C15 that is in the semantic analyzer"""
    v.part(expression); v.part(operators); v.part(calls); v.part(literals)
