"""Contracts for register_consteval_core_functions.* and the constant-expression part of the analyzers (C15, C30)."""
import math
from .node_util import *
from engine.execute import cdiv, cmod, bitop, pow2

F = "cqasm::v3x::function"
AN = "cqasm::v3x::analyzer::Analyzer"
W = 1 << 64
LEAFOF = dict(b="ConstBool", i="ConstInt", f="ConstFloat")

def load():
    p = Program()
    for f in ("src/v3x/register_consteval_core_functions.cpp", "src/v3x/semantic_analyzer.cpp", "src/v3x/analyzer.cpp", "src/v3x/values.cpp", "src/v3x/types.cpp"): p.load(f, standin=True)
    return p

def wrap(x):
    """two's complement 64-bit value of a mathematical integer"""
    return simp((iz(x) + (W >> 1)) % W - (W >> 1))
FAIL = object()
def idiv(ex, a, b):
    if ex.branch(eq(b, 0)): return FAIL
    return wrap(cdiv(a, b))
def imod(ex, a, b):
    if ex.branch(eq(b, 0)): return FAIL
    return cmod(a, b)
def shift(left):
    def f(ex, a, b):
        if not ex.branch(And(le(0, b), lt(b, 64))): return FAIL
        return wrap(iz(a) * pow2(b)) if left else simp(iz(a) / pow2(b))
    return f
RM = z3.RNE()
from engine.lib_std import libm, LIBM
def t(f): return lambda ex, *a: f(*a)
def bit(op): return lambda ex, a, b: bitop(op, a, b, 64, True)
CMP = {"==": (eq, z3.fpEQ, lambda a, b: bz(a) == bz(b)), "!=": (lambda a, b: Not(eq(a, b)), z3.fpNEQ, lambda a, b: bz(a) != bz(b)),
       ">=": (lambda a, b: le(b, a), z3.fpGEQ, lambda a, b: Or(bz(a), Not(bz(b)))), ">": (lambda a, b: lt(b, a), z3.fpGT, lambda a, b: And(bz(a), Not(bz(b)))),
       "<=": (le, z3.fpLEQ, lambda a, b: Or(Not(bz(a)), bz(b))), "<": (lt, z3.fpLT, lambda a, b: And(Not(bz(a)), bz(b)))}
SEL = lambda ex, c, x, y: x if ex.branch(c) else y
# (name, operand types) -> (result type, meaning)
STANDARD = {
 ("operator-", "f"): ("f", t(z3.fpNeg)), ("operator-", "i"): ("i", t(lambda a: wrap(sub(0, a)))),
 ("operator+", "ff"): ("f", t(lambda a, b: z3.fpAdd(RM, a, b))), ("operator+", "ii"): ("i", t(lambda a, b: wrap(add(a, b)))),
 ("operator-", "ff"): ("f", t(lambda a, b: z3.fpSub(RM, a, b))), ("operator-", "ii"): ("i", t(lambda a, b: wrap(sub(a, b)))),
 ("operator*", "ff"): ("f", t(lambda a, b: z3.fpMul(RM, a, b))), ("operator*", "ii"): ("i", t(lambda a, b: wrap(iz(a) * iz(b)))),
 ("operator/", "ff"): ("f", t(lambda a, b: z3.fpDiv(RM, a, b))), ("operator/", "ii"): ("i", idiv), ("operator%", "ii"): ("i", imod),
 ("operator**", "ff"): ("f", t(lambda a, b: libm("pow", a, b))),
 ("operator~", "i"): ("i", t(lambda a: sub(-1, a))), ("operator&", "ii"): ("i", bit("&")), ("operator^", "ii"): ("i", bit("^")), ("operator|", "ii"): ("i", bit("|")),
 ("operator<<", "ii"): ("i", shift(True)), ("operator>>", "ii"): ("i", shift(False)),
 ("operator!", "b"): ("b", t(Not)), ("operator&&", "bb"): ("b", t(And)), ("operator||", "bb"): ("b", t(Or)), ("operator^^", "bb"): ("b", t(lambda a, b: bz(a) != bz(b))),
 ("operator?:", "bff"): ("f", SEL), ("operator?:", "bii"): ("i", SEL), ("operator?:", "bbb"): ("b", SEL),
 ("sqrt", "f"): ("f", t(lambda a: z3.fpSqrt(RM, a))), ("abs", "f"): ("f", t(z3.fpAbs)), ("abs", "i"): ("i", t(lambda a: If(lt(a, 0), wrap(sub(0, a)), a))),
}
for _o, _fs in CMP.items():
    for _k, _f in zip("ifb", _fs): STANDARD["operator" + _o, _k * 2] = ("b", t(_f))
for _n in LIBM: STANDARD[_n, "f"] = ("f", t(lambda a, _n=_n: libm(_n, a)))

def fn_recorder(ex, unit, d, this, args):
    """Analyzer::register_consteval_core_function(name, types, implementation): what was registered, in order"""
    n, o = ex.as_seq(ex.rv(args[0])), ex.rv(args[1])
    if not isinstance(o, (Seq, CStr)): raise Unsupported("registration with a list of types")
    o = ex.as_seq(o)
    if n.text() is None or o.text() is None: raise Unsupported("registration of an undetermined name")
    ex.store["registered#0"] = ex.store.get("registered#0", ()) + ((n.text(), o.text(), ex.rv(args[2])),)
    return UNIT

def registered(ex, v):
    """the registrations the real function makes"""
    unit, d = v.prog.find(F + "::register_consteval_core_functions")
    an = sym_node(ex, AN, "analyzer") if False else Ptr(Cell("analyzer", (), AN), False, AN)
    ex.run_function(unit, d, None, [ex.temp(an)])
    return ex.store.get("registered#0", ())

def promotes(a, b): return "bif".index(a) <= "bif".index(b)
def chosen(regs, name, args):
    """the overload the resolver picks (C13): the last applicable one"""
    for n, o, f in reversed(regs):
        if n == name and len(o) == len(args) and all(promotes(a, p) for a, p in zip(args, o)): return (n, o, f)
    return None
def documented(name, args):
    """the documented overload: the one that needs the fewest promotions"""
    best = [o for n, o in STANDARD if n == name and len(o) == len(args) and all(promotes(a, p) for a, p in zip(args, o))]
    return min(best, key=lambda o: sum("bif".index(p) - "bif".index(a) for a, p in zip(args, o))) if best else None

def functions(v):
    """which overloads are registered and which one every call resolves to"""
    import itertools
    saved = v.contracts
    v.contracts = dict(saved, **{AN + "::register_consteval_core_function": fn_recorder})
    def body(ex):
        regs = registered(ex, v)
        have = {(n, o) for n, o, f in regs}
        for k in STANDARD: ex.oblige(k in have, "registered: %s(%s)" % k)
        for k in have: ex.oblige(k in STANDARD, "nothing else is registered, such as %s(%s)" % k if k not in STANDARD else "nothing else is registered")
        for name in sorted({n for n, o in STANDARD} | {n for n, o in have}):
            for n in range(4):
                for args in itertools.product("bif", repeat=n):
                    c, w = chosen(regs, name, args), documented(name, args)
                    if c is None and w is None: continue
                    ex.oblige(c is not None and w is not None and c[1] == w, "%s on (%s) resolves to the documented overload" % (name, "".join(args)))
    v.scenario("registered functions", body)
    v.contracts = saved

def symconst(ex, k, i):
    """a constant node of kind k with any value"""
    v = {"i": lambda: ex.sym_int("operand%d" % i, (), -(W >> 1), (W >> 1) - 1), "b": lambda: z3.Bool("operand%d" % i), "f": lambda: z3.FP("operand%d" % i, z3.Float64())}[k]()
    ex.inputs["operand %d" % i] = v
    cls = V + "::" + LEAFOF[k]
    return Ptr(ex.newcell(make_node(ex, cls, [v]), "const"), False, V + "::ValueBase"), v

def meanings(v):
    """the implementation every documented call resolves to computes the documented value"""
    saved = v.contracts
    v.contracts = dict(saved, **{AN + "::register_consteval_core_function": fn_recorder, V + "::check_const": check_const})
    for (name, o), (rk, mean) in STANDARD.items():
        L_ = "%s(%s): " % (name, o)
        def body(ex, name=name, o=o, rk=rk, mean=mean, L_=L_):
            regs = registered(ex, v)
            c = chosen(regs, name, o)
            ex.oblige(c is not None and c[1] == o, L_ + "is registered")
            if c is None: return
            nodes, vals = zip(*[symconst(ex, k, i) for i, k in enumerate(o)])
            if name in ("operator*", "operator+", "operator-", "abs"):     # decides how each operand converts to unsigned
                for x in vals:
                    if isz(x) and x.sort() == z3.IntSort(): ex.branch(lt(x, 0))
            vs = ex.temp(Obj("tree::base::Any", {"#std::vector": Seq([U(p) for p in nodes])}))
            try: r = ex.rv(ex.call_closure(c[2], [vs]))
            except CxxThrow as x:
                ex.oblige(x.cls == ERR, L_ + "only an analysis error is raised")
                ex.oblige(mean(ex, *vals) is FAIL, L_ + "has a value unless the operation is undefined")
                return
            w = mean(ex, *vals)
            ex.oblige(w is not FAIL, L_ + "an undefined operation is an analysis error")
            if w is FAIL: return
            ex.oblige(is_leaf(ex, r, V, LEAFOF[rk]), L_ + "the result is a constant of the documented type")
            g = get(ex, r, "value", V + "::" + LEAFOF[rk])
            same = (g == w) if rk == "f" else eq(g, w) if rk == "i" else bz(g) == bz(w)
            ex.oblige(simp(same), L_ + "the value is the documented one")
            for p, x, k in zip(nodes, vals, o):
                h = get(ex, p, "value", V + "::" + LEAFOF[k])
                ex.oblige(simp((h == x) if k == "f" else eq(h, x) if k == "i" else bz(h) == bz(x)), L_ + "the operands are left alone")
        v.scenario("meaning of %s(%s)" % (name, o), body)
    v.contracts = saved

def check_const(ex, unit, d, this, args):
    """values::check_const, as proved below: an analysis error unless every value is constant"""
    s = ex.as_seq(ex.rv(args[0]).f["#std::vector"])
    for a in s.atoms:
        if not ex.branch(Or(*[is_leaf(ex, a.v, V, n) for n in LEAFOF.values()])): raise CxxThrow(ex.temp(Obj(ERR, {}), "exc"), ERR)
    return UNIT

def constants(v):
    """the constants register_default_constants declares"""
    WANT = {"true": ("b", True), "false": ("b", False), "pi": ("f", math.pi), "eu": ("f", math.e), "tau": ("f", math.tau)}
    saved = v.contracts
    def rec(ex, unit, d, this, args):
        ex.store["declared#0"] = ex.store.get("declared#0", ()) + ((ex.as_seq(ex.rv(args[0])).text(), ex.rv(args[1])),)
        return UNIT
    v.contracts = dict(saved, **{AN + "::register_variable": rec})
    unit, d = v.prog.find(AN + "::register_default_constants")
    def post(ex, r, c):
        got = ex.store.get("declared#0", ())
        names = [n for n, _ in got]
        ex.oblige(sorted(str(n) for n in names) == sorted(WANT), "exactly the documented constants are declared, each once")
        for n, p in got:
            if n not in WANT: continue
            k, w = WANT[n]
            ex.oblige(is_leaf(ex, p, V, LEAFOF[k]), "%s is a constant of its type" % n)
            g = get(ex, p, "value", V + "::" + LEAFOF[k])
            ex.oblige(simp(bz(g) == bz(w)) if k == "b" else simp(g == z3.FPVal(w, z3.Float64())), "%s has its value" % n)
    v.contract("Analyzer::register_default_constants", unit, d, lambda ex: (CellLV(Cell("analyzer", (), AN)), [], None), post)
    v.contracts = saved

def check_consts(v):
    """values::check_const: passes exactly when every value is a constant"""
    one = v.prog.find(V + "::check_const", lambda u, d: u.ty(u.strip(d["ps"][0]["t"])).get("n") == "tree::base::One")
    many = v.prog.find(V + "::check_const", lambda u, d: u.ty(u.strip(d["ps"][0]["t"])).get("n") != "tree::base::One")
    def const(ex, p): return Or(*[is_leaf(ex, p, V, n) for n in LEAFOF.values()])
    def setup(ex):
        p = sym_node(ex, V + "::ValueBase", "value"); ex.inputs["value.kind"] = tag(ex, p)
        return None, [ex.temp(p)], p
    def thrown(ex, t, p):
        ex.oblige(t.cls == ERR, "check_const: fails with an analysis error")
        ex.oblige(Not(const(ex, p)), "check_const: a constant is accepted")
    v.contract("values::check_const(value)", *one, setup, lambda ex, r, p: ex.oblige(const(ex, p), "check_const: a value that is not constant is an error"), thrown)
    def single(ex, unit, d, this, args):
        if d is not one[1]: return NotImplemented
        if not ex.branch(const(ex, ex.rv(args[0]))): raise CxxThrow(ex.temp(Obj(ERR, {}), "exc"), ERR)
        return UNIT
    saved = v.contracts
    v.contracts = dict(saved, **{V + "::check_const": single})
    from .resolver_specs import vec
    def setup2(ex):
        a = ex.sym(many[0], many[0].strip(many[1]["ps"][0]["t"]), "values", ())
        ex.inputs["values"] = ex.seq_len(vec(ex, a))
        return None, [ex.temp(a)], vec(ex, a)
    def post2(ex, r, a):
        i = ex.sym_int("i", (), 0, MAXLEN)
        ex.oblige(Implies(lt(i, ex.seq_len(a)), const(ex, ex.seq_at(a, i))), "check_const: any value that is not constant is an error")
    def thrown2(ex, t, a):
        ex.oblige(t.cls == ERR, "check_const: fails with an analysis error")
    v.contract("values::check_const(values)", *many, setup2, post2, thrown2)
    v.contracts = saved

def analyzer_layer(v):
    """Analyzer::register_consteval_core_function and resolve_function work on the function table of the global scope"""
    from .scope_specs import analyzer, stack, R, same_scope
    from .resolver_specs import vec, throw
    TAB = R + "::ConstEvalCoreFunctionTable"
    ADD = AN + "::register_consteval_core_function"
    def rec(ex, unit, d, this, args):
        ex.store["added#0"] = ex.store.get("added#0", ()) + ((this.get(ex),) + tuple(ex.rv(a) for a in args),)
        return UNIT
    def spec(ex, unit, d, this, args):
        s = ex.as_seq(ex.rv(args[0]))
        return Seq([OP("types from letters", [s], ex.sym_int("fslen!%d" % ex.fresh_id(), (), 0, MAXLEN))]) if not ex.branch(ex.empty(s)) else Seq()
    saved = v.contracts
    v.contracts = dict(saved, **{TAB + "::add": rec, T + "::from_spec": spec})
    def glob(ex, st): return ex.seq_at(st, sub(ex.seq_len(st), 1))
    for what, letters in (("types", False), ("letters", True)):
        unit, d = v.prog.find(ADD, lambda u, d: (u.ty(u.strip(d["ps"][1]["t"])).get("n") == "std::basic_string") == letters)
        L_ = "register_consteval_core_function(%s): " % what
        def setup(ex):
            this, st = analyzer(ex)
            n, f = ex.sym_string("name"), Special("callable", None)
            o = ex.sym_string("letters") if letters else ex.sym(unit, unit.strip(d["ps"][1]["t"]), "types", ())
            ex.inputs["name"] = n
            return this, [ex.temp(n), ex.temp(o), ex.temp(f)], (this, st, n, o, f)
        def post(ex, r, c):
            this, st, n, o, f = c
            g = ex.store.get("added#0", ())
            ex.oblige(len(g) == 1, L_ + "adds one function")
            if len(g) != 1: return
            t, n1, o1, f1 = g[0]
            ex.oblige(ex.valid(ex.veq(t, ex.field(glob(ex, st), "consteval_core_function_table"))) if repr(t) != repr(ex.field(glob(ex, st), "consteval_core_function_table")) else True, L_ + "to the table of the global scope")
            ex.prove_seq_eq(ex.as_seq(n1), n, L_ + "under the given name")
            ex.oblige(f1 is f, L_ + "with the given implementation")
            ts = vec(ex, o1)
            if not letters: ex.oblige(repr(ts) == repr(vec(ex, o)), L_ + "with the given types"); return
            if not ex.branch(ex.empty(o)):
                ex.oblige(len(ts.atoms) == 1 and isinstance(ts.atoms[0], OP) and ts.atoms[0].name == "types from letters", L_ + "with the types its letters stand for")
                if len(ts.atoms) == 1 and isinstance(ts.atoms[0], OP): ex.prove_seq_eq(ts.atoms[0].args[0], o, L_ + "all letters given, in order")
            else: ex.oblige(ex.empty(ts), L_ + "no operands without letters")
        v.contract("Analyzer::register_consteval_core_function(%s)" % what, unit, d, setup, post)
    RES = Cell("function result", (), V + "::ValueBase")
    def res(ex, unit, d, this, args):
        rec(ex, unit, d, this, args)
        if not ex.branch(z3.Bool("the table resolves the call")): throw(ex, R + ("::NameResolutionFailure" if ex.branch(z3.Bool("the name is unknown")) else "::OverloadResolutionFailure"))
        return Ptr(RES, False, V + "::ValueBase")
    v.contracts = dict(saved, **{TAB + "::resolve": res})
    unit, d = v.prog.find(AN + "::resolve_function")
    def setup(ex):
        this, st = analyzer(ex)
        n = ex.sym_string("name"); a = ex.sym(unit, unit.strip(d["ps"][1]["t"]), "args", ())
        ex.inputs["name"] = n
        return this, [ex.temp(n), ex.temp(a)], (this, st, n, a)
    def asked(ex, c):
        this, st, n, a = c
        g = ex.store.get("added#0", ())
        ex.oblige(len(g) == 1, "resolve_function: asks one table once")
        if len(g) != 1: return
        w = ex.field(glob(ex, st), "consteval_core_function_table")
        ex.oblige(repr(g[0][0]) == repr(w) or ex.valid(ex.veq(g[0][0], w)), "resolve_function: that of the global scope")
        ex.prove_seq_eq(ex.as_seq(g[0][1]), n, "resolve_function: for the given name")
        ex.oblige(repr(vec(ex, g[0][2])) == repr(vec(ex, a)), "resolve_function: and the given arguments")
    def post(ex, r, c):
        asked(ex, c)
        r = ex.rv(r)
        ex.oblige(r.cell is not None and r.cell.key == RES.key, "resolve_function: yields what the function yields")
    def thrown(ex, t, c):
        asked(ex, c)
        ex.oblige(t.cls in (R + "::NameResolutionFailure", R + "::OverloadResolutionFailure"), "resolve_function: the failure is an analysis error")
    v.contract("Analyzer::resolve_function", unit, d, setup, post, thrown)
    v.contracts = dict(saved, **{F + "::register_consteval_core_functions": rec})
    # this analyzer is the one given to the registration function
    def regs(ex, unit, d, this, args):
        p = ex.rv(args[0])
        ex.store["registrations#0"] = ex.store.get("registrations#0", ()) + ("%s" % p.x if isinstance(p, Special) and p.kind == "thisptr" else p,)
        return UNIT
    v.contracts = dict(saved, **{F + "::register_consteval_core_functions": regs})
    unit, d = v.prog.find(AN + "::register_default_functions")
    def setup3(ex):
        c = Cell("analyzer", (), AN)
        return CellLV(c), [], CellLV(c)
    v.contract("Analyzer::register_default_functions", unit, d, setup3,
               lambda ex, r, c: ex.oblige(ex.store.get("registrations#0", ()) == ("%s" % c,), "register_default_functions: registers the functions with this analyzer, once"))
    v.contracts = saved

def run_C15(v):
    v.contracts = dict(ERR_CONTRACTS)
    v.part(meanings); v.part(check_consts)
    from . import sema_specs
    sema_specs.run_expressions(v)
def run_C30(v):
    v.contracts = dict(ERR_CONTRACTS)
    v.part(functions); v.part(meanings); v.part(constants); v.part(analyzer_layer)
