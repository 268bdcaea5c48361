"""Contracts for src/v3x/values.cpp and src/v3x/types.cpp (C14)."""
from .node_util import *

def load():
    p = Program()
    p.load("src/v3x/values.cpp", standin=True)
    p.load("src/v3x/types.cpp", standin=True)
    return p

def inputs(ex):
    v, t = sym_node(ex, V + "::ValueBase", "value"), sym_node(ex, T + "::TypeBase", "type")
    ex.inputs["value.kind"] = tag(ex, v); ex.inputs["type.kind"] = tag(ex, t)
    return v, t

def promote(v):
    unit, d = v.prog.find(V + "::promote")
    def setup(ex):
        val, typ = inputs(ex)
        vt_, ok = value_type(ex, val)
        ex.assume(ok)          # an indexed reference refers to an array
        return None, [ex.temp(val), ex.temp(typ)], (val, typ, vt_)
    def post(ex, r, c):
        val, typ, V0 = c
        r = ex.rv(r)
        T0 = tag(ex, typ)
        def made(cls, x, what):
            ex.oblige(Not(null(r)), "promote: %s yields a value" % what)
            ex.oblige(Not(same_ptr(r, val)), "promote: the given constant is not changed (%s)" % what)
            ex.oblige(is_leaf(ex, r, V, cls), "promote: %s yields a constant of the wanted type" % what)
            y = get(ex, r, "value")
            ex.oblige(eq(x, y) if not (isz(x) and z3.is_fp(x)) else simp(x == y), "promote: %s keeps the numeric value" % what)
            ex.oblige(loc_same(ex, loc(ex, r), loc(ex, val)), "promote: %s keeps the source location" % what)
        F = lambda x: z3.FPVal(x, z3.Float64())
        if ex.branch(eq(V0, T0)):
            ex.oblige(Not(null(r)) if same_ptr(r, val) else False, "promote: a value that has the type is returned itself")
        elif ex.branch(And(is_leaf(ex, val, V, "ConstBool"), eq(T0, tt("Int")))):
            made("ConstInt", If(get(ex, val, "value", V + "::ConstBool"), 1, 0), "bool to int")
        elif ex.branch(And(is_leaf(ex, val, V, "ConstBool"), eq(T0, tt("Float")))):
            made("ConstFloat", z3.If(get(ex, val, "value", V + "::ConstBool"), F(1.0), F(0.0)), "bool to float")
        elif ex.branch(And(is_leaf(ex, val, V, "ConstInt"), eq(T0, tt("Float")))):
            made("ConstFloat", ex.lib.int_to_float(ex, get(ex, val, "value", V + "::ConstInt")), "int to float")
        elif ex.branch(And(is_leaf(ex, val, V, "VariableRef"), eq(V0, tt("Bool")), eq(T0, tt("Int")))):
            ex.oblige(Not(null(r)) if same_ptr(r, val) else False, "promote: a bool variable is accepted as int unchanged")
        else: ex.oblige(null(r), "promote: every other promotion is refused")
        # the value itself is unchanged (its annotation may be rewritten with an equal copy)
        o = node(ex, val)
        same = isinstance(o, SymRef) or set(o.f) <= {"#sym", "#loc"}
        ex.oblige(same, "promote: the given value is left unchanged")
        if isinstance(o, Obj): ex.oblige(loc_same(ex, loc(ex, val), lib_tree.loc_of(ex, o.f["#sym"])), "promote: the location of the given value is left unchanged")
    v.contract("values::promote", unit, d, setup, post)

def widen(f, t): return Or(eq(f, t), And(eq(f, tt("Bool")), Or(eq(t, tt("Int")), eq(t, tt("Float")))), And(eq(f, tt("Int")), eq(t, tt("Float"))))

def check_promote(v):
    unit, d = v.prog.find(V + "::check_promote")
    def setup(ex):
        a, b = sym_node(ex, T + "::TypeBase", "from_type"), sym_node(ex, T + "::TypeBase", "to_type")
        ex.inputs["from.kind"] = tag(ex, a); ex.inputs["to.kind"] = tag(ex, b)
        return None, [ex.temp(a), ex.temp(b)], (a, b)
    def post(ex, r, c):
        r = ex.truth(ex.rv(r))
        ex.oblige(simp(bz(r) == bz(widen(tag(ex, c[0]), tag(ex, c[1])))), "check_promote accepts exactly identity, bool to int, bool to float and int to float")
    v.contract("values::check_promote", unit, d, setup, post)
    f, g, h = z3.Ints("f g h")
    v.lemma("check_promote is reflexive", z3.ForAll([f], bz(widen(f, f))))
    v.lemma("check_promote is transitive", z3.ForAll([f, g, h], z3.Implies(z3.And(bz(widen(f, g)), bz(widen(g, h))), bz(widen(f, h)))))
    num = lambda x: z3.Or(x == tt("Bool"), x == tt("Int"), x == tt("Float"))
    v.lemma("no promotion between quantum, bit, array and numeric types", z3.ForAll([f, g], z3.Implies(z3.And(bz(widen(f, g)), f != g), z3.And(num(f), num(g)))))

def type_of(v):
    unit, d = v.prog.find(V + "::type_of")
    def setup(ex):
        val = sym_node(ex, V + "::ValueBase", "value"); ex.inputs["value.kind"] = tag(ex, val)
        t, ok = value_type(ex, val)
        return None, [ex.temp(val)], (val, t, ok)
    def post(ex, r, c):
        val, t, ok = c
        r = ex.rv(r)
        ex.oblige(Not(null(r)), "type_of: yields a type")
        ex.oblige(ok, "type_of: an indexed scalar has no type")
        ex.oblige(eq(tag(ex, r), t), "type_of: a constant has its own type, one element of an array the element type, anything else the type of the variable")
    def thrown(ex, t, c): ex.oblige(Not(c[2]), "type_of: only an indexed scalar is rejected")
    v.contract("values::type_of", unit, d, setup, post, thrown)

def size_of(v):
    unit, d = v.prog.find(V + "::size_of")
    def setup(ex):
        val = sym_node(ex, V + "::ValueBase", "value"); ex.inputs["value.kind"] = tag(ex, val)
        return None, [ex.temp(val)], val
    def post(ex, r, val):
        r = ex.rv(r)
        if ex.branch(is_leaf(ex, val, V, "IndexRef")):
            ex.oblige(eq(r, ex.seq_len(get(ex, val, "indices", V + "::IndexRef"))), "size_of: an indexed reference counts its indices")
        elif ex.branch(is_leaf(ex, val, V, "VariableRef")):
            ex.oblige(eq(r, get(ex, get(ex, get(ex, val, "variable", V + "::VariableRef"), "typ", SEM + "::Variable"), "size")), "size_of: a variable has the size of its type")
        else: ex.oblige(eq(r, 1), "size_of: a constant counts one")
    v.contract("values::size_of", unit, d, setup, post)

def type_check(v):
    unit, d = v.prog.find(T + "::type_check")
    def setup(ex):
        a, b = sym_node(ex, T + "::TypeBase", "expected"), sym_node(ex, T + "::TypeBase", "actual")
        return None, [ex.temp(a), ex.temp(b)], (a, b)
    def post(ex, r, c):
        ex.oblige(simp(bz(ex.truth(ex.rv(r))) == bz(eq(tag(ex, c[0]), tag(ex, c[1])))), "type_check: true exactly for the same kind of type")
    v.contract("types::type_check", unit, d, setup, post)

def run_C14(v):
    promote(v); check_promote(v); type_of(v); size_of(v); type_check(v)
