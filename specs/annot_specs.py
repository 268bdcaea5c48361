"""Contracts for src/annotations.cpp and annotations.hpp (C05, C06)."""
import z3, os
from engine.vals import *
from engine.core import *
from engine.prove import *
from engine.unit import VERIF

A = "cqasm::annotations::SourceLocation"
DRV = os.path.join(VERIF, "specs", "drivers")
M32 = (1 << 32) - 1

def load():
    p = Program()
    p.load("src/annotations.cpp")
    p.load(os.path.join(DRV, "annotations_driver.cpp"), extra_roots=(DRV,))
    return p

def index(ex, n):
    l = ex.sym_int(n + ".line", (), 0, M32); c = ex.sym_int(n + ".column", (), 0, M32)
    ex.inputs[n] = (l, c)
    return Obj(A + "::Index", {"line": l, "column": c}), (l, c)

def lt2(a, b): return Or(lt(a[0], b[0]), And(eq(a[0], b[0]), lt(a[1], b[1])))
def le2(a, b): return Not(lt2(b, a))
def eq2(a, b): return And(eq(a[0], b[0]), eq(a[1], b[1]))

def rng(ex, n):
    f, ft = index(ex, n + ".first"); l, lt_ = index(ex, n + ".last")
    return Obj(A + "::Range", {"first": f, "last": l}), (ft, lt_)

def fld(ex, lv, *names):
    for n in names: lv = FieldLV(lv, n)
    return ex.rv(lv)

def rd(ex, lv, which): return (fld(ex, lv, which, "line"), fld(ex, lv, which, "column"))

def lt4(a, b): return Or(lt2(a[0], b[0]), And(eq2(a[0], b[0]), lt2(a[1], b[1])))
def eq4(a, b): return And(eq2(a[0], b[0]), eq2(a[1], b[1]))

def range_ctor(v):
    unit, d = v.prog.find(A + "::Range::(ctor)", lambda u, d: len(d["ps"]) == 2)
    def setup(ex):
        f, ft = index(ex, "f"); l, lt_ = index(ex, "l")
        this = ex.temp(Obj(A + "::Range", {}), "range")
        return this, [ex.temp(f), ex.temp(l)], (ft, lt_)
    def post(ex, r, c):
        f, l = c
        rf, rl = rd(ex, r, "first"), rd(ex, r, "last")
        ex.oblige(eq2(rf, f), "Range(f, l): starts at f")
        ex.oblige(le2(rf, rl), "Range(f, l): never ends before it starts")
        ex.oblige(eq2(rl, (If(lt2(l, f), f[0], l[0]), If(lt2(l, f), f[1], l[1]))), "Range(f, l): ends at the later of f and l")
    v.contract("Range::Range", unit, d, setup, post)
    # a default-constructed range satisfies the invariant as well
    unit, d = v.prog.find("verif::rng_default")
    def post0(ex, r, c):
        cell = ex.lvof(r)
        ex.oblige(le2(rd(ex, cell, "first"), rd(ex, cell, "last")), "Range(): never ends before it starts")
    v.contract("Range::Range()", unit, d, lambda ex: (None, [], None), post0)

def expand(v):
    unit, d = v.prog.find(A + "::expand_to_include")
    def setup(ex):
        r, (f, l) = rng(ex, "range")
        ex.add_fact(le2(f, l))            # data structure invariant
        i, it = index(ex, "index")
        fn = Opt(ex.fresh_bool("has_name"), ex.sym_string("name"))
        this = ex.temp(Obj(A, {"file_name": fn, "range": r}), "loc")
        return this, [ex.temp(i)], (f, l, it, this, fn)
    def post(ex, r, c):
        f, l, i, this, fn = c
        rg = FieldLV(this, "range")
        nf, nl = rd(ex, rg, "first"), rd(ex, rg, "last")
        ex.oblige(le2(nf, nl), "expand_to_include: range invariant preserved")
        ex.oblige(And(le2(nf, i), le2(i, nl)), "expand_to_include: contains the position")
        ex.oblige(And(le2(nf, f), le2(l, nl)), "expand_to_include: contains the old range")
        ex.oblige(And(Or(eq2(nf, f), eq2(nf, i)), Or(eq2(nl, l), eq2(nl, i))), "expand_to_include: smallest such range")
        ex.oblige(Implies(And(le2(f, i), le2(i, l)), And(eq2(nf, f), eq2(nl, l))), "expand_to_include: a position of the range changes nothing")
        fn2 = fld(ex, this, "file_name")
        ex.oblige(simp(bz(fn2.has) == bz(fn.has)) if isinstance(fn2, Opt) else False, "expand_to_include: file name untouched")
    v.contract("expand_to_include", unit, d, setup, post)

def cmp_spec(v):
    def two(ex, mk):
        a, at = mk(ex, "a"); b, bt = mk(ex, "b")
        return [ex.temp(a), ex.temp(b)], (at, bt)
    def loc(ex, n):
        r, t = rng(ex, n + ".range")
        return Obj(A, {"file_name": Opt(ex.fresh_bool("has"), ex.sym_string(n + ".name")), "range": r}), t
    def one(fn, mk, spec, label):
        unit, d = v.prog.find("verif::" + fn)
        def setup(ex):
            args, c = two(ex, mk); return None, args, c
        def post(ex, r, c):
            ex.oblige(simp(bz(ex.truth(ex.rv(r))) == bz(spec(*c))), label)
        v.contract(fn, unit, d, setup, post)
    one("idx_eq", index, eq2, "Index ==: same line and column")
    one("idx_lt", index, lt2, "Index <: by line, then by column")
    one("idx_le", index, le2, "Index <=: not greater")
    one("idx_gt", index, lambda a, b: lt2(b, a), "Index >: mirrored <")
    one("rng_eq", rng, eq4, "Range ==: same first and last")
    one("rng_lt", rng, lt4, "Range <: by first, then by last")
    one("rng_le", rng, lambda a, b: Not(lt4(b, a)), "Range <=: not greater")
    one("rng_gt", rng, lambda a, b: lt4(b, a), "Range >: mirrored <")
    # locations are ordered as their ranges, whatever the file names
    one("loc_lt", loc, lt4, "SourceLocation <: as its range")
    one("loc_le", loc, lambda a, b: Not(lt4(b, a)), "SourceLocation <=: as its range")
    one("loc_gt", loc, lambda a, b: lt4(b, a), "SourceLocation >: as its range")
    # order lemmas over the specified relations
    def p(n): return (z3.Int(n + "l"), z3.Int(n + "c"))
    a, b, c = p("a"), p("b"), p("c")
    v.lemma("position order is total and antisymmetric", And(Or(le2(a, b), le2(b, a)), Implies(And(le2(a, b), le2(b, a)), eq2(a, b))))
    v.lemma("position order is transitive", Implies(And(le2(a, b), le2(b, c)), le2(a, c)))
    A4, B4, C4 = [(p(x + "1"), p(x + "2")) for x in "abc"]
    le4 = lambda x, y: Not(lt4(y, x))
    v.lemma("range order is total and antisymmetric", And(Or(le4(A4, B4), le4(B4, A4)), Implies(And(le4(A4, B4), le4(B4, A4)), eq4(A4, B4))))
    v.lemma("range order is transitive", Implies(And(le4(A4, B4), le4(B4, C4)), le4(A4, C4)))

def run_C05(v): range_ctor(v); expand(v); cmp_spec(v)

UNKNOWN = "<unknown file name>"
def ctor_spec(v):
    unit, d = v.prog.find(A + "::(ctor)", lambda u, d: len(d["ps"]) == 2)
    def setup(ex):
        has = ex.fresh_bool("has_name")
        s = ex.sym_string("name"); ex.inputs["name"] = s; ex.inputs["has_name"] = has
        r, t = rng(ex, "range")
        this = ex.temp(Obj(A, {}), "loc")
        return this, [ex.temp(Opt(has, s)), ex.temp(r)], (has, s, t)
    def post(ex, r, c):
        has, s, t = c
        fn = fld(ex, r, "file_name")
        known = And(has, Not(eq(ex.seq_len(s), 0)))
        ex.oblige(simp(bz(fn.has) == bz(known)), "SourceLocation(): has a file name exactly if a non-empty one was supplied")
        if ex.feasible(known) and fn.v is not None:
            if ex.branch(known): ex.prove_seq_eq(ex.as_seq(fn.v), s, "SourceLocation(): keeps the supplied file name")
        rg = FieldLV(r, "range")
        ex.oblige(And(eq2(rd(ex, rg, "first"), t[0]), eq2(rd(ex, rg, "last"), t[1])), "SourceLocation(): keeps the supplied range")
    v.contract("SourceLocation::SourceLocation", unit, d, setup, post)

def dec_str(ex, n): return ex.lib.dec_seq(ex, n)

def location_text(ex, has, s, f, l):
    """specification of the printed text; forks on the cases"""
    out = s if ex.branch(has) else Seq.lit(UNKNOWN)
    D = lambda n: dec_str(ex, n)
    C, R = Seq.lit(":"), Seq.lit("..")
    if ex.branch(eq(f[0], 0)): return out
    out = out + C + D(f[0])
    if ex.branch(eq(f[1], 0)):
        if ex.branch(lt(f[0], l[0])): out = out + R + D(l[0])
        return out
    out = out + C + D(f[1])
    if ex.branch(eq(f[0], l[0])):
        if ex.branch(lt(f[1], l[1])): out = out + R + D(l[1])
    else: out = out + R + D(l[0]) + C + D(l[1])
    return out

def sym_location(ex):
    has = ex.fresh_bool("has_name")
    s = ex.sym_string("name"); ex.inputs["name"] = s; ex.inputs["has_name"] = has
    ex.add_fact(Implies(has, lt(0, ex.seq_len(s))))          # established by the constructor
    r, (f, l) = rng(ex, "range")
    ex.add_fact(le2(f, l))                                   # range invariant
    return Obj(A, {"file_name": Opt(has, s), "range": r}), has, s, f, l

def print_spec(v):
    unit, d = v.prog.find("cqasm::annotations::operator<<")
    def setup(ex):
        o, has, s, f, l = sym_location(ex)
        pre = ex.sym_string("pre")
        os = ex.lib.new_ostream(ex, pre)
        return None, [os, ex.temp(o)], (os, pre, has, s, f, l)
    def post(ex, r, c):
        os, pre, has, s, f, l = c
        ex.prove_seq_eq(ex.lib.ostream_text(ex, os), pre + location_text(ex, has, s, f, l), "operator<<: prints exactly file name, start and what distinguishes the end")
    v.contract("operator<<(ostream, SourceLocation)", unit, d, setup, post)

def run_C06(v): ctor_spec(v); print_spec(v)
