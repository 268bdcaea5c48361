"""Contracts for include/libqasm/overload.hpp, src/v3x/resolver.cpp and the scope functions of src/v3x/analyzer.cpp (C13, C20)."""
import os
from .node_util import *
from .annot_specs import DRV

R = "cqasm::v3x::resolver"
O = "cqasm::overload"

def load():
    p = Program()
    for f in ("src/v3x/resolver.cpp", "src/v3x/types.cpp", "src/v3x/instruction.cpp", os.path.join(DRV, "overload_driver.cpp")): p.load(f, standin=True)
    return p

def vec(ex, x):
    """the sequence a tree::Any / vector value holds"""
    x = ex.rv(x)
    if isinstance(x, SymRef): x = ex.materialize(x)
    return x.f["#std::vector"] if isinstance(x, Obj) else ex.as_seq(x)

def promote_fn(ex, v, t):
    """specification of promotion as a function of value and type (C14 decides what it is)"""
    a = tuple(v.cell.args) + tuple(t.cell.args)
    return Ptr(Cell("promoted", a, V + "::ValueBase"), ex.uf("promotion_fails", a, z3.BoolSort()), V + "::ValueBase")

def promote_contract(ex, unit, d, this, args):
    v, t = ex.rv(args[0]), ex.rv(args[1])
    if v.cell is None or t.cell is None: raise Unsupported("promotion of an empty value")
    return promote_fn(ex, v, t)

def instances(v):
    """OverloadResolver::resolve for every tag type the library uses"""
    out = []
    for u in v.prog.units:
        for d in u.decls.values():
            if d.get("q") == O + "::OverloadResolver::resolve" and d.get("body") is not None: out.append((u, d))
    return out

TCLS = ("Overload", "OverloadResolver", "OverloadedNameResolver")
def tag_kind(u, d):
    """which tag type a specialisation has: 'fn' (std::function) or 'ref' (instruction reference)"""
    t = u.ty(d["ta"][0]["t"])
    return "fn" if t.get("n") == "std::function" else "ref"
def specialise(v, kind):
    """several specialisations share a class name: make the given one current"""
    for u in v.prog.units:
        for d in u.decls.values():
            q = d.get("q", "")
            if "fs" in d and d.get("ta") and (q in [O + "::" + c for c in TCLS] or q == R + "::OverloadedNameResolver"):
                if tag_kind(u, d) == kind: v.prog.recs[q] = (u, d)
def spec_of(kind):
    return lambda u, d: tag_kind(u, u.decls[d["cls"]]) == kind

class View_:
    """specification view of a symbolic list of overloads and of an argument list"""
    def __init__(self, ex, overloads, args):
        self.ex, self.o, self.a = ex, overloads, args
        self.N, self.n = ex.seq_len(overloads), ex.seq_len(args)
    def types(self, j): return vec(self.ex, self.ex.field(self.ex.seq_at(self.o, j), "param_types"))
    def tag(self, j): return self.ex.field(self.ex.seq_at(self.o, j), "tag")
    def promo(self, j, i): return promote_fn(self.ex, self.ex.seq_at(self.a, i), self.ex.seq_at(self.types(j), i))
    def applicable(self, j):
        i = z3.Int("ai!%d" % self.ex.fresh_id())
        body = z3.Implies(z3.And(i >= 0, i < iz(self.n)), z3.Not(bz(self.promo(j, i).null)))
        return And(eq(self.ex.seq_len(self.types(j)), self.n), z3.ForAll([i], body))

def index_of(ex, tag):
    """the list index a symbolic tag comes from"""
    a = tag.cell.args if isinstance(tag, Ptr) else tag.args if isinstance(tag, SymRef) else tag.x[1] if isinstance(tag, Special) else None
    return a[-1]

def resolver_resolve(v, kind):
    specialise(v, kind)
    unit, d = v.prog.find(O + "::OverloadResolver::resolve", spec_of(kind))
    def setup(ex):
        this = CellLV(Cell("resolver", (), O + "::OverloadResolver"))
        u2, d2 = v.prog.recs["tree::base::Any"] if "tree::base::Any" in v.prog.recs else (None, None)
        args = ex.sym(unit, unit.strip(d["ps"][0]["t"]), "args", ())
        w = View_(ex, vec(ex, ex.field(this.get(ex), "overloads")), vec(ex, args))
        ex.inputs["overloads"], ex.inputs["arguments"] = w.N, w.n
        return this, [ex.temp(args)], (this, w)
    def post(ex, r, c):
        this, w = c
        r = ex.rv(r)
        j = index_of(ex, r.a)
        L_ = "resolve(%s): " % kind
        ex.oblige(And(le(0, j), lt(j, w.N)), L_ + "the tag is that of an overload of the list")
        ex.oblige(ex.veq(r.a, w.tag(j)) if not isinstance(r.a, Special) else repr(r.a) == repr(w.tag(j)), L_ + "the tag is that of the overload chosen")
        ex.oblige(w.applicable(j), L_ + "the overload chosen has as many parameters as arguments and every argument promotes")
        out = vec(ex, r.b)
        ex.oblige(eq(ex.seq_len(out), w.n), L_ + "one promoted argument per argument")
        m = ex.sym_int("later", (), 0, MAXLEN)     # counted from the end or from the start: same statement
        none_later = [simp(Implies(And(lt(j, x), lt(x, w.N), le(0, x)), Not(w.applicable(x)))) for x in (sub(sub(w.N, 1), m), m)]
        ex.oblige(next((c for c in none_later if ex.valid(c)), none_later[0]), L_ + "no overload added later is applicable")
        i = ex.sym_int("i", (), 0, MAXLEN)
        if not ex.branch(lt(i, w.n)): return
        p, q = ex.seq_at(out, i), w.promo(j, i)
        ex.oblige(ptr_same(ex, p, q), L_ + "each argument is promoted to the parameter's type, in order")
    def thrown(ex, t, c):
        this, w = c
        ex.oblige(t.cls == O + "::OverloadResolutionFailure", "resolve(%s): only an overload failure is raised" % kind)
        j = ex.sym_int("any", (), 0, MAXLEN)
        ex.oblige(simp(Implies(lt(j, w.N), Not(w.applicable(j)))), "resolve(%s): it fails only if no overload is applicable" % kind)
    v.contract("OverloadResolver::resolve(%s)" % kind, unit, d, setup, post, thrown)

def ptr_same(ex, p, q):
    """Bool: p is exactly the pointer q (same function of equal arguments)"""
    if p.cell is None or q.cell is None or p.cell.name != q.cell.name or len(p.cell.args) != len(q.cell.args): return False
    return And(simp(bz(p.null) == bz(q.null)), *[eq(a, b) if not isinstance(a, Ptr) else same_ptr(a, b) for a, b in zip(p.cell.args, q.cell.args)])

PROMOTE = V + "::promote"

# ---- modular contract of OverloadResolver::resolve (what resolver_resolve proves, as a function) --
def res_id(ex, r, args):
    """(name, int args) of a resolution: a function of the resolver and the argument list"""
    if isinstance(r, Obj): raise Unsupported("resolution in a resolver under construction")
    s = vec(ex, args)
    if len(s.atoms) != 1 or not isinstance(s.atoms[0], SL): raise Unsupported("resolution of an argument list under construction")
    b = s.atoms[0].base
    return "resolution:" + r.name + ":" + b.name, tuple(r.args) + tuple(b.args)
def res_fn(ex, r, args):
    """specification: (fails, tag, promoted arguments)"""
    n, a = res_id(ex, r, args)
    cls = "cqasm::v3x::instruction::Instruction"
    out = ex.sym_list(n + ".promoted", a, lambda e, m, x: sym_ptr(e, V + "::ValueBase", m, x, False), V + "::ValueBase")
    return ex.uf(n + ".fails", a, z3.BoolSort()), Ptr(Cell(n + ".tag", a, cls), False, cls), out
def throw(ex, cls):
    raise CxxThrow(ex.temp(Obj(cls, {}), "exc"), cls)
def res_contract(ex, unit, d, this, args):
    fails, t, out = res_fn(ex, this.get(ex), args[0])
    if ex.branch(fails): throw(ex, O + "::OverloadResolutionFailure")
    return Pair(t, out)
def types_text(ex, unit, d, this, args):
    """values::types_of, used for messages only: its text"""
    return Seq([OP("types of the arguments", [], ex.sym_int("typestext.len", (), 0, MAXLEN))])

def table_of(ex, this):
    """the map a name resolver holds"""
    o = this.get(ex)
    return ex.field(o, "table")

def sym_resolver(ex):
    this = CellLV(Cell("nameresolver", (), O + "::OverloadedNameResolver"))
    return this

def overloads_of(ex, r):
    """the overload list of a resolver value"""
    return ex.as_seq(ex.field(r, "overloads"))

def same_resolver(ex, r, s, label):
    """obligations: two resolvers hold the same overloads in the same order"""
    a, b = overloads_of(ex, r), overloads_of(ex, s)
    ex.oblige(eq(ex.seq_len(a), ex.seq_len(b)), label + ": same number of overloads")
    i = ex.sym_int("oi", (), 0, MAXLEN)
    if not ex.branch(lt(i, ex.seq_len(b))): return
    same_overload(ex, ex.seq_at(a, i), ex.seq_at(b, i), label)
def same_overload(ex, x, y, label):
    ex.oblige(ptr_same(ex, ex.field(x, "tag"), ex.field(y, "tag")), label + ": same tag")
    ex.prove_seq_eq(vec(ex, ex.field(x, "param_types")), vec(ex, ex.field(y, "param_types")), label + ": same parameter types")

def new_overload(ex, unit, kind):
    cls = O + "::Overload"
    return SymRef(cls, "new", ())

def add_overload(v, kind):
    specialise(v, kind)
    # the list
    unit, d = v.prog.find(O + "::OverloadResolver::add_overload", spec_of(kind))
    def setup(ex):
        this = CellLV(Cell("resolver", (), O + "::OverloadResolver"))
        o = SymRef(O + "::Overload", "new", ())
        return this, [ex.temp(ex.field(o, "tag")), ex.temp(ex.field(o, "param_types"))], (this, this.get(ex), o)
    def post(ex, r, c):
        this, old, o = c
        L_ = "add_overload(%s)" % kind
        a, b = overloads_of(ex, this.get(ex)), overloads_of(ex, old)
        n = ex.seq_len(b)
        ex.oblige(eq(ex.seq_len(a), add(n, 1)), L_ + ": one more overload")
        same_overload(ex, ex.seq_at(a, n), o, L_ + ": the new one is last")
        i = ex.sym_int("oi", (), 0, MAXLEN)
        if not ex.branch(lt(i, n)): return
        same_overload(ex, ex.seq_at(a, i), ex.seq_at(b, i), L_ + ": earlier ones stay")
    v.contract("OverloadResolver::add_overload(%s)" % kind, unit, d, setup, post)
    # the table
    for cls in (O + "::OverloadedNameResolver", R + "::OverloadedNameResolver"):
        unit, d = v.prog.find(cls + "::add_overload", spec_of(kind))
        def setup2(ex):
            this = CellLV(Cell("nameresolver", (), cls))
            o = SymRef(O + "::Overload", "new", ())
            name = ex.sym_string("name"); ex.inputs["name"] = name
            return this, [ex.temp(name), ex.temp(ex.field(o, "tag")), ex.temp(ex.field(o, "param_types"))], (this, this.get(ex), o, name)
        def post2(ex, r, c, cls=cls):
            this, old, o, name = c
            L_ = cls.split("::")[-2] + "::add_overload(%s)" % kind
            k = ex.sym_string("anyname"); ex.inputs["other name"] = k
            has0, r0 = MP.lookup(ex, ex.field(old, "table"), k)
            has1, r1 = MP.lookup(ex, table_of(ex, this), k)
            if not ex.branch(ex.seq_eq_cond(name, k)):
                ex.oblige(has0 == has1, L_ + ": other names stay registered or not as they were")
                if has0 and has1: same_resolver(ex, r1, r0, L_ + ": overloads of other names")
                return
            ex.oblige(has1, L_ + ": the name is registered")
            if not has1: return
            a = overloads_of(ex, r1)
            b = overloads_of(ex, r0) if has0 else Seq()
            n = ex.seq_len(b)
            ex.oblige(eq(ex.seq_len(a), add(n, 1)), L_ + ": one more overload under that name")
            same_overload(ex, ex.seq_at(a, n), o, L_ + ": the new one is last")
            i = ex.sym_int("oi", (), 0, MAXLEN)
            if not ex.branch(lt(i, n)): return
            same_overload(ex, ex.seq_at(a, i), ex.seq_at(b, i), L_ + ": earlier ones of that name stay")
        v.contract(cls + "::add_overload(%s)" % kind, unit, d, setup2, post2)

def name_resolve(v, kind):
    specialise(v, kind)
    for cls, nf, of in ((O + "::OverloadedNameResolver", O + "::NameResolutionFailure", O + "::OverloadResolutionFailure"),
                        (R + "::OverloadedNameResolver", R + "::NameResolutionFailure", R + "::OverloadResolutionFailure")):
        unit, d = v.prog.find(cls + "::resolve", spec_of(kind))
        L_ = cls.split("::")[-2] + "::resolve(%s): " % kind
        def setup(ex):
            this = CellLV(Cell("nameresolver", (), cls))
            args = ex.sym(unit, unit.strip(d["ps"][1]["t"]), "args", ())
            name = ex.sym_string("name"); ex.inputs["name"] = name
            return this, [ex.temp(name), ex.temp(args)], (this, this.get(ex), name, args)
        def want(ex, c):
            this, old, name, args = c
            has, r = MP.lookup(ex, ex.field(old, "table"), name)
            if not has: return None
            return res_fn(ex, r, args)
        def post(ex, r, c):
            w = want(ex, c)
            ex.oblige(w is not None, L_ + "an unknown name is a failure")
            if w is None: return
            ex.oblige(Not(w[0]), L_ + "no applicable overload is a failure")
            r = ex.rv(r)
            ex.oblige(ptr_same(ex, r.a, w[1]), L_ + "the overload is the one chosen among those of that name")
            ex.prove_seq_eq(vec(ex, r.b), w[2], L_ + "the arguments are those promoted for it")
        def thrown(ex, t, c):
            w = want(ex, c)
            if w is None: ex.oblige(t.cls == nf, L_ + "an unknown name is a name failure")
            else:
                ex.oblige(w[0], L_ + "a name with an applicable overload resolves")
                ex.oblige(t.cls == of, L_ + "no applicable overload is an overload failure")
        v.contract(cls + "::resolve(%s)" % kind, unit, d, setup, post, thrown)


# ---- the tables: functions and instructions -----------------------------------------------------
INS = "cqasm::v3x::instruction::Instruction"
def add_recorder(ex, unit, d, this, args):
    ex.store["added#0"] = ex.store.get("added#0", ()) + ((ex.as_seq(ex.rv(args[0])), ex.rv(args[1]), vec(ex, args[2])),)
    return UNIT
def name_res_fn(ex, r, name, args):
    """specification of OverloadedNameResolver::resolve: (name failure, overload failure, tag, promoted)"""
    s = vec(ex, args)
    if len(s.atoms) != 1 or not isinstance(s.atoms[0], SL): raise Unsupported("resolution of an argument list under construction")
    b = s.atoms[0].base
    n, a = "nameresolution:" + r.name + ":" + b.name, tuple(r.args) + tuple(b.args) + (MP.key_term(ex, name),)
    out = ex.sym_list(n + ".promoted", a, lambda e, m, x: sym_ptr(e, V + "::ValueBase", m, x, False), V + "::ValueBase")
    return ex.uf(n + ".unknown", a, z3.BoolSort()), ex.uf(n + ".fails", a, z3.BoolSort()), Ptr(Cell(n + ".tag", a, INS), False, INS), out
def name_res_contract(kind):
    def c(ex, unit, d, this, args):
        un, fails, t, out = name_res_fn(ex, this.get(ex), ex.as_seq(ex.rv(args[0])), args[1])
        if kind == "fn": t = Ptr(Cell(t.cell.name, t.cell.args, "std::function"), False, "std::function")
        if ex.branch(un): throw(ex, R + "::NameResolutionFailure")
        if ex.branch(fails): throw(ex, R + "::OverloadResolutionFailure")
        return Pair(t, out)
    return c
def call_unknown(ex, f, args):
    """a call of an unknown function object: recorded, result a function of the callee and the arguments"""
    s = vec(ex, args[0])
    ex.store["called#0"] = ex.store.get("called#0", ()) + ((f, s),)
    return Ptr(Cell("called:" + f.name, f.args, V + "::ValueBase"), False, V + "::ValueBase")

def table_this(ex, cls):
    this = CellLV(Cell("table", (), cls))
    p = ex.field(this.get(ex), "resolver")
    ex.assume(Not(p.null))      # invariant of the tables: built by their constructors, never reset
    return this, p

def tables(v):
    saved = v.contracts
    R2 = R + "::OverloadedNameResolver"
    for cls, kind in ((R + "::InstructionTable", "ref"), (R + "::ConstEvalCoreFunctionTable", "fn")):
        specialise(v, kind)
        short = cls.split("::")[-1]
        v.contracts = dict(saved, **{R2 + "::add_overload": add_recorder, R2 + "::resolve": name_res_contract(kind), "call_unknown": call_unknown})
        unit, d = v.prog.find(cls + "::add")
        def setup(ex):
            this, p = table_this(ex, cls)
            if kind == "ref":
                i = SymRef(INS, "instr", ())
                return this, [ConstLV(i)], (i, ex.field(i, "name"), None, ex.field(i, "operand_types"))
            name = ex.sym_string("name"); ts = ex.sym(unit, unit.strip(d["ps"][1]["t"]), "types", ()); f = ex.sym(unit, unit.strip(d["ps"][2]["t"]), "impl", ())
            return this, [ex.temp(name), ex.temp(ts), ex.temp(f)], (None, name, f, ts)
        def post(ex, r, c):
            i, name, f, ts = c
            rec = ex.store.get("added#0", ())
            ex.oblige(len(rec) == 1, short + "::add adds one overload")
            if len(rec) != 1: return
            n, t, types = rec[0]
            ex.prove_seq_eq(n, ex.as_seq(name), short + "::add: under the given name")
            ex.prove_seq_eq(types, vec(ex, ts), short + "::add: with the given types")
            if kind == "fn": ex.oblige(ptr_same(ex, t, f), short + "::add: with the given implementation"); return
            o = node(ex, t)
            ex.oblige(Not(null(t)), short + "::add: a reference to an instruction")
            ex.prove_seq_eq(ex.as_seq(ex.field(o, "name")), ex.as_seq(name), short + "::add: a reference to an instruction of that name")
            ex.prove_seq_eq(vec(ex, ex.field(o, "operand_types")), vec(ex, ts), short + "::add: a reference to an instruction of those operand types")
        v.contract(short + "::add", unit, d, setup, post)
        for k, nargs in enumerate((2, 3) if kind == "ref" else (2,)):
            unit, d = v.prog.find(cls + "::resolve", lambda u, d: len(d["ps"]) == nargs)
            def setup(ex):
                this, p = table_this(ex, cls)
                name = ex.sym_string("name"); ex.inputs["name"] = name
                args = ex.sym(unit, unit.strip(d["ps"][-1]["t"]), "args", ())
                gate = sym_node(ex, SEM + "::Gate", "gate")
                w = name_res_fn(ex, node(ex, p), name, args)
                return this, [ex.temp(x) for x in ((name, args) if nargs == 2 else (name, gate, args))], (name, args, gate, w)
            def post(ex, r, c):
                name, args, gate, (un, fails, t, out) = c
                r = ex.rv(r)
                L_ = short + "::resolve: "
                ex.oblige(And(Not(un), Not(fails)), L_ + "fails if the name or its overloads fail")
                if kind == "fn":
                    calls = ex.store.get("called#0", ())
                    ex.oblige(len(calls) == 1, L_ + "the implementation is called exactly once")
                    if len(calls) != 1: return
                    ex.oblige(calls[0][0].name == t.cell.name and And(*[eq(a, b) for a, b in zip(calls[0][0].args, t.cell.args)]), L_ + "the implementation called is that of the overload chosen")
                    ex.prove_seq_eq(calls[0][1], out, L_ + "it is called with the promoted arguments")
                    ex.oblige(ptr_same(ex, r, Ptr(Cell("called:" + t.cell.name, t.cell.args), False)), L_ + "the result is that of the implementation")
                    return
                want = "GateInstruction" if nargs == 3 else "NonGateInstruction"
                ex.oblige(is_leaf(ex, r, SEM, want), L_ + "a gate gives a gate instruction, anything else a non-gate instruction")
                ex.oblige(ptr_same(ex, get(ex, r, "instruction_ref"), t), L_ + "the instruction refers to the overload chosen")
                ex.prove_seq_eq(vec(ex, get(ex, r, "operands")), out, L_ + "the operands are the promoted arguments")
                if nargs == 3: ex.oblige(same_ptr(get(ex, r, "gate"), gate), L_ + "the instruction holds the given gate")
                else: ex.prove_seq_eq(ex.as_seq(get(ex, r, "name")), name, L_ + "the instruction holds the given name")
            def thrown(ex, t, c):
                un, fails, _, _ = c[3]
                L_ = short + "::resolve: "
                ex.oblige(Or(un, fails), L_ + "succeeds if name and overload resolve")
                if ex.branch(un): ex.oblige(t.cls == R + "::NameResolutionFailure", L_ + "an unknown name is a name failure")
                else: ex.oblige(t.cls == R + "::OverloadResolutionFailure", L_ + "no applicable overload is an overload failure")
            v.contract("%s::resolve(%d)" % (short, nargs), unit, d, setup, post, thrown)
        # a new table knows nothing; a copy knows the same but is separate; assignment likewise
        v.contracts = dict(saved)
        def known(ex, this):
            p = ex.field(this.get(ex), "resolver")
            ex.oblige(Not(null(p)), short + ": a table always has its resolver")
            return p, ex.field(node(ex, p), "table")
        def same_known(ex, m0, m1, label):
            k = ex.sym_string("anyname")
            has0, r0 = MP.lookup(ex, m0, k); has1, r1 = MP.lookup(ex, m1, k)
            ex.oblige(has0 == has1, label + ": the same names are registered")
            if has0 and has1: same_resolver(ex, r1, r0, label)
        unit, d = v.prog.find(cls + "::(ctor)", lambda u, d: len(d["ps"]) == 0)
        def setup(ex): return CellLV(ex.newcell(Obj(cls, {}), "table")), [], None
        def post(ex, r, c):
            p, m = known(ex, r)
            has, x = MP.lookup(ex, m, ex.sym_string("anyname"))
            ex.oblige(not has, short + ": a new table knows no name")
        v.contract(short + " constructor", unit, d, setup, post)
        for what, q, isctor in (("copy", cls + "::(ctor)", True), ("assignment", cls + "::operator=", False)):
            unit, d = v.prog.find(q, lambda u, d: len(d["ps"]) == 1 and "&&" not in u.ty(d["ps"][0]["t"])["s"])
            def setup(ex):
                src, p = table_this(ex, cls)
                old = ex.field(node(ex, p), "table")
                if isctor: this = CellLV(ex.newcell(Obj(cls, {}), "table"))
                else: this = CellLV(Cell("target", (), cls))
                return this, [src], (this, p, old)
            def post(ex, r, c, what=what):
                this, p, old = c
                q, m = known(ex, this)
                ex.oblige(not same_ptr(p, q), "%s %s: the new table has a resolver of its own" % (short, what))
                same_known(ex, old, m, "%s %s: knows what the original knows" % (short, what))
            v.contract("%s %s" % (short, what), unit, d, setup, post)
    v.contracts = saved

from engine import lib_maps as MP
def overload_copies(v, kind):
    """copying, moving and assigning an overload (also done by the list's reallocation) keeps tag and types"""
    specialise(v, kind)
    cls = O + "::Overload"
    for what, q in (("constructor", cls + "::(ctor)"), ("assignment", cls + "::operator=")):
        for mv in (False, True):
            unit, d = v.prog.find(q, lambda u, d: spec_of(kind)(u, d) and len(d["ps"]) == 1 and ("&&" in u.ty(d["ps"][0]["t"])["s"]) == mv)
            def setup(ex):
                src = CellLV(Cell("source", (), cls))
                old = src.get(ex)
                old = Obj(cls, {"tag": ex.field(old, "tag"), "param_types": ex.field(old, "param_types")})
                this = CellLV(ex.newcell(Obj(cls, {}), "o")) if what == "constructor" else CellLV(Cell("target", (), cls))
                return this, [src], (this, old)
            def post(ex, r, c):
                this, old = c
                same_overload(ex, this.get(ex), old, "Overload %s %s(%s)" % ("move" if mv else "copy", what, kind))
            v.contract("Overload %s %s(%s)" % ("move" if mv else "copy", what, kind), unit, d, setup, post)
    # the accessors
    unit, d = v.prog.find(cls + "::(ctor)", lambda u, d: spec_of(kind)(u, d) and len(d["ps"]) == 2)
    def setup(ex):
        o = SymRef(cls, "new", ())
        this = CellLV(ex.newcell(Obj(cls, {}), "o"))
        return this, [ex.temp(ex.field(o, "tag")), ex.temp(ex.field(o, "param_types"))], (this, o)
    v.contract("Overload constructor(%s)" % kind, unit, d, setup, lambda ex, r, c: same_overload(ex, c[0].get(ex), c[1], "Overload constructor(%s)" % kind))

def run_C13(v):
    for k in ("ref", "fn"): v.part(overload_copies, k)
    v.contracts = dict(ERR_CONTRACTS, **{PROMOTE: promote_contract})
    for k in ("ref", "fn"): v.part(resolver_resolve, k)
    v.contracts = dict(ERR_CONTRACTS)
    for k in ("ref", "fn"): v.part(add_overload, k)
    v.contracts = dict(ERR_CONTRACTS, **{O + "::OverloadResolver::resolve": res_contract, V + "::types_of": types_text})
    for k in ("ref", "fn"): v.part(name_resolve, k)
    v.part(tables)
