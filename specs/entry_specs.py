"""Contracts for Analyzer::analyze and the entry points around it (C26, C28)."""
from .block_specs import *
from .scope_specs import same_scope
from engine.vals import Opt
from engine.unit import REPO
import os

PS = PKG_PARSER = "cqasm::v3x::parser"
AR, PR = "cqasm::v3x::analyzer::AnalysisResult", PS + "::ParseResult"

TABLES = ("variable_table", "consteval_core_function_table", "instruction_table", "variables")
def same_field(ex, a, b, t, label):
    x, y = ex.field(a, t), ex.field(b, t)
    ex.oblige(repr(x) == repr(y) or ex.valid(ex.veq(x, y)), label + " (" + t + ")")
def outer(ex, new, old, label):
    """the scopes around the current one"""
    i = ex.sym_int("si", (), 1, MAXLEN)
    if not ex.branch(And(lt(i, ex.seq_len(new)), lt(i, ex.seq_len(old)))): return
    same_scope(ex, ex.seq_at(new, i), ex.seq_at(old, i), label)
def same_loc(ex, l, ends_, label):
    if ends_ is None: return ex.oblige(null(l), label)
    ex.oblige(Not(null(l)), label)
    if null(l) is True: return
    f, z = ends(ex, l); ex.oblige(And(eq2(f, ends_[0]), eq2(z, ends_[1])), label)

def result(ex, name="analysis"):
    return SymRef(AR, name, ())

def analyze_program(v):
    unit, d = v.prog.find(AN + "::analyze", lambda u, d: "Program" in u.ty(d["ps"][0]["t"])["s"])
    L_ = "analyze(program): "
    BLK = SEM + "::Block"
    def visit_program(ex, unit, d, this, args):
        """visit_program (C22, C23): reads the scopes, writes only to the current scope and its block; or raises"""
        a, st, b, old, bl = ex.store["analyzer#0"]
        now = stack(ex, a)
        ex.store["visited#0"] = ex.store.get("visited#0", 0) + 1
        ex.oblige(ex.lvof(args[0]).get(ex) is not None and ident(ex.lvof(args[0]).get(ex)).name == "program", L_ + "analyzes the program given")
        ex.oblige(eq(ex.seq_len(now), ex.seq_len(st)), L_ + "the analysis starts from the scopes of the analyzer")
        s0, s1 = ex.seq_at(st, 0), ex.seq_at(now, 0)
        for t in TABLES: same_field(ex, s1, s0, t, L_ + "the analysis starts from the current scope")
        b1 = ex.field(s1, "block")
        ex.oblige(Not(null(b1)), L_ + "the analysis has a block to write to")
        ex.prove_seq_eq(vec(ex, get(ex, b1, "statements", BLK)), old, L_ + "which holds the statements of the current scope")
        same_loc(ex, loc(ex, b1), bl, L_ + "and has its location")
        outer(ex, now, st, L_ + "the analysis starts from the scopes of the analyzer")
        # whatever the analysis does to the block and its location
        bw = CellLV(b1.cell)
        l = loc(ex, b1)
        if l.cell is not None: CellLV(l.cell).set(ex, SymRef(lib_tree.SL_CLS, "location after", ()))
        lib_tree.loc_set(ex, bw, Ptr(Cell("location after", (), lib_tree.SL_CLS), z3.Bool("no location after"), lib_tree.SL_CLS))
        FieldLV(bw, "statements").set(ex, get(ex, sym_node(ex, BLK, "block after"), "statements", BLK))
        # whatever the analysis does to the scopes
        FieldLV(a, "scope_stack_").set(ex, ex.sym_list("scopes after", (), lambda e, m, x: SymRef(SC, m, x), SC))
        if ex.branch(z3.Bool("the analysis raises")): raise failure(ex, "analysis", ())
        return anyof(AR, result(ex))
    def well_formed(ex, unit, d, this, args):
        if ex.branch(Not(z3.Bool("the tree is complete"))): throw(ex, "std::runtime_error")
        return UNIT
    def dump(ex, unit, d, this, args): return UNIT
    def setup(ex):
        this, st = analyzer(ex)
        b = ex.field(ex.seq_at(st, 0), "block")
        ex.assume(Not(null(b)))
        old = vec(ex, get(ex, b, "statements", BLK))
        l = loc(ex, b)
        bl = ends(ex, l) if l.cell is not None and ex.branch(Not(l.null)) else None
        p = Cell("program", (), SYN + "::Program")
        ex.store["analyzer#0"] = (this, st, b, old, bl)
        return this, [CellLV(p)], (this, st, b, old, bl)
    def kept(ex, c):
        this, st, b, old, bl = c
        ex.oblige(ex.store.get("visited#0", 0) == 1, L_ + "analyzes once")
        now = stack(ex, this)
        ex.oblige(eq(ex.seq_len(now), ex.seq_len(st)), L_ + "the scopes of the analyzer are as before: number")
        s0, s1 = ex.seq_at(st, 0), ex.seq_at(now, 0)
        for t in TABLES: same_field(ex, s1, s0, t, L_ + "the current scope is as before")
        b1 = ex.field(s1, "block")
        ex.oblige(Not(null(b1)), L_ + "the current scope has a block")
        ex.prove_seq_eq(vec(ex, get(ex, b1, "statements", BLK)), old, L_ + "the block of the current scope holds the statements it held")
        same_loc(ex, loc(ex, b1), bl, L_ + "and is located where it was")
        outer(ex, now, st, L_ + "the other scopes are as before")
    def post(ex, r, c):
        kept(ex, c)
        w = result(ex)
        ex.oblige(same_ptr(ex.field(r, "root"), ex.field(w, "root")) or ptr_same(ex, ex.field(r, "root"), ex.field(w, "root")), L_ + "yields the tree of the analysis")
        ex.prove_seq_eq(vec(ex, ex.field(r, "errors")), vec(ex, ex.field(w, "errors")), L_ + "and its errors, no others")
    def thr(ex, t, c):
        kept(ex, c)
        ex.oblige(Or(z3.Bool("the analysis raises"), Not(z3.Bool("the tree is complete"))), L_ + "fails only if the analysis does or its tree is incomplete")
    saved = v.contracts
    v.contracts = dict(saved, **{SA + "::visit_program": visit_program})
    for n in ("tree::base::One", "tree::base::Maybe", "tree::Completable", "tree::base::Completable"): v.contracts[n + "::check_well_formed"] = well_formed
    for n in (SEM + "::Program", SEM + "::Node", "fmt", "fmt::v9", "fmt::v11"): v.contracts[n + "::dump_raw_pointers"] = dump; v.contracts[n + "::print"] = dump
    v.contract("Analyzer::analyze(program)", unit, d, setup, post, thr)
    v.contracts = saved

def frame(v):
    """no function of the analysis has anywhere to keep something for the next analysis: every variable that outlives a call is const,
    or of a class whose functions cannot change it"""
    p = Program()
    for f in ("src/v3x/syntactic_analyzer.cpp", "src/v3x/antlr_scanner.cpp", "src/v3x/antlr_custom_error_listener.cpp", "src/v3x/parse_helper.cpp", "src/v3x/analyzer.cpp", "src/v3x/semantic_analyzer.cpp", "src/v3x/resolver.cpp", "src/v3x/instruction_set.cpp", "src/v3x/register_consteval_core_functions.cpp", "src/v3x/register_instructions.cpp",
              "src/v3x/instruction.cpp", "src/v3x/values.cpp", "src/v3x/types.cpp", "src/v3x/primitives.cpp", "src/v3x/core_function.cpp", "src/annotations.cpp", "src/error.cpp", "src/version.cpp", "src/utils.cpp"): p.load(f, standin=True)
    n = 0
    for u in p.units:
        for d in u.decls.values():
            if d["k"] == "fn" and d["q"].startswith("cqasm") and d.get("body") is not None: n += 1
            if not d.get("glob") or not d["q"].startswith("cqasm"): continue
            ty = u.ty(d["t"])
            if ty["s"].startswith("const ") or ty["s"].endswith("const"): continue
            cls = ty.get("n")
            if ty["k"] == "rec" and cls and all(m.get("cm") or m.get("static") or m["q"].endswith(("::(ctor)", "::(dtor)", "::operator=")) or "::~" in m["q"] for w in p.units for m in w.decls.values() if m["k"] == "fn" and m["q"].startswith(cls + "::")): continue
            raise Unsupported("%s (%s) can be changed and outlives an analysis" % (d["q"], ty["s"]))
    v.lemma("frame: nothing the %d functions of the analysis can change outlives it, other than what they are given" % n, z3.BoolVal(True))

def run_C28(v):
    v.contracts = dict(ERR_CONTRACTS)
    v.part(frame)
    v.part(analyze_program)

# ---- entry points (C26) ------------------------------------------------------------------------
PY = "V3xAnalyzer"
API = "cqasm::v3x"

def load():
    lib_tree.L.transparent_bases.add(SYN + "::Visitor")
    p = Program()
    for f in ("src/v3x/analyzer.cpp", "src/v3x/semantic_analyzer.cpp", "src/v3x/resolver.cpp", "src/v3x/cqasm.cpp", "src/v3x/cqasm_python.cpp", "src/v3x/parse_helper.cpp", "src/annotations.cpp"): p.load(f, standin=True)
    return p

def record(ex, k, *x): ex.store[k + "#0"] = ex.store.get(k + "#0", ()) + (x,)
def recorded(ex, k): return ex.store.get(k + "#0", ())

def opt_name(ex, x):
    """an optional file name as the sequence the listeners keep: none and an empty one are the same"""
    x = ex.rv(x)
    if not isinstance(x, Opt): return ex.as_seq(x)
    return ex.as_seq(ex.rv(x.v)) if ex.branch(x.has) else Seq()
def c_parse(kind):
    def parse(ex, unit, d, this, args):
        """parser::parse_file, parse_string: one result for each text and name"""
        record(ex, "parse", kind, ex.as_seq(ex.rv(args[0])), opt_name(ex, args[1]))
        return SymRef(PR, "parsed", ())
    return parse
def c_analyze(ex, unit, d, this, args):
    """Analyzer::analyze: one result for each parse result"""
    x = ex.rv(args[0])
    if isinstance(x, Obj): x = x.f.get("#sym", x)
    if not (isinstance(x, SymRef) and x.name == "parsed"): raise Unsupported("analysis of %r" % (x,))
    record(ex, "analyze", this.get(ex))
    return SymRef(AR, "analyzed", ())
def c_default(ex, unit, d, this, args):
    """default_analyzer: an analyzer of that version with the defaults"""
    record(ex, "default", ex.as_seq(ex.rv(args[0])))
    return SymRef(AN, "default analyzer", ())
def c_unwrap(ex, unit, d, this, args):
    """AnalysisResult::unwrap (C11)"""
    x = ident(this.get(ex))
    if ex.branch(z3.Bool("errors in " + x.name)): throw(ex, API + "::analyzer::AnalysisFailed")
    return sym_ptr(ex, SEM + "::Program", "root of " + x.name, tuple(x.args), False)
def c_strings(ex, unit, d, this, args):
    """to_strings (C11)"""
    x = ident(this.get(ex))
    return ex.sym_list("strings of " + x.name, tuple(x.args), lambda e, m, a: e.sym_string(m, a))
def c_json(ex, unit, d, this, args):
    """to_json (C11)"""
    x = ident(this.get(ex))
    return ex.sym_string("JSON of " + x.name, tuple(x.args))
PIPE = {PS + "::parse_file": c_parse("file"), PS + "::parse_string": c_parse("text"), AN + "::analyze": c_analyze, API + "::default_analyzer": c_default, AR + "::unwrap": c_unwrap}
for _c in (AR, PR): PIPE[_c + "::to_strings"] = c_strings; PIPE[_c + "::to_json"] = c_json

def parsed_once(ex, kind, text, name, L_):
    r = recorded(ex, "parse")
    ex.oblige(len(r) == 1 and r[0][0] == kind, L_ + "parses the %s once" % kind)
    if len(r) != 1 or r[0][0] != kind: return
    ex.prove_seq_eq(r[0][1], text, L_ + "parses exactly the %s given" % kind)
    ex.prove_seq_eq(r[0][2], name, L_ + "under the file name given")
def is_sym(x, name):
    x = ident(x) if isinstance(x, (Obj, SymRef)) else x
    return isinstance(x, SymRef) and x.name == name
def analyzed_once(ex, who, L_):
    r = recorded(ex, "analyze")
    ex.oblige(len(r) == 1 and is_sym(r[0][0], who), L_ + "analyzes the parse result once, with its analyzer")

def text(ex, n):
    s = ex.sym_string(n); ex.inputs[n] = s
    return s
def opt_text(ex, n):
    s = text(ex, n)
    return (ex.temp(Opt(True, s)), s) if ex.branch(z3.Bool("has " + n)) else (ex.temp(Opt(False)), Seq())

def core(v):
    unit, d = v.prog.find(AN + "::analyze", lambda u, d: "ParseResult" in u.ty(d["ps"][0]["t"])["s"])
    L_ = "analyze(parse result): "
    def program(ex, unit, d, this, args):
        o = ident(ex.lvof(args[0]).get(ex))
        record(ex, "program", o)
        return SymRef(AR, "analysis of " + o.name, tuple(o.args))
    def setup(ex):
        this = CellLV(Cell("analyzer", (), AN))
        p = CellLV(Cell("parsed", (), PR))
        root = ex.field(p.get(ex), "root")
        errs = vec(ex, ex.field(p.get(ex), "errors"))
        ex.inputs["errors"] = ex.seq_len(errs)
        ex.assume(Implies(eq(ex.seq_len(errs), 0), Not(null(root))))
        return this, [p], (errs, root)
    def post(ex, r, c):
        errs, root = c
        if ex.branch(lt(0, ex.seq_len(errs))):
            ex.oblige(null(ex.field(r, "root")), L_ + "with parse errors there is no tree")
            ex.prove_seq_eq(vec(ex, ex.field(r, "errors")), errs, L_ + "the errors are those of the parser, in order")
            return ex.oblige(not recorded(ex, "program"), L_ + "and nothing is analyzed")
        rs = recorded(ex, "program")
        ex.oblige(len(rs) == 1 and rs[0][0].name == ident(node(ex, root)).name, L_ + "analyzes the program parsed, once")
        ex.oblige(is_sym(r, "analysis of " + ident(node(ex, root)).name), L_ + "and yields that analysis")
    saved = v.contracts
    v.contracts = dict(saved)
    def an(ex, unit, d, this, args):
        return program(ex, unit, d, this, args) if "Program" in unit.ty(d["ps"][0]["t"])["s"] else NotImplemented
    v.contracts[AN + "::analyze"] = an
    v.contract("Analyzer::analyze(parse result)", unit, d, setup, post)
    v.contracts = saved
    for fn, kind in (("analyze_file", "file"), ("analyze_string", "text")):
        unit, d = v.prog.find(AN + "::" + fn)
        def setup(ex):
            a = text(ex, kind)
            if kind == "file": return CellLV(Cell("analyzer", (), AN)), [ex.temp(a)], (a, a)
            n, ns = opt_text(ex, "name")
            return CellLV(Cell("analyzer", (), AN)), [ex.temp(a), n], (a, ns)
        def post(ex, r, c):
            L_ = "Analyzer::%s: " % fn
            parsed_once(ex, kind, c[0], c[1], L_); analyzed_once(ex, "analyzer", L_)
            ex.oblige(is_sym(r, "analyzed"), L_ + "yields that analysis")
        v.contract("Analyzer::" + fn, unit, d, setup, post)

def convenience(v):
    unit, d = v.prog.find(API + "::default_analyzer")
    def reg(n):
        def f(ex, unit, d, this, args):
            record(ex, n, this.get(ex)); return UNIT
        return f
    def ctor(ex, unit, d, this, args):
        """Analyzer(version) (C23), Version(text) (C07)"""
        x = ex.rv(args[0])
        if isinstance(x, SymRef) and x.cls == AN or isinstance(x, Obj) and x.cls == AN: return x
        record(ex, "new", x); return SymRef(AN, "new analyzer", ())
    def version(ex, unit, d, this, args):
        return SymRef(VER, "version", ()) if is_text(ex, args[0], "api version") else NotImplemented
    def is_text(ex, a, n): 
        x = ex.as_seq(ex.rv(a)); s = ex.sym_string(n)
        return ex.valid(ex.seq_eq_cond(x, s))
    NEW = {AN + "::(ctor)": ctor, VER + "::(ctor)": version, VER + "::Version": version}
    for n in ("constants", "functions", "instructions"): NEW[AN + "::register_default_" + n] = reg(n)
    def once(ex, n): return len(recorded(ex, n)) == 1 and is_sym(recorded(ex, n)[0][0], "new analyzer")
    saved = v.contracts
    v.contracts = dict(saved, **NEW)
    v.contracts.pop(API + "::default_analyzer")
    L_ = "default_analyzer: "
    def post(ex, r, c):
        ex.oblige(is_sym(r, "new analyzer") and len(recorded(ex, "new")) == 1 and is_sym(recorded(ex, "new")[0][0], "version"), L_ + "a new analyzer of the version given")
        for n in ("constants", "functions", "instructions"): ex.oblige(once(ex, n), L_ + "with the default %s, registered once" % n)
    v.contract("default_analyzer", unit, d, lambda ex: (None, [ex.temp(text(ex, "api version"))], None), post)
    v.contracts = saved
    for fn, kind in (("analyze_file", "file"), ("analyze_string", "text")):
        unit, d = v.prog.find(API + "::" + fn)
        def setup(ex):
            a, w = text(ex, kind), text(ex, "api version")
            if kind == "file": return None, [ex.temp(a), ex.temp(w)], (a, Seq(), w)
            n, ns = opt_text(ex, "name")
            return None, [ex.temp(a), n, ex.temp(w)], (a, ns, w)
        def check(ex, c):
            L_ = fn + ": "
            parsed_once(ex, kind, c[0], c[1], L_) if kind == "text" else parsed_once(ex, kind, c[0], recorded(ex, "parse")[0][2] if recorded(ex, "parse") else Seq(), L_)
            analyzed_once(ex, "default analyzer", L_)
            r = recorded(ex, "default")
            ex.oblige(len(r) == 1, L_ + "uses one default analyzer")
            if len(r) == 1: ex.prove_seq_eq(r[0][0], c[2], L_ + "of the version given")
            return L_
        def post(ex, r, c):
            L_ = check(ex, c)
            ex.oblige(Not(z3.Bool("errors in analyzed")), L_ + "fails if the analysis has errors")
            r = ex.rv(r)
            ex.oblige(ptr_same(ex, r, sym_ptr(ex, SEM + "::Program", "root of analyzed", (), False)), L_ + "yields the tree of the analysis")
        def thr(ex, t, c):
            L_ = check(ex, c)
            ex.oblige(z3.Bool("errors in analyzed"), L_ + "fails only if the analysis has errors")
            ex.oblige(t.cls == API + "::analyzer::AnalysisFailed", L_ + "with AnalysisFailed")
        v.contract(fn, unit, d, setup, post, thr)
    # the binding class
    unit, d = v.prog.find(PY + "::(ctor)", lambda u, d: len(d["ps"]) == 2)
    v.contracts = dict(saved, **NEW)
    L_ = "V3xAnalyzer: "
    def setup(ex):
        this = ex.temp(Obj(PY, {}), "binding")
        b = z3.Bool("without defaults")
        return this, [ex.temp(text(ex, "api version")), ex.temp(b)], (this, b)
    def post(ex, r, c):
        this, b = c
        a = ex.field(this.get(ex), "analyzer")
        ex.oblige(Not(null(a)), L_ + "holds an analyzer")
        if null(a) is True: return
        w = ident(node(ex, a))
        if ex.branch(b):
            ex.oblige(w.name == "new analyzer" and len(recorded(ex, "new")) == 1 and is_sym(recorded(ex, "new")[0][0], "version"), L_ + "without defaults, a new analyzer of the version given")
            for n in ("constants", "functions"): ex.oblige(once(ex, n), L_ + "with the default %s" % n)
            return ex.oblige(not recorded(ex, "instructions"), L_ + "and without instructions")
        r = recorded(ex, "default")
        ex.oblige(w.name == "default analyzer" and len(r) == 1, L_ + "with defaults, the default analyzer")
        if len(r) == 1: ex.prove_seq_eq(r[0][0], ex.sym_string("api version"), L_ + "of the version given")
        for n in ("constants", "functions", "instructions"): ex.oblige(not recorded(ex, n), L_ + "the defaults are registered once")
    v.contract("V3xAnalyzer constructor", unit, d, setup, post)
    v.contracts = saved
    def register(ex, unit, d, this, args):
        record(ex, "instruction", this.get(ex), ex.as_seq(ex.rv(args[0])), ex.rv(args[1])); return UNIT
    v.contracts = dict(saved, **{AN + "::register_instruction": register})
    unit, d = v.prog.find(PY + "::register_instruction")
    def binding(ex):
        this = CellLV(Cell("binding", (), PY))
        a = ex.field(this.get(ex), "analyzer")
        ex.assume(Not(null(a)))
        return this, a
    def setup2(ex):
        this, a = binding(ex)
        t, ts = opt_text(ex, "types")
        return this, [ex.temp(text(ex, "instruction")), t], (a, t.get(ex))
    def post2(ex, r, c):
        L_ = "V3xAnalyzer::register_instruction: "
        rs = recorded(ex, "instruction")
        ex.oblige(len(rs) == 1 and is_sym(rs[0][0], ident(node(ex, c[0])).name), L_ + "registers one instruction with its analyzer")
        if len(rs) != 1: return
        ex.prove_seq_eq(rs[0][1], ex.sym_string("instruction"), L_ + "of the name given")
        ex.oblige(ex.veq(rs[0][2], c[1]), L_ + "and the operand types given")
    v.contract("V3xAnalyzer::register_instruction", unit, d, setup2, post2)
    v.contracts = saved
    for what in ("parse", "analyze"):
        for kind, suffix in (("file", "_file"), ("text", "_string")):
            for js in ("", "_to_json"):
                fn = what + suffix + js
                unit, d = v.prog.find(PY + "::" + fn)
                def setup(ex):
                    this, a = binding(ex) if what == "analyze" else (None, None)
                    x = text(ex, kind)
                    if kind == "file": return this, [ex.temp(x)], (a, x, None)
                    n = text(ex, "name")
                    return this, [ex.temp(x), ex.temp(n)], (a, x, n)
                def post(ex, r, c):
                    a, x, n = c
                    L_ = "V3xAnalyzer::" + fn + ": "
                    if n is None: n = recorded(ex, "parse")[0][2] if recorded(ex, "parse") else Seq()
                    parsed_once(ex, kind, x, n, L_)
                    if what == "analyze": analyzed_once(ex, ident(node(ex, a)).name, L_)
                    else: ex.oblige(not recorded(ex, "analyze"), L_ + "analyzes nothing")
                    of = "parsed" if what == "parse" else "analyzed"
                    r = ex.as_seq(ex.rv(r))
                    want = ex.sym_string("JSON of " + of) if js else ex.sym_list("strings of " + of, (), lambda e, m, y: e.sym_string(m, y))
                    ex.prove_seq_eq(r, want, L_ + "yields the %s of the result, unchanged" % ("JSON" if js else "strings"))
                v.contract("V3xAnalyzer::" + fn, unit, d, setup, post)

EW = "EmscriptenWrapper"
def browser(v):
    """the JavaScript binding: the same results as an analyzer of the binding class with default settings"""
    v.prog.load("emscripten/emscripten_wrapper.cpp", standin=True, extra_roots=(os.path.join(REPO, "emscripten"),))
    for what in ("parse", "analyze"):
        fn = what + "_string_to_json"
        unit, d = v.prog.find(EW + "::" + fn)
        def setup(ex):
            x, n = text(ex, "text"), text(ex, "name")
            return CellLV(Cell("wrapper", (), EW)), [ex.temp(x), ex.temp(n)], (x, n)
        def post(ex, r, c, what=what, fn=fn):
            L_ = EW + "::" + fn + ": "
            parsed_once(ex, "text", c[0], c[1], L_)
            if what == "analyze":
                analyzed_once(ex, "default analyzer", L_)
                w = recorded(ex, "default")
                ex.oblige(len(w) == 1, L_ + "uses one default analyzer")
                if len(w) == 1: ex.prove_seq_eq(w[0][0], Seq.lit("3.0"), L_ + "of version 3.0")
            else: ex.oblige(not recorded(ex, "analyze"), L_ + "analyzes nothing")
            ex.prove_seq_eq(ex.as_seq(ex.rv(r)), ex.sym_string("JSON of " + ("parsed" if what == "parse" else "analyzed")), L_ + "yields the JSON of the result, unchanged")
        v.contract(EW + "::" + fn, unit, d, setup, post)

def run_C26(v):
    v.contracts = dict(ERR_CONTRACTS, **PIPE)
    v.part(core); v.part(convenience); v.part(browser)
