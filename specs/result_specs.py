"""Contracts for results: strings, JSON, unwrapping (C11)."""
from .node_util import *
from .resolver_specs import vec
from engine import lib_tree
from engine.lib_std import os_write

PKG = "cqasm::v3x"
AR, PR = PKG + "::analyzer::AnalysisResult", PKG + "::parser::ParseResult"

def load():
    p = Program()
    for f in ("src/v3x/analysis_result.cpp", "src/v3x/parse_result.cpp", "src/error.cpp"): p.load(f, standin=True)
    return p

def ident(o):
    if isinstance(o, Obj) and "#sym" in o.f: return o.f["#sym"]
    if isinstance(o, SymRef): return o
    raise Unsupported("text of %r" % (o,))
def text_of(ex, o, what):
    o = ident(o)
    return ex.sym_string("%s of %s" % (what, o.name), tuple(o.args))
def what(ex, unit, d, this, args):
    """Error::what: the text of the error (C09)"""
    return text_of(ex, this.get(ex), "text")      # up to its first NUL, as every C string
def error_json(ex, unit, d, this, args):
    """Error::to_json: one diagnostic (C10)"""
    return text_of(ex, this.get(ex), "diagnostic")
def show_error(ex, unit, d, this, args):
    """operator<<(ostream, Error): the text of the error (C09)"""
    os_write(ex, args[0], text_of(ex, ex.lvof(args[1]).get(ex), "text"))
    return args[0]
def serialized(ex, unit, d, this, args):
    """tree::base::serialize (trusted): the text the tree serializes to"""
    return text_of(ex, node(ex, ex.rv(args[0])), "serialized tree")
def dump_json(ex, unit, d, this, args):
    """Node::dump_json (trusted): writes the JSON of the tree"""
    os_write(ex, args[0], text_of(ex, this.get(ex), "JSON"))
    return UNIT
CON = {ERR + "::what": what, "std::exception::what": what, "std::runtime_error::what": what, ERR + "::to_json": error_json, "cqasm::error::operator<<": show_error, "tree::base::serialize": serialized}

def a_result(ex, cls):
    this = CellLV(Cell("result", (), cls))
    errs = vec(ex, ex.field(this.get(ex), "errors"))
    ex.inputs["errors"] = ex.seq_len(errs)
    root = ex.field(this.get(ex), "root")
    ex.assume(Implies(eq(ex.seq_len(errs), 0), Not(null(root))))    # without errors there is a tree (C22, parser)
    return this, errs, root
def err_text(ex, errs, what): return lambda k: text_of(ex, ex.seq_at(errs, k), what)

def strings(v, cls, name):
    unit, d = v.prog.find(cls + "::to_strings")
    L_ = name + "::to_strings: "
    def setup(ex):
        this, errs, root = a_result(ex, cls)
        return this, [], (errs, root)
    def post(ex, r, c):
        errs, root = c
        r = ex.as_seq(ex.rv(r)); n = ex.seq_len(errs)
        if ex.branch(eq(n, 0)):
            ex.oblige(eq(ex.seq_len(r), 1), L_ + "without errors there is one string")
            return ex.prove_seq_eq(ex.as_seq(ex.seq_at(r, 0)), text_of(ex, node(ex, root), "serialized tree"), L_ + "which is the serialized tree")
        ex.oblige(eq(ex.seq_len(r), add(n, 1)), L_ + "one string for each error, after the first")
        ex.oblige(ex.empty(ex.as_seq(ex.seq_at(r, 0))), L_ + "with errors the first string is empty")
        i = ex.sym_int("i", (), 0, MAXLEN)
        if ex.branch(lt(i, n)): ex.prove_seq_eq(ex.as_seq(ex.seq_at(r, add(i, 1))), err_text(ex, errs, "text")(i), L_ + "the text of each error, in order")
    v.contract(name + "::to_strings", unit, d, setup, post)

def joined(ex, n, f, sep):
    """f(0) sep f(1) ... f(n-1)"""
    if not ex.branch(lt(0, n)): return Seq()
    return f(0) + fold(ex, n, lambda k: [(True, Seq.lit(sep) + f(k))], 1)

def json(v, cls, name):
    unit, d = v.prog.find(cls + "::to_json")
    L_ = name + "::to_json: "
    def setup(ex):
        this, errs, root = a_result(ex, cls)
        return this, [], (errs, root)
    def post(ex, r, c):
        errs, root = c
        r = ex.as_seq(ex.rv(r)); n = ex.seq_len(errs)
        if ex.branch(eq(n, 0)): return ex.prove_seq_eq(r, text_of(ex, node(ex, root), "JSON"), L_ + "without errors the JSON of the tree")
        ex.prove_seq_eq(r, Seq.lit('{"errors":[') + joined(ex, n, err_text(ex, errs, "diagnostic"), ",") + Seq.lit("]}"), L_ + "with errors an object with one diagnostic for each, in order")
    v.contract(name + "::to_json", unit, d, setup, post)

def unwrap(v):
    unit, d = v.prog.find(AR + "::unwrap")
    L_ = "unwrap: "
    def setup(ex):
        this, errs, root = a_result(ex, AR)
        pre = ex.sym_string("written before"); out = ex.lib.new_ostream(ex, pre)
        return this, [out], (errs, root, out, pre)
    def post(ex, r, c):
        errs, root, out, pre = c
        ex.oblige(eq(ex.seq_len(errs), 0), L_ + "a result with errors is refused")
        ex.oblige(same_ptr(ex.rv(r), root), L_ + "yields the tree")
        ex.prove_seq_eq(ex.lib.ostream_text(ex, out), pre, L_ + "nothing is printed without errors")
    def thr(ex, t, c):
        errs, root, out, pre = c
        n = ex.seq_len(errs)
        ex.oblige(lt(0, n), L_ + "a result without errors is not refused")
        ex.oblige(t.cls == PKG + "::analyzer::AnalysisFailed", L_ + "refused with AnalysisFailed")
        ex.prove_seq_eq(ex.lib.ostream_text(ex, out), pre + joined(ex, n, err_text(ex, errs, "text"), "\n"), L_ + "after the text of every error is printed, in order")
    v.contract("AnalysisResult::unwrap", unit, d, setup, post, thr)

def run_C11(v):
    v.contracts = dict(CON)
    for c in (SEM + "::Program", SEM + "::Node", PKG + "::syntactic::Node", PKG + "::syntactic::Root"): v.contracts[c + "::dump_json"] = dump_json
    for cls, n in ((AR, "AnalysisResult"), (PR, "ParseResult")):
        v.part(strings, cls, n); v.part(json, cls, n)
    v.part(unwrap)
