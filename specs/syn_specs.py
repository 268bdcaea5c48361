"""Contracts for src/v3x/syntactic_analyzer.cpp: from parse contexts to the syntactic tree (C24).

The parser generated by ANTLR is a contract: a context gives, for each part of its grammar rule, the context or token of that
part, the same one at every call; parts the grammar lets out may be absent.  Accepting a visitor yields the tree of that
context (the node its visitor builds: each visitor is decided below), or the error its visitor raises."""
from .node_util import *
from .resolver_specs import vec
from .sema_specs import anyof
from engine import lib_tree
from engine.lib_nodes import make_node
from engine.vals import CStr

SY = "cqasm::v3x::syntactic"
PA = "cqasm::v3x::parser"
SYN = PA + "::SyntacticAnalyzer"
CP = PA + "::CqasmParser"
ONE = lambda c: "tree::base::One<%s>" % c
TOKEN, TERMINAL = "antlr4::Token", "antlr4::tree::TerminalNode"
U32, SIZE = (1 << 32) - 1, (1 << 64) - 1
# what a context's tree is: the class of the node its visitor builds
NODE = {"Program": "Program", "VersionSection": "Version", "Version": "Version", "GlobalBlockSection": "GlobalBlock", "GlobalBlockStatement": "Statement",
        "VariableDefinition": "Statement", "Instruction": "Statement", "GateInstruction": "Statement", "NonGateInstruction": "Statement", "AsmDeclaration": "Statement",
        "Gate": "Gate", "Type": "Type", "QuantumType": "Type", "ArraySizeDeclaration": "IntegerLiteral", "ExpressionList": "ExpressionList", "Expression": "Expression",
        "IndexList": "IndexList", "IndexEntry": "IndexEntry"}
# the parts the grammar lets out: (context, accessor); operators are chosen among those of their rule
OPTIONAL = {("Program", "globalBlockSection"), ("NamedGate", "expressionList"), ("MeasureInstruction", "expressionList"), ("QubitType", "arraySizeDeclaration"),
            ("BitType", "arraySizeDeclaration"), ("FunctionCall", "expressionList")}
CHOICES = {"GlobalBlockStatement": ("variableDefinition", "instruction"), "Instruction": ("gateInstruction", "nonGateInstruction", "asmDeclaration"),
           "UnaryPlusMinusExpression": ("PLUS", "MINUS"), "ProductExpression": ("PRODUCT_OP", "DIVISION_OP", "MODULO_OP"), "AdditionExpression": ("PLUS", "MINUS"),
           "ShiftExpression": ("SHL_OP", "SHR_OP"), "ComparisonExpression": ("CMP_GT_OP", "CMP_LT_OP", "CMP_GE_OP", "CMP_LE_OP"), "EqualityExpression": ("CMP_EQ_OP", "CMP_NE_OP")}

from .grammar_specs import grammar
def load():
    p = Program()
    for f in ("src/v3x/syntactic_analyzer.cpp", "src/annotations.cpp", "src/v3x/antlr_custom_error_listener.cpp", "src/v3x/antlr_scanner.cpp", "src/v3x/parse_helper.cpp"): p.load(f, standin=True)
    return p

def short(cls): return cls.split("::")[-1].replace("Context", "")
def ctx_ptr(name, args, cls, absent=False): return Ptr(Cell(name, args, cls), absent, cls)
def which(ex, o):
    """the alternative a context was built by"""
    n = len(CHOICES[short(o.cls)])
    w = ex.sym_int("alternative of " + o.name, o.args, 0, n - 1)
    return w
def of(o):
    if isinstance(o, Obj) and "#sym" in o.f: o = o.f["#sym"]
    if not isinstance(o, SymRef): raise Unsupported("context %r" % (o,))
    return o
def sub(name, acc): return "%s.%s" % (name, acc)
def accessor(cls, acc, ret):
    """contract of an accessor of a context"""
    c = short(cls)
    def get_(ex, unit, d, this, args):
        o = of(this.get(ex))
        rt = unit.ty(unit.strip(d["ret"]))
        if rt["k"] == "ptr":
            to = unit.ty(rt["to"])["n"]
            extra = ()
            if args:
                i = ex.rv(args[0])
                extra = (i,)
            absent = False
            if c in CHOICES and acc in CHOICES[c]: absent = simp(Not(eq(which(ex, o), CHOICES[c].index(acc))))
            elif (c, acc) in OPTIONAL: absent = ex.uf("absent:" + sub(o.name, acc), o.args, z3.BoolSort())
            return ctx_ptr(sub(o.name, acc), tuple(o.args) + extra, to, absent)
        if rt["k"] == "rec":
            to = CP + "::" + acc[0].upper() + acc[1:] + "Context"
            s = ex.sym_list(sub(o.name, acc), tuple(o.args), lambda e, m, x: ctx_ptr(sub(o.name, acc), x, to), to)
            return s
        raise Unsupported("accessor %s" % acc)
    return get_
def fails(ex, o): return ex.uf("fails:" + o.name, o.args, z3.BoolSort())
def tree_of(ex, o):
    cls = SY + "::" + NODE[short(o.cls)]
    return sym_ptr(ex, cls, "tree of " + o.name, tuple(o.args), False)
def visited(ex, o):
    o = of(o)
    if short(o.cls) not in NODE: raise Unsupported("tree of a " + o.cls)
    if ex.branch(fails(ex, o)):
        raise CxxThrow(ex.temp(SymRef(ERR, "error of " + o.name, tuple(o.args)), "exc"), ERR)
    return anyof(ONE(SY + "::" + NODE[short(o.cls)]), tree_of(ex, o))
def accept(ex, unit, d, this, args): return visited(ex, this.get(ex))
def visit(ex, unit, d, this, args):
    p = ex.rv(args[0])
    if p.cell is None: raise Unsupported("visiting no context")
    ex.deref_check(p) if hasattr(ex, "deref_check") else None
    return visited(ex, node(ex, p))
def text_of(ex, o): return ex.sym_string("text of " + o.name, tuple(o.args))
def get_text(ex, unit, d, this, args):
    o = of(this.get(ex))
    if o.name == "ctx.VERSION_NUMBER": return version_text(ex)
    return text_of(ex, o)
def symbol(ex, unit, d, this, args):
    o = of(this.get(ex)); return ctx_ptr("token of " + o.name, o.args, TOKEN)
def number(what, hi):
    def get_(ex, unit, d, this, args):
        o = of(this.get(ex))
        if what in ("start", "stop"): token_loc(ex, o)     # the lexer: a token does not end before it begins
        return ex.sym_int(what + " of " + o.name, tuple(o.args), 0, hi)
    return get_
_types = {}
def token_type(ex, unit, d, this, args):
    """the type of a token is that of the accessor it was obtained by"""
    import re, os
    from engine.unit import gen_dir
    if not _types:
        t = open(os.path.join(gen_dir(), "include/libqasm/v3x/CqasmParser.h")).read()
        _types.update({a: int(b) for a, b in re.findall(r"\b([A-Z_]+) = (\d+)", t)})
    o = of(this.get(ex)); acc = o.name.split(".")[-1]
    if acc in _types: return _types[acc]
    return ex.sym_int("type of " + o.name, tuple(o.args), 0, SIZE)
def accessors(p):
    c = {}
    for u in p.units:
        for i, d in u.decls.items():
            if d["k"] == "fn" and d["q"].startswith(CP + "::") and "Context::" in d["q"]:
                cls, acc = d["q"].rsplit("::", 1)
                if acc != "accept" and not acc.startswith("("): c[d["q"]] = accessor(cls, acc, None)
                elif acc == "accept": c[d["q"]] = accept
    c["antlr4::tree::ParseTree::accept"] = accept
    c[TERMINAL + "::getText"] = get_text
    c["antlr4::tree::ParseTree::getText"] = get_text
    c[TERMINAL + "::getSymbol"] = symbol
    c[TOKEN + "::getText"] = get_text
    c[TOKEN + "::getType"] = token_type
    c[TOKEN + "::getLine"] = number("line", U32 >> 2)
    c[TOKEN + "::getCharPositionInLine"] = number("column", U32 >> 2)
    c[TOKEN + "::getStartIndex"] = number("start", U32 >> 2)
    c[TOKEN + "::getStopIndex"] = number("stop", U32 >> 2)
    return c
def c_stod(ex, unit, d, this, args):
    """std::stod of a floating point literal: its value, or out_of_range"""
    s = ex.as_seq(ex.rv(args[0]))
    b = whole(s)
    if ex.branch(ex.uf("does not fit:" + b.name, b.args, z3.BoolSort())): throw_std(ex, "std::out_of_range", "stod")
    return ex.uf("value:" + b.name, b.args, z3.Float64())
def whole(s):
    if len(s.atoms) != 1 or not isinstance(s.atoms[0], SL): raise Unsupported("number of %r" % (s,))
    b = s.atoms[0].base
    if s.atoms[0].lo != 0 or not (s.atoms[0].hi is b.length or str(s.atoms[0].hi) == str(b.length)): raise Unsupported("number of a part of a text")
    return b
def c_syntax_error(ex, unit, d, this, args):
    """AntlrCustomErrorListener::syntaxError (below): raises the error at that place"""
    a = [ex.rv(x) for x in args]
    raise CxxThrow(ex.temp(Obj(ERR, {"#at": (a[0], a[1])}), "exc"), ERR)

class Visit:
    """one visitor under contract"""
    def __init__(self, v, name, cls=None, fn=None):
        self.v, self.name = v, name
        self.cls = CP + "::" + (cls or name[5:]) + "Context"
    def tok(self, acc): return SymRef(TOKEN, "token of " + sub("ctx", acc), ())
    def child(self, acc, cls, i=None): return SymRef(CP + "::" + cls + "Context", sub("ctx", acc), () if i is None else (i,))
    def tree(self, ex, acc, cls, i=None): return tree_of(ex, self.child(acc, cls, i))

def file_name(ex, this): return ex.field(this.get(ex), "file_name_")
def located(ex, this, p, tok, L_, end=None):
    """obligation: a node has the one-based position of its token"""
    l = loc(ex, p)
    ex.oblige(Not(null(l)), L_ + "has a location")
    if null(l) is True: return
    sl = ex.load(l.cell)
    ex.oblige(ex.veq(ex.rv(ex.field(sl, "file_name")), want_name(ex, this)), L_ + "is located in the file given")
    r = ex.field(sl, "range")
    a, b = ex.field(r, "first"), ex.field(r, "last")
    if isinstance(r, Pair): a, b = r.a, r.b
    l0, c0, l1, c1 = token_loc(ex, tok)
    if end is not None: _, _, l1, c1 = token_loc(ex, end)
    f = lambda x, n: ex.rv(ex.field(x, n))
    ex.oblige(And(eq(f(a, "line"), l0), eq(f(a, "column"), c0)), L_ + "begins at its text, counted from one")
    ex.oblige(And(eq(f(b, "line"), l1), eq(f(b, "column"), c1)), L_ + "ends behind its text")
def token_loc(ex, tok):
    n = lambda w: ex.sym_int(w + " of " + tok.name, tuple(tok.args), 0, U32 >> 2)
    l, c = n("line"), add(n("column"), 1)
    ex.assume(le(n("start"), n("stop")))
    return l, c, l, add(c, add(add(n("stop"), mul(-1, n("start"))), 1))
def want_name(ex, this): return ex.rv(file_name(ex, this))
def isa(ex, p, name, L_):
    o = node(ex, p)
    ex.oblige(isinstance(o, Obj) and o.cls == SY + "::" + name, L_ + "is a " + name, repr(getattr(o, "cls", o)))
    if not (isinstance(o, Obj) and o.cls == SY + "::" + name): raise Skip()
class Skip(Exception): pass

def visitor(v, name, check, cls=None, lit=None, extra=None):
    """check(ex, V, r): obligations on the value of the visitor's result"""
    unit, d = v.prog.find(SYN + "::" + name)
    V_ = Visit(v, name, cls)
    L_ = name + ": "
    def setup(ex):
        this = CellLV(Cell("syn", (), SYN))
        ex.assume(Not(null(ex.rv(ex.field(this.get(ex), "error_listener_p_")))))
        f = ex.rv(file_name(ex, this))                     # established by the constructor, below
        ex.assume(Or(Not(f.has), lt(0, ex.seq_len(ex.as_seq(ex.rv(f.v))))))
        if extra: extra(ex, V_)
        return this, [ex.temp(ctx_ptr("ctx", (), V_.cls))], this
    def post(ex, r, c):
        V_.this = c
        try: check(ex, V_, ex.rv(r), L_)
        except Skip: pass
    def thr(ex, t, c):
        x = t.v.get(ex)
        o = x.f["#sym"] if isinstance(x, Obj) and "#sym" in x.f else x
        if isinstance(o, SymRef) and o.name.startswith("error of ctx."): ex.oblige(True, L_ + "passes on the error of its parts"); return
        if lit and isinstance(x, Obj) and "#at" in x.f: return lit(ex, V_, x.f["#at"], L_)
        ex.oblige(False, L_ + "fails only if a part of it does", t.cls)
    v.contract(name, unit, d, setup, post, thr)

def value(ex, r, ty, L_):
    ok = isinstance(r, Special) and r.kind == "any" and r.x is not None and r.x[0] == ONE(SY + "::" + ty)
    ex.oblige(ok, L_ + "yields a " + ty, repr(r)[:80])
    if not ok: raise Skip()
    p = ex.rv(r.x[1])
    ex.oblige(Not(null(p)), L_ + "yields a node")
    if null(p) is True: raise Skip()
    return p
def same(ex, p, q, label):
    from .resolver_specs import ptr_same
    p = ex.rv(p)
    ex.oblige(False if p.cell is None or p.null is True else And(Not(p.null), ptr_same(ex, p, q)), label)
def named(ex, p, cls, txt, L_):
    p = ex.rv(p)
    ex.oblige(Not(null(p)), L_)
    if null(p) is True: return
    isa(ex, p, cls, L_ + ": ")
    ex.prove_seq_eq(ex.as_seq(ex.rv(get(ex, p, "name"))), txt, L_)
def items(ex, p): return vec(ex, get(ex, p, "items"))
def text_at(ex, acc, i=None): return text_of(ex, SymRef(TERMINAL, sub("ctx", acc), () if i is None else (i,)))
def absent(ex, acc): return ex.uf("absent:" + sub("ctx", acc), (), z3.BoolSort())
def one_list(ex, p, ptrs, L_):
    p = ex.rv(p)
    ex.oblige(Not(null(p)), L_)
    if null(p) is True: return
    ex.prove_seq_eq(items(ex, p), Seq([U(x) for x in ptrs]), L_)
def opt_list(ex, V, p, L_):
    """the tree of the expression list, if there is one; an empty one otherwise"""
    if ex.branch(absent(ex, "expressionList")): return one_list(ex, p, [], L_ + " are none if there are none")
    same(ex, p, V.tree(ex, "expressionList", "ExpressionList"), L_ + " are those written")

def run_C24(v):
    v.contracts = dict(ERR_CONTRACTS, **accessors(v.prog))
    v.contracts["std::stod"] = c_stod
    v.contracts[PA + "::AntlrCustomErrorListener::syntaxError"] = c_syntax_error
    v.contracts.update({SYN + "::" + n: visit for n in ("visitExpressionList", "visitIndexList", "visitVersionSection", "visitGlobalBlockSection", "visitVersion")})
    v.part(grammar); v.part(expressions); v.part(leaves_); v.part(lists); v.part(gates_); v.part(instructions); v.part(types_); v.part(top); v.part(version_); v.part(listener); v.part(constructors); v.part(scanners); v.part(parse_helpers)

def without(v, *names):
    saved = v.contracts
    v.contracts = {k: f for k, f in saved.items() if k not in [SYN + "::" + n for n in names]}
    return saved

def expressions(v):
    def unary(name, cls, op):
        def check(ex, V, r, L_):
            p = value(ex, r, "Expression", L_)
            isa(ex, p, cls, L_)
            same(ex, get(ex, p, "expr"), V.tree(ex, "expression", "Expression"), L_ + "its operand is the expression written")
            located(ex, V.this, p, V.tok(op), L_)
        visitor(v, name, check)
    unary("visitBitwiseNotExpression", "BitwiseNotExpression", "BITWISE_NOT_OP")
    unary("visitLogicalNotExpression", "LogicalNotExpression", "LOGICAL_NOT_OP")
    def plus_minus(ex, V, r, L_):
        p = value(ex, r, "Expression", L_)
        w = which(ex, SymRef(V.cls, "ctx", ()))
        t = V.tree(ex, "expression", "Expression")
        if ex.branch(eq(w, 0)): return same(ex, p, t, L_ + "a plus sign leaves its operand")
        isa(ex, p, "UnaryMinusExpression", L_)
        same(ex, get(ex, p, "expr"), t, L_ + "its operand is the expression written")
        located(ex, V.this, p, V.tok("MINUS"), L_)
    visitor(v, "visitUnaryPlusMinusExpression", plus_minus)
    def parens(ex, V, r, L_): same(ex, value(ex, r, "Expression", L_), V.tree(ex, "expression", "Expression"), L_ + "yields the expression inside")
    visitor(v, "visitParensExpression", parens)
    def binary(name, *alts):
        def check(ex, V, r, L_):
            p = value(ex, r, "Expression", L_)
            for i, (acc, cls) in enumerate(alts):
                if i == len(alts) - 1 or ex.branch(eq(which(ex, SymRef(V.cls, "ctx", ())), i)):
                    L_ = "%s(%s): " % (name, acc)
                    isa(ex, p, cls, L_)
                    same(ex, get(ex, p, "lhs"), V.tree(ex, "expression", "Expression", 0), L_ + "the left operand is the first one written")
                    same(ex, get(ex, p, "rhs"), V.tree(ex, "expression", "Expression", 1), L_ + "the right operand is the second one written")
                    return located(ex, V.this, p, V.tok(acc), L_)
        visitor(v, name, check)
    binary("visitPowerExpression", ("POWER_OP", "PowerExpression"))
    binary("visitProductExpression", ("PRODUCT_OP", "ProductExpression"), ("DIVISION_OP", "DivisionExpression"), ("MODULO_OP", "ModuloExpression"))
    binary("visitAdditionExpression", ("PLUS", "AdditionExpression"), ("MINUS", "SubtractionExpression"))
    binary("visitShiftExpression", ("SHL_OP", "ShiftLeftExpression"), ("SHR_OP", "ShiftRightExpression"))
    binary("visitComparisonExpression", ("CMP_GT_OP", "CmpGtExpression"), ("CMP_LT_OP", "CmpLtExpression"), ("CMP_GE_OP", "CmpGeExpression"), ("CMP_LE_OP", "CmpLeExpression"))
    binary("visitEqualityExpression", ("CMP_EQ_OP", "CmpEqExpression"), ("CMP_NE_OP", "CmpNeExpression"))
    for n in ("BitwiseAnd", "BitwiseXor", "BitwiseOr", "LogicalAnd", "LogicalXor", "LogicalOr"):
        op = {"B": "BITWISE_", "L": "LOGICAL_"}[n[0]] + n[7:].upper() + "_OP"
        binary("visit%sExpression" % n, (op, n + "Expression"))
    def ternary(ex, V, r, L_):
        p = value(ex, r, "Expression", L_)
        isa(ex, p, "TernaryConditionalExpression", L_)
        for i, f in enumerate(("cond", "if_true", "if_false")): same(ex, get(ex, p, f), V.tree(ex, "expression", "Expression", i), L_ + "%s is operand %d as written" % (f, i + 1))
        located(ex, V.this, p, V.tok("TERNARY_CONDITIONAL_OP"), L_)
    visitor(v, "visitTernaryConditionalExpression", ternary)
    def call(ex, V, r, L_):
        p = value(ex, r, "Expression", L_)
        isa(ex, p, "FunctionCall", L_)
        named(ex, get(ex, p, "name"), "Identifier", text_at(ex, "IDENTIFIER"), L_ + "the name is the one written")
        a = ex.rv(get(ex, p, "arguments"))
        if ex.branch(absent(ex, "expressionList")): ex.oblige(null(a), L_ + "without arguments there are none")
        else: same(ex, a, V.tree(ex, "expressionList", "ExpressionList"), L_ + "the arguments are those written")
        located(ex, V.this, p, V.tok("IDENTIFIER"), L_)
    visitor(v, "visitFunctionCall", call)
    def index(ex, V, r, L_):
        p = value(ex, r, "Expression", L_)
        isa(ex, p, "Index", L_)
        named(ex, get(ex, p, "expr"), "Identifier", text_at(ex, "IDENTIFIER"), L_ + "the name is the one written")
        same(ex, get(ex, p, "indices"), V.tree(ex, "indexList", "IndexList"), L_ + "the indices are those written")
        located(ex, V.this, p, V.tok("IDENTIFIER"), L_)
    visitor(v, "visitIndex", index)

def int_fits(ex, acc):
    from engine.lib_std import parse_int
    ok, x = parse_int(ex, text_at(ex, acc))
    return x
def literal_token(ex, acc):
    from engine.lib_std import parse_int
    ok, x = parse_int(ex, text_at(ex, acc))      # lexer: digits only
    ex.assume(And(ok, le(0, x)))
I64 = (1 << 63) - 1
def leaves_(v):
    def ident_(ex, V, r, L_):
        p = value(ex, r, "Expression", L_)
        isa(ex, p, "Identifier", L_)
        ex.prove_seq_eq(ex.as_seq(ex.rv(get(ex, p, "name"))), text_at(ex, "IDENTIFIER"), L_ + "the name is the one written")
        located(ex, V.this, p, V.tok("IDENTIFIER"), L_)
    visitor(v, "visitIdentifier", ident_)
    def bool_(ex, V, r, L_):
        p = value(ex, r, "Expression", L_)
        isa(ex, p, "BooleanLiteral", L_)
        want = ex.seq_eq_cond(text_at(ex, "BOOLEAN_LITERAL"), Seq.lit("true"))
        got = ex.rv(get(ex, p, "value"))
        ex.oblige(simp(bz(got) == bz(want)), L_ + "is true exactly if the text is")
        located(ex, V.this, p, V.tok("BOOLEAN_LITERAL"), L_)
    visitor(v, "visitBooleanLiteral", bool_)
    def at_token(acc, fits):
        def lit(ex, V, at, L_):
            n = lambda w: ex.sym_int(w + " of " + V.tok(acc).name, (), 0, U32 >> 2)
            ex.oblige(Not(fits(ex)), L_ + "is rejected only if its value does not fit")
            ex.oblige(And(eq(at[0], n("line")), eq(at[1], n("column"))), L_ + "the error is at the literal")
        return lit
    def int_(located_):
        def check(ex, V, r, L_):
            p = value(ex, r, "Expression" if located_ else "IntegerLiteral", L_)
            isa(ex, p, "IntegerLiteral", L_)
            x = int_fits(ex, "INTEGER_LITERAL")
            ex.oblige(le(x, I64), L_ + "a literal beyond 64 bits is rejected")
            ex.oblige(eq(ex.rv(get(ex, p, "value")), x), L_ + "holds the value written")
            if located_: located(ex, V.this, p, V.tok("INTEGER_LITERAL"), L_)
        return check
    fits = lambda ex: le(int_fits(ex, "INTEGER_LITERAL"), I64)
    pre = lambda ex, V: literal_token(ex, "INTEGER_LITERAL")
    visitor(v, "visitIntegerLiteral", int_(True), lit=at_token("INTEGER_LITERAL", fits), extra=pre)
    visitor(v, "visitArraySizeDeclaration", int_(False), lit=at_token("INTEGER_LITERAL", fits), extra=pre)
    bad = lambda ex: ex.uf("does not fit:text of ctx.FLOAT_LITERAL", (), z3.BoolSort())
    def float_(ex, V, r, L_):
        p = value(ex, r, "Expression", L_)
        isa(ex, p, "FloatLiteral", L_)
        ex.oblige(Not(bad(ex)), L_ + "a literal out of range is rejected")
        ex.oblige(simp(ex.rv(get(ex, p, "value")) == ex.uf("value:text of ctx.FLOAT_LITERAL", (), z3.Float64())), L_ + "holds the value written")
        located(ex, V.this, p, V.tok("FLOAT_LITERAL"), L_)
    visitor(v, "visitFloatLiteral", float_, lit=at_token("FLOAT_LITERAL", lambda ex: Not(bad(ex))))

def trees(ex, V, acc, cls):
    """the trees of a list of contexts, in order"""
    c = CP + "::" + cls + "Context"
    n = ex.seq_len(ex.sym_list(sub("ctx", acc), (), lambda e, m, x: ctx_ptr(sub("ctx", acc), x, c), c))
    return n, (lambda k: tree_of(ex, SymRef(c, sub("ctx", acc), (k,))))
def all_items(ex, V, s, acc, cls, L_):
    n, at = trees(ex, V, acc, cls)
    ex.oblige(eq(ex.seq_len(s), n), L_ + "has as many items as written")
    k = ex.fresh_int("k", 0, MAXLEN); ex.assume(lt(k, n))
    same(ex, ex.seq_at(s, k), at(k), L_ + "each item is the one written at its place")
def lists(v):
    saved = without(v, "visitExpressionList", "visitIndexList", "visitGlobalBlockSection")
    def lst(name, cls, acc, item, field="items"):
        def check(ex, V, r, L_):
            p = value(ex, r, cls, L_)
            isa(ex, p, cls, L_)
            all_items(ex, V, vec(ex, get(ex, p, field)), acc, item, L_)
        visitor(v, name, check)
    lst("visitExpressionList", "ExpressionList", "expression", "Expression")
    lst("visitIndexList", "IndexList", "indexEntry", "IndexEntry")
    lst("visitGlobalBlockSection", "GlobalBlock", "globalBlockStatement", "GlobalBlockStatement", "statements")
    v.contracts = saved
    def item(ex, V, r, L_):
        p = value(ex, r, "IndexEntry", L_)
        isa(ex, p, "IndexItem", L_)
        same(ex, get(ex, p, "index"), V.tree(ex, "expression", "Expression"), L_ + "the index is the one written")
    visitor(v, "visitIndexItem", item)
    def range_(ex, V, r, L_):
        p = value(ex, r, "IndexEntry", L_)
        isa(ex, p, "IndexRange", L_)
        same(ex, get(ex, p, "first"), V.tree(ex, "expression", "Expression", 0), L_ + "the first index is the one written first")
        same(ex, get(ex, p, "last"), V.tree(ex, "expression", "Expression", 1), L_ + "the last index is the one written last")
    visitor(v, "visitIndexRange", range_)

def gates_(v):
    def mod(name, acc, par):
        def check(ex, V, r, L_):
            p = value(ex, r, "Gate", L_)
            isa(ex, p, "Gate", L_)
            named(ex, get(ex, p, "name"), "Identifier", text_at(ex, acc), L_ + "the name is the one written")
            same(ex, get(ex, p, "gate"), V.tree(ex, "gate", "Gate"), L_ + "the gate modified is the one written")
            one_list(ex, get(ex, p, "parameters"), [V.tree(ex, "expression", "Expression")] if par else [], L_ + "the parameters are those written")
            located(ex, V.this, p, V.tok(acc), L_)
        visitor(v, name, check)
    mod("visitInvGate", "INV", False); mod("visitPowGate", "POW", True); mod("visitCtrlGate", "CTRL", False)
    def named_(ex, V, r, L_):
        p = value(ex, r, "Gate", L_)
        isa(ex, p, "Gate", L_)
        named(ex, get(ex, p, "name"), "Identifier", text_at(ex, "IDENTIFIER"), L_ + "the name is the one written")
        ex.oblige(null(ex.rv(get(ex, p, "gate"))), L_ + "modifies no gate")
        opt_list(ex, V, get(ex, p, "parameters"), L_ + "the parameters")
        located(ex, V.this, p, V.tok("IDENTIFIER"), L_)
    visitor(v, "visitNamedGate", named_)
    def instr(ex, V, r, L_):
        p = value(ex, r, "Statement", L_)
        isa(ex, p, "GateInstruction", L_)
        g = V.tree(ex, "gate", "Gate")
        same(ex, get(ex, p, "gate"), g, L_ + "the gate is the one written")
        same(ex, get(ex, p, "operands"), V.tree(ex, "expressionList", "ExpressionList"), L_ + "the operands are those written")
        ex.oblige(loc_same(ex, loc(ex, p), loc(ex, g)), L_ + "is located at its gate")
    visitor(v, "visitGateInstruction", instr)

def instructions(v):
    def nongate(name, acc, params, ops):
        def check(ex, V, r, L_):
            p = value(ex, r, "Statement", L_)
            isa(ex, p, "NonGateInstruction", L_)
            named(ex, get(ex, p, "name"), "Keyword", text_at(ex, acc), L_ + "the name is the one written")
            tr = lambda i: V.tree(ex, "expression", "Expression", i)
            if params is None: opt_list(ex, V, get(ex, p, "parameters"), L_ + "the parameters")
            else: one_list(ex, get(ex, p, "parameters"), [tr(i) for i in params], L_ + "the parameters are those written")
            one_list(ex, get(ex, p, "operands"), [tr(i) for i in ops], L_ + "the operands are those written, in order")
            located(ex, V.this, p, V.tok(acc), L_)
        visitor(v, name, check)
    nongate("visitMeasureInstruction", "MEASURE", None, (0, 1))
    for n in ("Reset", "Init", "Barrier"): nongate("visit%sInstruction" % n, n.upper(), (), (None,))
    nongate("visitWaitInstruction", "WAIT", (0,), (1,))
    def raw(ex, unit, d, this, args):
        """remove_triple_quotes (C02): the text between the quotes"""
        s = ex.as_seq(ex.rv(args[0])); b = whole(s)
        return ex.sym_string("inside " + b.name, tuple(b.args))
    saved = v.contracts
    v.contracts = dict(saved, **{"cqasm::utils::remove_triple_quotes": raw})
    def asm(ex, V, r, L_):
        p = value(ex, r, "Statement", L_)
        isa(ex, p, "AsmDeclaration", L_)
        named(ex, get(ex, p, "backend_name"), "Identifier", text_at(ex, "IDENTIFIER"), L_ + "the backend is the one written")
        ex.prove_seq_eq(ex.as_seq(ex.rv(get(ex, p, "backend_code"))), ex.sym_string("inside text of ctx.RAW_TEXT_STRING"), L_ + "the code is the text between the triple quotes")
    visitor(v, "visitAsmDeclaration", asm)
    v.contracts = saved
    def choice(name, *alts):
        def check(ex, V, r, L_):
            p = value(ex, r, "Statement", L_)
            for i, (acc, cls) in enumerate(alts):
                if i == len(alts) - 1 or ex.branch(eq(which(ex, SymRef(V.cls, "ctx", ())), i)): return same(ex, p, V.tree(ex, acc, cls), L_ + "yields the statement written")
        visitor(v, name, check)
    choice("visitInstruction", ("gateInstruction", "GateInstruction"), ("nonGateInstruction", "NonGateInstruction"), ("asmDeclaration", "AsmDeclaration"))
    choice("visitGlobalBlockStatement", ("variableDefinition", "VariableDefinition"), ("instruction", "Instruction"))
    def var(ex, V, r, L_):
        p = value(ex, r, "Statement", L_)
        isa(ex, p, "Variable", L_)
        named(ex, get(ex, p, "name"), "Identifier", text_at(ex, "IDENTIFIER"), L_ + "the name is the one written")
        same(ex, get(ex, p, "typ"), V.tree(ex, "type", "Type"), L_ + "the type is the one written")
        located(ex, V.this, p, V.tok("IDENTIFIER"), L_)
    visitor(v, "visitVariableDefinition", var)

def types_(v):
    def typ(name, acc, word):
        bracket = SymRef(TOKEN, "token of ctx.arraySizeDeclaration.CLOSE_BRACKET", ())
        def pre(ex, V):
            """the bracket is behind the type"""
            l0, _, _, c0 = token_loc(ex, V.tok(acc)); l1, c1, _, c2 = token_loc(ex, bracket)
            ex.assume(Or(lt(l0, l1), And(eq(l0, l1), le(c0, c1))))
            st = lambda t, w: ex.sym_int(w + " of " + t.name, (), 0, U32 >> 2)
            for t in (V.tok(acc), bracket): ex.assume(le(st(t, "start"), st(t, "stop")))
        def check(ex, V, r, L_):
            p = value(ex, r, "Type", L_)
            isa(ex, p, "Type", L_)
            named(ex, get(ex, p, "name"), "Keyword", Seq.lit(word), L_ + "the name is that of the type")
            s = ex.rv(get(ex, p, "size"))
            if ex.branch(absent(ex, "arraySizeDeclaration")):
                ex.oblige(null(s), L_ + "a type without size has none")
                return located(ex, V.this, p, V.tok(acc), L_)
            same(ex, s, V.tree(ex, "arraySizeDeclaration", "ArraySizeDeclaration"), L_ + "the size is the one written")
            located(ex, V.this, p, V.tok(acc), L_, bracket)
        visitor(v, name, check, extra=pre)
    typ("visitQubitType", "QUBIT_TYPE", "qubit"); typ("visitBitType", "BIT_TYPE", "bit")
    def type_(ex, V, r, L_): same(ex, value(ex, r, "Type", L_), V.tree(ex, "quantumType", "QuantumType"), L_ + "yields the type written")
    visitor(v, "visitType", type_)

def top(v):
    def program(ex, V, r, L_):
        p = value(ex, r, "Program", L_)
        isa(ex, p, "Program", L_)
        same(ex, get(ex, p, "version"), V.tree(ex, "versionSection", "VersionSection"), L_ + "the version is the one written")
        b = ex.rv(get(ex, p, "block"))
        if not ex.branch(absent(ex, "globalBlockSection")): return same(ex, b, V.tree(ex, "globalBlockSection", "GlobalBlockSection"), L_ + "the block is the one written")
        ex.oblige(Not(null(b)), L_ + "has a block")
        if null(b) is not True: ex.oblige(eq(ex.seq_len(vec(ex, get(ex, b, "statements"))), 0), L_ + "a program without statements has an empty block")
    visitor(v, "visitProgram", program)
    saved = without(v, "visitVersionSection")
    def section(ex, V, r, L_): same(ex, value(ex, r, "Version", L_), V.tree(ex, "version", "Version"), L_ + "yields the version written")
    visitor(v, "visitVersionSection", section)
    v.contracts = saved

VERSION_PATTERN = "([0-9]+)(?:\\.([0-9]+))?"
def version_text(ex):
    """the lexer: a version number is a number, or two numbers with a dot between"""
    a, b = ex.sym_string("major"), ex.sym_string("minor")
    ex.assume(And(lt(0, ex.seq_len(a)), lt(0, ex.seq_len(b))))
    return Seq(a.atoms + Seq.lit(".").atoms + b.atoms) if ex.branch(z3.Bool("has minor")) else a
def version_(v):
    """std::regex_match with the pattern of a version number, on the text of a version number: the numbers"""
    SM, MR = "std::sub_match", "std::match_results"
    def regex(ex, unit, d, this, args):
        p = ex.as_seq(ex.rv(args[0]))
        if p.text() != VERSION_PATTERN: raise Unsupported("regular expression %r" % p.text())
        return Obj("std::basic_regex", {})
    def results(ex, unit, d, this, args):
        if args: return NotImplemented
        return Obj(MR, {"#groups": ()})
    def match(ex, unit, d, this, args):
        t = ex.as_seq(ex.rv(args[0])); a, b = ex.sym_string("major"), ex.sym_string("minor")
        two = ex.branch(z3.Bool("has minor"))
        ex.prove_seq_eq(t, version_text(ex), "visitVersion: the text matched is that of the version")
        m = ex.lvof(args[1])
        m.set(ex, Obj(MR, {"#groups": ((t, 0, True), (a, 0, True), (b, add(ex.seq_len(a), 1), two) if two else (Seq(), ex.seq_len(t), False))}))
        return True
    def group(ex, this, i):
        g = this.get(ex).f["#groups"]
        i = cint(i)
        if i is None: raise Unsupported("match group at a variable place")
        return g[i] if i < len(g) else (Seq(), 0, False)
    def at(ex, unit, d, this, args):
        t, pos, ok = group(ex, this, ex.rv(args[0]))
        return ex.temp(Obj(SM, {"matched": ok, "#text": t}), "sub_match")
    def position(ex, unit, d, this, args): return group(ex, this, ex.rv(args[0]))[1]
    def text(ex, unit, d, this, args): return this.get(ex).f["#text"]
    for q in ("std::basic_regex::(ctor)", "std::basic_regex::basic_regex"): v.contracts[q] = regex
    for q in (MR + "::(ctor)", MR + "::match_results"): v.contracts[q] = results
    v.contracts.update({"std::regex_match": match, MR + "::operator[]": at, MR + "::position": position, SM + "::str": text})
    for u in v.prog.units:
        for i, d in u.decls.items():
            if d["k"] == "fn" and (d["q"].startswith(SM + "::operator ") or d["q"].startswith(SM + "::(conv)")): v.contracts[d["q"]] = text
    saved = without(v, "visitVersion")
    def fits(ex, n):
        from engine.lib_std import parse_int
        return le(parse_int(ex, ex.sym_string(n))[1], I64)
    def pre(ex, V):
        from engine.lib_std import parse_int
        for n in ("major", "minor"):
            ok, x = parse_int(ex, ex.sym_string(n)); ex.assume(And(ok, le(0, x)))      # lexer: digits only
    def check(ex, V, r, L_):
        from engine.lib_std import parse_int
        p = value(ex, r, "Version", L_)
        isa(ex, p, "Version", L_)
        s = ex.as_seq(ex.rv(get(ex, p, "items")))
        two = ex.branch(z3.Bool("has minor"))
        ex.oblige(eq(ex.seq_len(s), 2 if two else 1), L_ + "has as many numbers as written")
        for i, n in enumerate(("major", "minor")[:1 + two]):
            ex.oblige(fits(ex, n), L_ + "a number beyond 64 bits is rejected")
            ex.oblige(eq(ex.seq_at(s, i), parse_int(ex, ex.sym_string(n))[1]), L_ + "holds the %s number written" % n)
        located(ex, V.this, p, V.tok("VERSION_NUMBER"), L_)
    def bad(ex, V, at, L_):
        n = lambda w: ex.sym_int(w + " of " + V.tok("VERSION_NUMBER").name, (), 0, U32 >> 2)
        first = ex.branch(Not(fits(ex, "major")))
        if not first: ex.oblige(And(z3.Bool("has minor"), Not(fits(ex, "minor"))), L_ + "is rejected only if a number does not fit")
        off = 0 if first else add(ex.seq_len(ex.sym_string("major")), 1)
        ex.oblige(And(eq(at[0], n("line")), eq(at[1], add(n("column"), off))), L_ + "the error is at the number that does not fit")
    visitor(v, "visitVersion", check, lit=bad, extra=pre)
    v.contracts = saved

def name_given(ex):
    return Opt(z3.Bool("has name"), ex.sym_string("name"))
def name_kept(ex, o, L_):
    """none and an empty one are the same"""
    f = ex.rv(o)
    n = ex.sym_string("name")
    if ex.branch(And(z3.Bool("has name"), lt(0, ex.seq_len(n)))):
        ex.oblige(f.has, L_ + "keeps the file name given")
        if f.has is not False: ex.prove_seq_eq(ex.as_seq(ex.rv(f.v)), n, L_ + "keeps the file name given")
    else: ex.oblige(Not(f.has), L_ + "an empty file name is none")
LISTENER = PA + "::AntlrCustomErrorListener"
def constructors(v):
    from engine.lib_std import L as LIB_
    LIB_.transparent_bases |= {PA + "::CqasmParserVisitor", PA + "::BaseSyntacticAnalyzer", "antlr4::BaseErrorListener", "antlr4::tree::AbstractParseTreeVisitor"}   # have no state
    for cls in (SYN, LISTENER):
        L_ = cls.split("::")[-1] + ": "
        unit, d = v.prog.find(cls + "::(ctor)", lambda u, d: len(d["ps"]) == 1 and "optional" in u.ty(u.strip(d["ps"][0]["t"])).get("s", u.ty(u.strip(d["ps"][0]["t"])).get("n", "")))
        def setup(ex):
            this = ex.temp(Obj(cls, {}))
            return this, [ex.temp(name_given(ex))], this
        def post(ex, r, this): name_kept(ex, ex.field(this.get(ex), "file_name_"), L_)
        v.contract(L_ + "constructor", unit, d, setup, post)

def listener(v):
    """both syntaxError functions: the error raised"""
    saved = v.contracts
    v.contracts = {k: f for k, f in saved.items() if k != LISTENER + "::syntaxError"}
    def error3(ex, unit, d, this, args):
        """Error's constructor from message, file name and range, as proved under C09"""
        return Obj(ERR, {"message_": ex.rv(args[0]), "#name": ex.rv(args[1]), "#range": ex.rv(args[2])}) if len(args) == 3 else error_ctor(ex, unit, d, this, args)
    v.contracts[ERR + "::(ctor)"] = v.contracts[ERR + "::Error"] = error3
    EOF = (1 << 64) - 1
    v.contracts["std::__exception_ptr::exception_ptr::(ctor)"] = lambda ex, unit, d, this, args: Obj("std::__exception_ptr::exception_ptr", {})
    for n in (3, 6):
        unit, d = v.prog.find(LISTENER + "::syntaxError", lambda u, d: len(d["ps"]) == n)
        L_ = "syntaxError(%d): " % n
        def setup(ex):
            this = CellLV(Cell("listener", (), LISTENER))
            line, col, msg = ex.sym_int("line", (), 0, U32 >> 2), ex.sym_int("column", (), 0, U32 >> 2), ex.sym_string("message")
            ex.assume(le(ex.seq_len(text_of(ex, SymRef(TOKEN, "tok", ()))), U32 >> 2))
            sym = ctx_ptr("tok", (), TOKEN, z3.Bool("no token"))
            args = [ex.temp(line), ex.temp(col), ex.temp(msg)]
            if n == 6: args = [ex.temp(NULL), ex.temp(sym)] + args + [ex.temp(NULL)]
            return this, args, (this, line, col, msg)
        def post(ex, r, c): ex.oblige(False, L_ + "raises an error")
        def thr(ex, t, c):
            this, line, col, msg = c
            x = t.v.get(ex)
            ex.oblige(t.cls == ERR and isinstance(x, Obj) and "#range" in x.f, L_ + "raises an error with a place", t.cls)
            if not (isinstance(x, Obj) and "#range" in x.f): return
            ex.prove_seq_eq(ex.as_seq(x.f["message_"]), msg, L_ + "the message is the one given")
            ex.oblige(ex.veq(x.f["#name"], ex.rv(ex.field(this.get(ex), "file_name_"))), L_ + "the file is the one given")
            r = x.f["#range"]
            a, b = (r.a, r.b) if isinstance(r, Pair) else (ex.field(r, "first"), ex.field(r, "last"))
            f = lambda x, k: ex.rv(ex.field(x, k))
            size = 0
            if n == 6:
                typ = ex.sym_int("type of tok", (), 0, SIZE)
                if ex.branch(And(Not(z3.Bool("no token")), Not(eq(typ, EOF)))): size = ex.seq_len(text_of(ex, SymRef(TOKEN, "tok", ())))
            ex.oblige(And(eq(f(a, "line"), line), eq(f(a, "column"), add(col, 1))), L_ + "the place begins at the token, counted from one")
            ex.oblige(And(eq(f(b, "line"), line), eq(f(b, "column"), add(add(col, 1), size))), L_ + "the place ends behind the token; the end of the text has no length")
        v.contract("syntaxError(%d)" % n, unit, d, setup, post, thr)
    v.contracts = saved

BASE, SCAN, PRES = PA + "::BaseSyntacticAnalyzer", PA + "::AntlrScanner", PA + "::ParseResult"
def record(ex, k, *x): ex.store[k + "#0"] = ex.store.get(k + "#0", ()) + (x,)
def recorded(ex, k): return ex.store.get(k + "#0", ())
def at(p): return (p.cell.name, tuple(p.cell.args)) if isinstance(p, Ptr) and p.cell is not None else None
def sym_scanner(ex, cls):
    this = CellLV(Cell("scanner", (), cls))
    for f, c in (("build_visitor_up_", BASE), ("error_listener_up_", LISTENER)): FieldLV(this, f).set(ex, Ptr(Cell("the " + f, (), c), False, c))
    return this
PARSED = "parsed"
def scanners(v):
    """AntlrScanner: lexer, parser and visitor report to the one listener; the tree is the visitor's"""
    LX, TS = PA + "::CqasmLexer", "antlr4::CommonTokenStream"
    L_ = "parse_: "
    WHO = ("the error_listener_up_", ())
    def of_rec(ex, unit, d, args): return Obj(d["q"].rsplit("::", 1)[0], {"#over": at(ex.rv(args[0])), "#listeners": ()})
    def made(ex, unit, d, this, args): return of_rec(ex, unit, d, args)
    def stream(ex, unit, d, this, args): return Obj(TS, {"#over": ex.rv(args[0])})
    def parser_(ex, unit, d, this, args): return Obj(CP, {"#over": ex.rv(args[0]), "#listeners": ("default",)})
    def lexer_(ex, unit, d, this, args): return Obj(LX, {"#over": ex.rv(args[0]), "#listeners": ("default",)})
    def no_listeners(ex, unit, d, this, args):
        o = this.get(ex); this.set(ex, Obj(o.cls, dict(o.f, **{"#listeners": ()}))); from engine.lib_std import VOID; return VOID
    def listener_(ex, unit, d, this, args):
        from engine.lib_std import VOID
        o, l = this.get(ex), at(ex.rv(args[0]))
        if isinstance(o, Obj) and "#listeners" in o.f: this.set(ex, Obj(o.cls, dict(o.f, **{"#listeners": o.f["#listeners"] + (l,)})))
        else: raise Unsupported("listener of %r" % (o,))
        return VOID
    def program(ex, unit, d, this, args):
        p = this.get(ex); ts = ex.load(p.f["#over"].cell); lx = ex.load(ts.f["#over"].cell)
        ex.oblige(p.f["#listeners"] == (WHO,), L_ + "the parser reports its errors to the listener alone", repr(p.f["#listeners"]))
        ex.oblige(lx.f["#listeners"] == (WHO,), L_ + "the lexer reports its errors to the listener alone", repr(lx.f["#listeners"]))
        ex.oblige(at(lx.f["#over"]) == ("input", ()), L_ + "the text read is the one given")
        record(ex, "parses", 1)
        if ex.branch(z3.Bool("syntax error")): raise CxxThrow(ex.temp(SymRef(ERR, "error of ctx.syntax", ()), "exc"), ERR)
        return ctx_ptr("program", (), CP + "::ProgramContext")
    def to_visitor(ex, unit, d, this, args):
        from engine.lib_std import VOID
        record(ex, "listens", at(ex.rv(args[0]))); return VOID
    def visit_program(ex, unit, d, this, args):
        ex.oblige(recorded(ex, "listens")[-1:] == ((WHO,),), L_ + "the visitor reports its errors to the listener")
        return visited(ex, node(ex, ex.rv(args[0])))
    saved = v.contracts
    from engine.lib_std import L as LIB_
    LIB_.transparent_bases |= {"antlr4::Recognizer", "antlr4::Lexer", "antlr4::Parser", "antlr4::standin::LexerBase", "antlr4::standin::ParserBase", "antlr4::ANTLRInputStream"}     # contracts below
    v.contracts = dict(saved, **{LX + "::(ctor)": lexer_, TS + "::(ctor)": stream, CP + "::(ctor)": parser_, "antlr4::Recognizer::removeErrorListeners": no_listeners,
        "antlr4::Recognizer::addErrorListener": listener_, CP + "::program": program, BASE + "::addErrorListener": to_visitor, BASE + "::visitProgram": visit_program,
        PA + "::CqasmParserVisitor::visitProgram": visit_program})
    unit, d = v.prog.find(SCAN + "::parse_")
    def setup(ex):
        this = sym_scanner(ex, SCAN)
        return this, [CellLV(Cell("input", (), "antlr4::ANTLRInputStream"))], this
    def post(ex, r, c):
        o = r.get(ex) if hasattr(r, "get") else r
        ex.oblige(len(recorded(ex, "parses")) == 1, L_ + "parses the text once")
        same(ex, ex.field(o, "root"), sym_ptr(ex, SY + "::Program", "tree of program", (), False), L_ + "the tree is the visitor's")
        ex.oblige(eq(ex.seq_len(vec(ex, ex.field(o, "errors"))), 0), L_ + "a tree comes without errors")
    def thr(ex, t, c):
        x = t.v.get(ex)
        ex.oblige(isinstance(x, SymRef) and x.name in ("error of ctx.syntax", "error of program"), L_ + "fails only if parser or visitor do", repr(x)[:80])
    v.contract("parse_", unit, d, setup, post, thr)
    v.contracts = dict(saved)
    # the two scanners: parse_ of the text given
    def c_parse_(ex, unit, d, this, args):
        o = args[0].get(ex); record(ex, "parse_", o); return SymRef(PRES, PARSED, ())
    def text_stream(ex, unit, d, this, args):
        return Obj("antlr4::ANTLRInputStream", {"#text": ex.as_seq(ex.rv(args[0]))}) if args else Obj("antlr4::ANTLRInputStream", {})
    def file_stream(ex, unit, d, this, args): return Obj("antlr4::ANTLRFileStream", {})
    def load_file(ex, unit, d, this, args):
        from engine.lib_std import VOID
        this.set(ex, Obj("antlr4::ANTLRFileStream", {"#file": ex.as_seq(ex.rv(args[0]))})); return VOID
    v.contracts.update({SCAN + "::parse_": c_parse_, "antlr4::ANTLRInputStream::(ctor)": text_stream, "antlr4::ANTLRFileStream::(ctor)": file_stream, "antlr4::ANTLRFileStream::loadFromFile": load_file})
    for cls, field, k, what in ((PA + "::StringAntlrScanner", "data_", "#text", "text"), (PA + "::FileAntlrScanner", "file_path_", "#file", "file")):
        unit, d = v.prog.find(cls + "::parse")
        def setup(ex): this = sym_scanner(ex, cls); return this, [], this
        def post(ex, r, this):
            n = recorded(ex, "parse_")
            ok = len(n) == 1 and k in n[0][0].f
            ex.oblige(ok, cls.split("::")[-1] + "::parse: parses a %s once" % what)
            if ok: ex.prove_seq_eq(n[0][0].f[k], ex.as_seq(ex.rv(ex.field(this.get(ex), field))), cls.split("::")[-1] + "::parse: parses exactly the %s given" % what)
            o = r.get(ex) if hasattr(r, "get") else r
            o = o.f.get("#sym", o) if isinstance(o, Obj) else o
            ex.oblige(isinstance(o, SymRef) and o.name == PARSED, cls.split("::")[-1] + "::parse: returns what parsing gives", repr(o)[:60])
        v.contract(cls.split("::")[-1] + "::parse", unit, d, setup, post)
    v.contracts = dict(saved)
    def exists(n): return lambda ex, unit, d, this, args: ex.uf(n, (), z3.BoolSort())
    v.contracts.update({"std::filesystem::exists": exists("file exists"), "std::filesystem::is_regular_file": exists("is a regular file"), "std::filesystem::path::(ctor)": lambda ex, unit, d, this, args: Obj("std::filesystem::path", {"#of": ex.rv(args[0])})})
    for cls, field in ((PA + "::StringAntlrScanner", "data_"), (PA + "::FileAntlrScanner", "file_path_")):
        unit, d = v.prog.find(cls + "::(ctor)", lambda u, d: len(d["ps"]) == 3)
        N_ = cls.split("::")[-1] + ": "
        def setup(ex):
            this = ex.temp(Obj(cls, {}))
            a = Ptr(Cell("the visitor", (), BASE), False, BASE); l = Ptr(Cell("the listener", (), LISTENER), False, LISTENER); t = ex.sym_string("text")
            return this, [ex.temp(a), ex.temp(l), ex.temp(t)], (this, t)
        ok = lambda ex: And(exists("file exists")(ex, 0, 0, 0, 0), exists("is a regular file")(ex, 0, 0, 0, 0))
        def post(ex, r, c):
            o = c[0].get(ex)
            ex.oblige(at(ex.rv(ex.field(o, "build_visitor_up_"))) == ("the visitor", ()), N_ + "keeps the visitor given")
            ex.oblige(at(ex.rv(ex.field(o, "error_listener_up_"))) == ("the listener", ()), N_ + "keeps the listener given")
            ex.prove_seq_eq(ex.as_seq(ex.rv(ex.field(o, field))), c[1], N_ + "keeps the text or path given")
            if "File" in cls: ex.oblige(ok(ex), N_ + "a file that cannot be read is an error")
        def thr(ex, t, c):
            ex.oblige("File" in cls and t.cls == ERR, N_ + "fails with a parse error", t.cls)
            if "File" in cls: ex.oblige(Not(ok(ex)), N_ + "fails only for a file that cannot be read")
        v.contract(N_ + "constructor", unit, d, setup, post, thr)
    v.contracts = saved

def parse_helpers(v):
    PH = PA + "::ParseHelper"
    unit, d = v.prog.find(PH + "::parse")
    L_ = "ParseHelper::parse: "
    def scan(ex, unit, d, this, args):
        record(ex, "scan", 1)
        w = ex.sym_int("outcome", (), 0, 2)
        if ex.branch(eq(w, 1)): raise CxxThrow(ex.temp(SymRef(ERR, "error", ()), "exc"), ERR)
        if ex.branch(eq(w, 2)): raise CxxThrow(ex.temp(Obj("std::runtime_error", {"#what": ex.sym_string("what")}), "exc"), "std::runtime_error")
        return Obj(PRES, {"root": Ptr(Cell("root", (), SY + "::Root"), z3.Bool("no root"), SY + "::Root"), "errors": Seq()})
    def what(ex, unit, d, this, args): return CStr(this.get(ex).f["#what"], True)       # a C string: its text ends at the first NUL
    def formed(ex, unit, d, this, args): return And(Not(z3.Bool("no root")), z3.Bool("well formed"))
    saved = v.contracts
    v.contracts = dict(saved, **{"std::runtime_error::what": what, "std::exception::what": what})
    for u in v.prog.units:
        for i, x in u.decls.items():
            if x["k"] == "fn" and x["q"].endswith("::is_well_formed"): v.contracts[x["q"]] = formed
            if x["k"] == "fn" and x["q"].endswith("ScannerAdaptor::parse"): v.contracts[x["q"]] = scan
            if x["k"] == "fn" and x["q"].rsplit("::", 1)[-1] == "operator<<": v.contracts[x["q"]] = lambda ex, unit, d, this, args: args[0]
    def setup(ex):
        this = CellLV(Cell("helper", (), PH))
        FieldLV(this, "scanner_up_").set(ex, Ptr(Cell("scanner", (), PA + "::ScannerAdaptor"), False, PA + "::ScannerAdaptor"))
        return this, [], this
    def post(ex, r, c):
        o = r.get(ex) if hasattr(r, "get") else r
        ex.oblige(len(recorded(ex, "scan")) == 1, L_ + "parses once")
        w = ex.sym_int("outcome", (), 0, 2)
        es = vec(ex, ex.field(o, "errors")); root = ex.rv(ex.field(o, "root"))
        if ex.branch(eq(w, 0)):
            ex.oblige(eq(ex.seq_len(es), 0), L_ + "no errors if parsing raises none")
            ex.oblige(And(Not(z3.Bool("no root")), z3.Bool("well formed")), L_ + "an incomplete tree without errors is not returned")
            ex.oblige(at(root) == ("root", ()), L_ + "the tree is the scanner's")
            return
        ex.oblige(eq(ex.seq_len(es), 1), L_ + "exactly the error raised")
        ex.oblige(null(root), L_ + "an error comes without tree")
        x = ex.seq_at(es, 0)
        if isinstance(x, Obj) and "#sym" in x.f: x = x.f["#sym"]
        if ex.branch(eq(w, 1)): ex.oblige(isinstance(x, SymRef) and x.name == "error", L_ + "reports the error raised", repr(x)[:80])
        else:
            m = ex.sym_string("what")
            want = Seq.lit(PLACEHOLDER) if ex.branch(ex.empty(m)) else m
            ex.prove_seq_eq(ex.as_seq(ex.rv(ex.field(x, "message_"))), want, L_ + "reports what was raised")
    def thr(ex, t, c):
        ex.oblige(And(eq(ex.sym_int("outcome", (), 0, 2), 0), Or(z3.Bool("no root"), Not(z3.Bool("well formed")))), L_ + "fails only for an incomplete tree without errors", t.cls)
    v.contract("ParseHelper::parse", unit, d, setup, post, thr)
    v.contracts = dict(saved)
    # the entry points: scanner, visitor and listener for what is given
    def keep(cls):
        def ctor(ex, unit, d, this, args): return Obj(cls, {"#args": tuple(ex.rv(a) for a in args)})
        return ctor
    def helper(ex, unit, d, this, args): return Obj(PH, {"#scanner": ex.rv(args[0])})
    def run_(ex, unit, d, this, args): record(ex, "run", this.get(ex)); return SymRef(PRES, PARSED, ())
    v.contracts.update({PH + "::(ctor)": helper, PH + "::parse": run_})
    for cls in (SYN, LISTENER, PA + "::StringAntlrScanner", PA + "::FileAntlrScanner"): v.contracts[cls + "::(ctor)"] = keep(cls)
    def nm(ex, x): return ex.as_seq(ex.rv(x.v)) if ex.branch(x.has) else Seq()
    for fn, cls in (("parse_string", "StringAntlrScanner"), ("parse_file", "FileAntlrScanner")):
        unit, d = v.prog.find(PA + "::" + fn)
        F_ = fn + ": "
        def setup(ex):
            t, n = ex.sym_string("text"), name_given(ex)
            return None, [ex.temp(t), ex.temp(n)], (t, n)
        def post(ex, r, c):
            o = r.get(ex) if hasattr(r, "get") else r
            o = o.f.get("#sym", o) if isinstance(o, Obj) else o
            ex.oblige(isinstance(o, SymRef) and o.name == PARSED, F_ + "returns what parsing gives")
            n = recorded(ex, "run")
            ex.oblige(len(n) == 1, F_ + "parses once")
            if len(n) != 1: return
            s = ex.load(n[0][0].f["#scanner"].cell)
            ex.oblige(s.cls == PA + "::" + cls, F_ + "reads what it is given", s.cls)
            if s.cls != PA + "::" + cls: return
            vis, lis, text = s.f["#args"]
            ex.prove_seq_eq(ex.as_seq(text), c[0], F_ + "parses exactly what it is given")
            for p, k, w in ((vis, SYN, "visitor"), (lis, LISTENER, "listener")):
                x = ex.load(p.cell)
                ex.oblige(x.cls == k, F_ + "uses the %s" % w, x.cls)
                if x.cls == k: ex.prove_seq_eq(nm(ex, x.f["#args"][0]), nm(ex, c[1]), F_ + "the %s has the file name given" % w)
        v.contract(fn, unit, d, setup, post)
    v.contracts = saved
