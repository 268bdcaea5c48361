"""The grammar files (C24).  ANTLR turns CqasmLexer.g4 and CqasmParser.g4 into the lexer and parser; its documented rules say what they
recognise: the longest match, the first rule among equals, the shortest text for a non-greedy loop, a new mode after pushMode; an
alternative of `expression` binds tighter than the ones after it, to the left unless marked <assoc=right>.  With those rules (assumed)
each token's language and each operator's precedence is a closed statement over the current grammar files, decided by z3's theory of
regular languages: for all texts, without a bound."""
import os, sys, time
import z3
from engine.unit import REPO, VERIF, ExtractError
from engine.core import Unsupported
sys.path.insert(0, os.path.join(VERIF, "tools"))
import gen_antlr as G

S = z3.StringSort(); R = z3.ReSort(S)
ANY, NONE = z3.AllChar(R), z3.Empty(R)
def ch(n): return z3.Re(z3.StringVal("\\u{%x}" % n))
def alt(xs): return NONE if not xs else xs[0] if len(xs) == 1 else z3.Union(*xs)
def seq(xs): return z3.Re(z3.StringVal("")) if not xs else xs[0] if len(xs) == 1 else z3.Concat(*xs)
def lit(t): return seq([ch(ord(c)) for c in t])
def minus(a, b): return z3.Intersect(a, z3.Complement(b))
ALL = z3.Star(ANY)

def show(t):
    """z3's string syntax to characters"""
    out, i = "", 0
    while i < len(t):
        if t.startswith("\\u{", i): j = t.index("}", i); out += chr(int(t[i + 3:j], 16)); i = j + 1
        else: out += t[i]; i += 1
    return out

class Same:
    """equality of two regular languages"""
    def __init__(self, v): self.v = v
    def __call__(self, got, want, label, word=lambda t: repr(t)):
        v = self.v
        s = z3.String("text")
        so = z3.Solver(); so.set("timeout", v.timeout * 2)
        so.add(z3.InRe(s, z3.Union(minus(got, want), minus(want, got))))
        t0 = time.time(); r = so.check()
        v.rep.solver_s += time.time() - t0; v.rep.queries += 1
        ent = v.rep.oblig.setdefault(label, [0, 0, 0])
        if r == z3.unsat: ent[0] += 1; return
        hints, det, st = {}, str(got)[:200], "unknown"
        if r == z3.sat:
            t = show(so.model().eval(s, True).as_string()); st = "failed"
            det = "%s: the grammar and the language disagree on it" % word(t)
            hints = {"text": [ord(c) & 255 for c in t]}
        ent[1 if st == "failed" else 2] += 1
        v.rep.failures.append(dict(label=label, status=st, detail=det, model={}, hints=hints, path=[], where=None))

# ---- tokens ---------------------------------------------------------------------------------------
D = z3.Range("0", "9")
LETTER = z3.Union(z3.Range("a", "z"), z3.Range("A", "Z"), lit("_"))
EXP = z3.Option(seq([z3.Union(lit("e"), lit("E")), z3.Option(z3.Union(lit("+"), lit("-"))), z3.Plus(D)]))
def first(open_, close): return seq([lit(open_), minus(seq([ALL, lit(close)]), seq([ALL, lit(close), z3.Plus(ANY)]))])
BLANK = z3.Plus(z3.Union(lit(" "), lit("\t")))
KEYWORDS = dict(VERSION="version", MEASURE="measure", RESET="reset", INIT="init", BARRIER="barrier", WAIT="wait", INV="inv", POW="pow", CTRL="ctrl", QUBIT_TYPE="qubit", BIT_TYPE="bit", ASM="asm")
FIXED = dict(KEYWORDS, SEMICOLON=";", COLON=":", COMMA=",", DOT=".", EQUALS="=", OPEN_BRACKET="[", CLOSE_BRACKET="]", OPEN_PARENS="(", CLOSE_PARENS=")", PLUS="+", MINUS="-",
             BITWISE_NOT_OP="~", LOGICAL_NOT_OP="!", POWER_OP="**", PRODUCT_OP="*", DIVISION_OP="/", MODULO_OP="%", SHL_OP="<<", SHR_OP=">>", CMP_GT_OP=">", CMP_LT_OP="<",
             CMP_GE_OP=">=", CMP_LE_OP="<=", CMP_EQ_OP="==", CMP_NE_OP="!=", BITWISE_AND_OP="&", BITWISE_XOR_OP="^", BITWISE_OR_OP="|", LOGICAL_AND_OP="&&", LOGICAL_XOR_OP="^^",
             LOGICAL_OR_OP="||", TERNARY_CONDITIONAL_OP="?", TRIPLE_QUOTE="'''")
TOKENS = {n: lit(t) for n, t in FIXED.items()}
TOKENS.update(NEW_LINE=z3.Union(lit("\n"), lit("\r\n")), BOOLEAN_LITERAL=z3.Union(lit("true"), lit("false")), INTEGER_LITERAL=z3.Plus(D),
              FLOAT_LITERAL=seq([z3.Union(seq([z3.Plus(D), lit("."), z3.Star(D)]), seq([lit("."), z3.Plus(D)])), EXP]),
              IDENTIFIER=minus(seq([LETTER, z3.Star(z3.Union(LETTER, D))]), alt([lit(t) for t in list(KEYWORDS.values()) + ["true", "false"]])),
              RAW_TEXT_STRING=first("'''", "'''"))
SKIPPED = z3.Union(BLANK, seq([lit("//"), z3.Star(minus(ANY, z3.Union(lit("\r"), lit("\n"))))]), first("/*", "*/"))
VERSION_MODE = dict(VERSION_NUMBER=seq([z3.Plus(D), z3.Option(seq([lit("."), z3.Plus(D)]))]))

def lexer_languages(rules):
    by = {r[0]: r[3] for r in rules}
    def flat(es):
        out = []
        for e in es:
            alts = by.get(e[1]) if e[0] == "ref" else e[1] if e[0] == "grp" else None
            if alts is not None and len(alts) == 1: out += flat(alts[0]["seq"])
            elif e[0] == "rep" and e[2][0] == "grp" and len(e[2][1]) == 1 and len(e[2][1][0]["seq"]) == 1: out += flat([("rep", e[1], e[2][1][0]["seq"][0])])
            else: out.append(e)
        return out
    def one(e):
        k = e[0]
        if k == "lit": return lit(G.unq(e[1]))
        if k == "set":
            r = alt([z3.Range(z3.StringVal("\\u{%x}" % a), z3.StringVal("\\u{%x}" % b)) for a, b in G.setchars(e[1])])
            return minus(ANY, r) if e[2] else r
        if k == "any": return ANY
        if k == "ref":
            if e[1] not in by: raise Unsupported("lexer rule " + e[1])
            return lang(by[e[1]])
        if k == "grp": return lang(e[1])
        if e[1] == "*?": raise Unsupported("non-greedy loop inside a loop or alternative")
        x = one(e[2])
        return z3.Option(x) if e[1] == "?" else z3.Plus(x) if e[1] == "+" else z3.Star(x)
    def items(es):
        for i, e in enumerate(es):
            if e[0] == "rep" and e[1] == "*?":
                rest, x = items(es[i + 1:]), z3.Star(one(e[2]))
                body = seq([x, rest])
                return seq([one(y) for y in es[:i]] + [minus(body, seq([body, z3.Plus(ANY)]))])
        return seq([one(y) for y in es])
    def lang(alts): return alt([items(flat(a["seq"])) for a in alts])
    return lang

def tokens(v):
    same = Same(v)
    rules = G.lexer(open(os.path.join(REPO, "src/v3x/CqasmLexer.g4")).read())
    lang = lexer_languages(rules)
    cmd = lambda r: {c: a for x in r[3] for c, a in x["cmds"]}
    def mode(name, want, skipped, what):
        seen, skip, effective = [], [], {}
        for r in rules:
            if r[1] or r[2] != name: continue
            l = lang(r[3])
            e = minus(l, alt(seen)) if seen else l
            seen.append(l)
            if "skip" in cmd(r): skip.append(e); continue
            effective[r[0]] = e
        for n, w in want.items():
            if n not in effective: v.expect(False, "%s is a token" % n, "no rule %s in %s" % (n, what)); continue
            same(effective[n], w, "token %s: exactly the texts the language gives it" % n)
        same(alt(skip), skipped, "skipped%s: exactly blanks and comments" % ("" if name == "DEFAULT_MODE" else " in a version statement"))
        for n in effective:
            if n not in want: same(effective[n], NONE, "%s is not a token of the language" % n)
    mode("DEFAULT_MODE", TOKENS, SKIPPED, "the lexer")
    mode("VERSION_STATEMENT", VERSION_MODE, BLANK, "a version statement")
    for r in rules:
        if r[1]: continue
        c = {k: a for k, a in cmd(r).items() if k != "skip"}
        want = {"VERSION": {"pushMode": "VERSION_STATEMENT"}, "VERSION_NUMBER": {"popMode": None}}.get(r[0], {})
        v.expect(c == want, "modes: only the keyword version begins a version statement, only its number ends it", "%s: %s" % (r[0], c))

# ---- rules ----------------------------------------------------------------------------------------
RULES = {   # context: its parts in source order
 "Program": "versionSection globalBlockSection? eofSection", "VersionSection": "statementSeparator* version", "GlobalBlockSection": "(statementSeparator+ globalBlockStatement)+",
 "EofSection": "statementSeparator* EOF", "StatementSeparator": "NEW_LINE | SEMICOLON", "Version": "VERSION VERSION_NUMBER", "GlobalBlockStatement": "variableDefinition | instruction",
 "VariableDefinition": "type IDENTIFIER", "Instruction": "gateInstruction | nonGateInstruction | asmDeclaration", "GateInstruction": "gate expressionList",
 "InvGate": "INV DOT gate", "PowGate": "POW OPEN_PARENS expression CLOSE_PARENS DOT gate", "CtrlGate": "CTRL DOT gate", "NamedGate": "IDENTIFIER (OPEN_PARENS expressionList CLOSE_PARENS)?",
 "MeasureInstruction": "expression EQUALS MEASURE (OPEN_PARENS expressionList CLOSE_PARENS)? expression", "ResetInstruction": "RESET expression", "InitInstruction": "INIT expression",
 "BarrierInstruction": "BARRIER expression", "WaitInstruction": "WAIT OPEN_PARENS expression CLOSE_PARENS expression", "AsmDeclaration": "ASM OPEN_PARENS IDENTIFIER CLOSE_PARENS RAW_TEXT_STRING",
 "Type": "quantumType", "QubitType": "QUBIT_TYPE arraySizeDeclaration?", "BitType": "BIT_TYPE arraySizeDeclaration?", "ArraySizeDeclaration": "OPEN_BRACKET INTEGER_LITERAL CLOSE_BRACKET",
 "ExpressionList": "expression (COMMA expression)*", "IndexList": "indexEntry (COMMA indexEntry)*", "IndexItem": "expression", "IndexRange": "expression COLON expression",
 "ParensExpression": "OPEN_PARENS expression CLOSE_PARENS", "FunctionCall": "IDENTIFIER OPEN_PARENS expressionList? CLOSE_PARENS", "Index": "IDENTIFIER OPEN_BRACKET indexList CLOSE_BRACKET",
 "Identifier": "IDENTIFIER", "BooleanLiteral": "BOOLEAN_LITERAL", "IntegerLiteral": "INTEGER_LITERAL", "FloatLiteral": "FLOAT_LITERAL"}
MEMBERS = {"gate": ("InvGate", "PowGate", "CtrlGate", "NamedGate"), "nonGateInstruction": ("MeasureInstruction", "ResetInstruction", "InitInstruction", "BarrierInstruction", "WaitInstruction"),
           "quantumType": ("QubitType", "BitType"), "indexEntry": ("IndexItem", "IndexRange")}
LEVELS = [   # tightest first: fixity, operators, context, associativity
 ("prefix", ("PLUS", "MINUS"), "UnaryPlusMinusExpression", None), ("prefix", ("BITWISE_NOT_OP",), "BitwiseNotExpression", None), ("prefix", ("LOGICAL_NOT_OP",), "LogicalNotExpression", None),
 ("infix", ("POWER_OP",), "PowerExpression", "right"), ("infix", ("PRODUCT_OP", "DIVISION_OP", "MODULO_OP"), "ProductExpression", "left"), ("infix", ("PLUS", "MINUS"), "AdditionExpression", "left"),
 ("infix", ("SHL_OP", "SHR_OP"), "ShiftExpression", "left"), ("infix", ("CMP_GT_OP", "CMP_LT_OP", "CMP_GE_OP", "CMP_LE_OP"), "ComparisonExpression", "left"),
 ("infix", ("CMP_EQ_OP", "CMP_NE_OP"), "EqualityExpression", "left"), ("infix", ("BITWISE_AND_OP",), "BitwiseAndExpression", "left"), ("infix", ("BITWISE_XOR_OP",), "BitwiseXorExpression", "left"),
 ("infix", ("BITWISE_OR_OP",), "BitwiseOrExpression", "left"), ("infix", ("LOGICAL_AND_OP",), "LogicalAndExpression", "left"), ("infix", ("LOGICAL_XOR_OP",), "LogicalXorExpression", "left"),
 ("infix", ("LOGICAL_OR_OP",), "LogicalOrExpression", "left"), ("infix", ("TERNARY_CONDITIONAL_OP",), "TernaryConditionalExpression", "right")]

def rules(v):
    same = Same(v)
    rs = G.parser(open(os.path.join(REPO, "src/v3x/CqasmParser.g4")).read())
    by = dict(rs)
    names = []
    def symbol(n):
        if n not in names: names.append(n)
        return ch(0x4e00 + names.index(n))
    word = lambda t: " ".join(names[ord(c) - 0x4e00] if 0 <= ord(c) - 0x4e00 < len(names) else "?" for c in t)
    known = set(G.cap(n) for n in by) | {"Expression"}
    spec_rules = {n[0].lower() + n[1:] for n in RULES} | set(MEMBERS) | {"expression"}
    def one(e, busy=()):
        k = e[0]
        if k == "ref":
            if e[1] in by and e[1] not in spec_rules:            # a rule of its own, without a context the tree is built from
                if e[1] in busy: raise Unsupported("recursive rule " + e[1])
                return lang(by[e[1]], busy + (e[1],))
            return symbol(e[1])
        if k == "grp": return lang(e[1], busy)
        if k == "rep":
            x = one(e[2], busy)
            return z3.Option(x) if e[1] == "?" else z3.Plus(x) if e[1] == "+" else z3.Star(x)
        raise Unsupported("literal in a parser rule")
    def lang(alts, busy=()): return alt([seq([one(e, busy) for e in a["seq"]]) for a in alts])
    contexts, owner, order = {}, {}, {}
    for n, alts in rs:
        for i, a in enumerate(alts):
            c = G.cap(a["label"] or n)
            contexts.setdefault(c, []).append(a); owner.setdefault(c, set()).add(n); order.setdefault(c, i)
    for c, text in RULES.items():
        label = "rule %s: its parts, in this order" % c
        if c not in contexts: v.expect(False, label, "no such context"); continue
        want = lang(G.P(G.tokens(text)).alts())
        same(lang(contexts[c]), want, label, word)
    for n, cs in MEMBERS.items():
        v.expect(n in by and {G.cap(a["label"] or n) for a in by[n]} == set(cs), "rule %s: its alternatives" % n, str([a["label"] for a in by.get(n, [])]))
    # operators: level = first alternative it appears in
    if "expression" not in by: v.expect(False, "rule expression: its alternatives", "no such rule"); return
    table, primary = {}, set()
    E = ("ref", "expression")
    def ops(e):
        if e[0] == "ref": return [e[1]]
        if e[0] == "grp" and all(len(a["seq"]) == 1 for a in e[1]): return [o for a in e[1] for o in ops(a["seq"][0])]
        raise Unsupported("operator of an expression: %r" % (e,))
    for i, a in enumerate(by["expression"]):
        s, c = a["seq"], G.cap(a["label"] or "expression")
        if len(s) == 3 and s[0] == E and s[2] == E: k = [("infix", o) for o in ops(s[1])]
        elif len(s) == 5 and s[0] == s[2] == s[4] == E and s[3] == ("ref", "COLON"): k = [("infix", o) for o in ops(s[1])]
        elif len(s) == 2 and s[1] == E: k = [("prefix", o) for o in ops(s[0])]
        elif E in (s[0], s[-1]): raise Unsupported("form of expression " + c)
        else: primary.add(c); continue
        for key in k:
            if key in table: raise Unsupported("operator twice: %s" % (key,))
            table[key] = (i, None if key[0] == "prefix" else "right" if a["right"] else "left", c, len(s))
    v.expect(primary == {c for c in RULES if c in ("ParensExpression", "FunctionCall", "Index", "Identifier", "BooleanLiteral", "IntegerLiteral", "FloatLiteral")}, "expression: the forms that are not operators", str(sorted(primary)))
    flat = [((f, o), l, c, a) for l, (f, os_, c, a) in enumerate(LEVELS) for o in os_]
    v.expect(set(table) == {k for k, _, _, _ in flat}, "expression: the operators", str(set(table) ^ {k for k, _, _, _ in flat}))
    for k, l, c, a in flat:
        if k not in table: continue
        i, ga, gc, n = table[k]
        v.expect(gc == c and n == (5 if k[1] == "TERNARY_CONDITIONAL_OP" else 2 if k[0] == "prefix" else 3), "operator %s %s: its expression and operands" % k, gc)
        v.expect(ga == a, "operator %s %s: associates to the %s" % (k + (a,)) if a else "operator %s %s: prefix" % k, str(ga))
        for k2, l2, _, _ in flat:
            if k2 not in table or k2 <= k: continue
            j = table[k2][0]
            v.expect((i < j) == (l < l2) and (i == j) == (l == l2), "precedence: every pair of operators binds as the language says", "%s %s and %s %s" % (k + k2))

def grammar(v):
    for f in (tokens, rules):
        try: f(v)
        except Unsupported as u: v.rep.unsupported.append(dict(contract="grammar: " + f.__name__, why=str(u)[:300]))
        except (AssertionError, SystemExit, OSError, IndexError, KeyError) as u: v.rep.unsupported.append(dict(contract="grammar: " + f.__name__, why="not read: %s %s" % (type(u).__name__, str(u)[:200])))
