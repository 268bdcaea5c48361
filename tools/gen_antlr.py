#!/usr/bin/env python3
"""Stand-in for the ANTLR tool: reads /repo's CqasmLexer.g4 and CqasmParser.g4 and generates the token
constants, contexts, visitor interface, lexer and a backtracking parser that the sources need.
usage: gen_antlr.py <repo>/src/v3x <outdir>"""
import re, sys, os

def strip(t): 
    out, i = "", 0
    while i < len(t):
        if t[i] == "'":
            j = i + 1
            while t[j] != "'": j += 2 if t[j] == "\\" else 1
            out += t[i:j + 1]; i = j + 1
        elif t[i] == "[":
            j = i + 1
            while t[j] != "]": j += 2 if t[j] == "\\" else 1
            out += t[i:j + 1]; i = j + 1
        elif t.startswith("//", i):
            while i < len(t) and t[i] != "\n": i += 1
        elif t.startswith("/*", i): i = t.index("*/", i) + 2; out += " "
        else: out += t[i]; i += 1
    return out

TOK = re.compile(r"\s*('(?:\\.|[^'\\])*'|\[(?:\\.|[^\]\\])*\]|->|<assoc=right>|[A-Za-z_][A-Za-z_0-9]*|\*\?|[#|();:?*+~.,{}=])")
def tokens(t):
    p, out = 0, []
    while p < len(t):
        m = TOK.match(t, p)
        if not m:
            if t[p:].strip() == "": break
            raise SystemExit("g4: " + t[p:p + 40])
        out.append(m.group(1)); p = m.end()
    return out

class P:
    def __init__(self, ts): self.t, self.p = ts, 0
    def peek(self): return self.t[self.p] if self.p < len(self.t) else None
    def next(self): self.p += 1; return self.t[self.p - 1]
    def alts(self):
        r = [self.alt()]
        while self.peek() == "|": self.next(); r.append(self.alt())
        return r
    def alt(self):
        seq, label, right, cmds = [], None, False, []
        while self.peek() not in ("|", ")", ";", None):
            x = self.peek()
            if x == "#": self.next(); label = self.next(); continue
            if x == "<assoc=right>": self.next(); right = True; continue
            if x == "->":
                self.next()
                while True:
                    c = self.next(); a = None
                    if self.peek() == "(": self.next(); a = self.next(); self.next()
                    cmds.append((c, a))
                    if self.peek() == ",": self.next(); continue
                    break
                continue
            seq.append(self.elem())
        return dict(seq=seq, label=label, right=right, cmds=cmds)
    def elem(self):
        neg = False
        if self.peek() == "~": self.next(); neg = True
        x = self.next()
        if x == "(":
            e = ("grp", self.alts()); assert self.next() == ")"
        elif x[0] == "'": e = ("lit", x[1:-1])
        elif x[0] == "[": e = ("set", x[1:-1], neg)
        elif x == ".": e = ("any",)
        else: e = ("ref", x)
        s = self.peek()
        if s in ("?", "*", "+", "*?"):
            self.next()
            if s == "*" and self.peek() == "?": self.next(); s = "*?"
            e = ("rep", s, e)
        return e

def esc(c):
    return {"n": "\n", "r": "\r", "t": "\t"}.get(c, c)
def unq(s):
    out, i = "", 0
    while i < len(s):
        if s[i] == "\\": out += esc(s[i + 1]); i += 2
        else: out += s[i]; i += 1
    return out
def setchars(s):
    cs, i = [], 0
    def one():
        nonlocal i
        if s[i] == "\\": c = esc(s[i + 1]); i += 2
        else: c = s[i]; i += 1
        return c
    r = []
    while i < len(s):
        a = one()
        if i < len(s) - 1 and s[i] == "-":
            i += 1; b = one(); r.append((ord(a), ord(b)))
        else: r.append((ord(a), ord(a)))
    return r

def cstr(s): return '"' + "".join("\\%03o" % b for b in s.encode("utf-8")) + '"'

def lexer(text):
    ts = tokens(strip(text))
    p = P(ts); rules = []; mode = "DEFAULT_MODE"
    while p.peek() is not None:
        x = p.next()
        if x == "lexer": p.next(); p.next(); p.next(); continue
        if x == "mode": mode = p.next(); p.next(); continue
        frag = x == "fragment"
        if frag: x = p.next()
        assert p.next() == ":"
        a = p.alts(); assert p.next() == ";"
        rules.append((x, frag, mode, a))
    return rules

def rx(alts, rules):
    """C++ expression building a matcher"""
    def el(e):
        if e[0] == "lit": return "lit(%s)" % cstr(unq(e[1]))
        if e[0] == "set": return "set({%s}, %s)" % (", ".join("{%d,%d}" % r for r in setchars(e[1])), "true" if e[2] else "false")
        if e[0] == "any": return "set({}, true)"
        if e[0] == "ref": return rx(rules[e[1]], rules)
        if e[0] == "grp": return rx(e[1], rules)
        if e[0] == "rep": return "rep(%s, '%s')" % (el(e[2]), {"?": "?", "*": "*", "+": "+", "*?": "l"}[e[1]])
    ss = ["seq({%s})" % ", ".join(el(e) for e in a["seq"]) for a in alts]
    return ss[0] if len(ss) == 1 else "alt({%s})" % ", ".join(ss)

def lazy(alts, rules):
    """whether a token has a non-greedy part (it then ends at the first way through)"""
    def el(e): return e[0] == "rep" and (e[1] == "*?" or el(e[2])) or e[0] == "ref" and lazy(rules[e[1]], rules) or e[0] == "grp" and lazy(e[1], rules)
    return any(el(e) for a in alts for e in a["seq"])

def parser(text):
    text = re.sub(r"options\s*\{[^}]*\}", "", strip(text))
    ts = tokens(text); p = P(ts); rules = []
    while p.peek() is not None:
        x = p.next()
        if x == "parser": p.next(); p.next(); p.next(); continue
        assert p.next() == ":", x
        a = p.alts(); assert p.next() == ";"
        rules.append((x, a))
    return rules

def cap(s): return s[0].upper() + s[1:]
def counts(seq):
    """name -> 1 (at most once) or 2 (maybe many)"""
    c = {}
    for e in seq:
        if e[0] == "ref": d = {e[1]: 1}
        elif e[0] == "grp":
            d = {}
            for a in e[1]:
                for k, v in counts(a["seq"]).items(): d[k] = max(d.get(k, 0), v)
        elif e[0] == "rep":
            d = counts([e[2]])
            if e[1] != "?": d = {k: 2 for k in d}
        else: d = {}
        for k, v in d.items(): c[k] = min(2, c.get(k, 0) + v)
    return c

def main(src, out):
    lr = lexer(open(os.path.join(src, "CqasmLexer.g4")).read())
    pr = parser(open(os.path.join(src, "CqasmParser.g4")).read())
    names = [r[0] for r in lr if not r[1]]
    num = {n: i + 1 for i, n in enumerate(names)}
    byname = {r[0]: r[3] for r in lr}
    modes = []
    for r in lr:
        if r[2] not in modes: modes.append(r[2])
    enum = "enum { %s };" % ", ".join("%s = %d" % (n, num[n]) for n in names)
    L = ["// generated by /verif/tools/gen_antlr.py", "#pragma once", "#include \"antlr4-runtime.h\"", "#include \"antlr4-lexer.h\""]
    L.append("class CqasmLexer : public antlr4::standin::LexerBase {\npublic:\n    %s" % enum)
    L.append("    explicit CqasmLexer(antlr4::ANTLRInputStream* is) : antlr4::standin::LexerBase{ is } {\n        using namespace antlr4::standin;")
    for n, frag, mode, a in lr:
        if frag: continue
        cmds = [c for x in a for c in x["cmds"]]
        skip = any(c[0] == "skip" for c in cmds)
        push = next((modes.index(c[1]) for c in cmds if c[0] == "pushMode"), -1)
        pop = any(c[0] == "popMode" for c in cmds)
        L.append("        add(%d, %d, %s, %d, %s, %s);" % (modes.index(mode), num[n], "true" if skip else "false", push, "true" if pop else "false", rx(a, byname) + (", false" if lazy(a, byname) else "")))
    L.append("    }\n};")
    lit = {}
    for n, frag, mode, a in lr:
        if not frag and len(a) == 1 and len(a[0]["seq"]) == 1 and a[0]["seq"][0][0] == "lit": lit[n] = unq(a[0]["seq"][0][1])
    # parser
    H = ["// generated by /verif/tools/gen_antlr.py", "#pragma once", "#include \"antlr4-runtime.h\"", "#include \"antlr4-lexer.h\"", "#include \"antlr4-parser.h\"",
         "class CqasmParserVisitor;", "class CqasmParser : public antlr4::standin::ParserBase {\npublic:\n    %s" % enum,
         "    enum { %s };" % ", ".join("Rule%s = %d" % (cap(n), i) for i, (n, _) in enumerate(pr)),
         "    explicit CqasmParser(antlr4::CommonTokenStream* ts);"]
    for n, _ in pr: H.append("    class %sContext;" % cap(n))
    vis = []
    def members(c, rn):
        out = []
        for k, v in c.items():
            if k == "EOF":
                out.append("        antlr4::tree::TerminalNode* EOF();"); continue
            t = "%sContext" % cap(k) if k[0].islower() else "antlr4::tree::TerminalNode"
            if v == 1: out.append("        %s* %s();" % (t, k))
            else: out.append("        std::vector<%s*> %s();\n        %s* %s(size_t i);" % (t, k, t, k))
        return "\n".join(out)
    impl = []
    def mimpl(cls, c):
        for k, v in c.items():
            if k == "EOF":
                impl.append("inline antlr4::tree::TerminalNode* CqasmParser::%s::EOF() { return antlr4::standin::token(*this, antlr4::Token::EOF, 0); }" % cls); continue
            if k[0].islower():
                t = "CqasmParser::%sContext" % cap(k)
                f = lambda i: "antlr4::standin::child<%s>(*this, %s)" % (t, i)
                fa = "antlr4::standin::childAll<%s>(*this)" % t
            else:
                t = "antlr4::tree::TerminalNode"
                f = lambda i: "antlr4::standin::token(*this, %d, %s)" % (num[k], i)
                fa = "antlr4::standin::tokenAll(*this, %d)" % num[k]
            if v == 1: impl.append("inline %s* CqasmParser::%s::%s() { return %s; }" % (t, cls, k, f("0")))
            else:
                impl.append("inline std::vector<%s*> CqasmParser::%s::%s() { return %s; }" % (t, cls, k, fa))
                impl.append("inline %s* CqasmParser::%s::%s(size_t i) { return %s; }" % (t, cls, k, f("i")))
    make = []
    for n, alts in pr:
        c = "%sContext" % cap(n)
        labelled = alts[0]["label"] is not None
        if not labelled:
            cc = {}
            for a in alts:
                for k, v in counts(a["seq"]).items(): cc[k] = max(cc.get(k, 0), v)
            H.append("    class %s : public antlr4::ParserRuleContext {\n    public:\n%s\n        std::any accept(antlr4::tree::ParseTreeVisitor* visitor) override;\n    };" % (c, members(cc, n)))
            mimpl(c, cc); vis.append(cap(n))
            make.append([c] * len(alts))
        else:
            H.append("    class %s : public antlr4::ParserRuleContext {};" % c)
            labs = []
            for a in alts:
                lc = "%sContext" % cap(a["label"])
                labs.append(lc)
                cc = counts(a["seq"])
                H.append("    class %s : public %s {\n    public:\n%s\n        std::any accept(antlr4::tree::ParseTreeVisitor* visitor) override;\n    };" % (lc, c, members(cc, n)))
                mimpl(lc, cc); vis.append(cap(a["label"]))
            make.append(labs)
    H.append("    %sContext* %s();" % (cap(pr[0][0]), pr[0][0]))
    H.append("private:\n    std::shared_ptr<antlr4::ParserRuleContext> root_;\n};")
    V = ["// generated by /verif/tools/gen_antlr.py", "#pragma once", "#include \"antlr4-runtime.h\"", "#include \"libqasm/v3x/CqasmParser.h\"",
         "class CqasmParserVisitor : public antlr4::tree::AbstractParseTreeVisitor {\npublic:"]
    for x in vis: V.append("    virtual std::any visit%s(CqasmParser::%sContext* context) = 0;" % (x, x))
    V.append("};")
    for x in vis: V.append("inline std::any CqasmParser::%sContext::accept(antlr4::tree::ParseTreeVisitor* visitor) { return dynamic_cast<CqasmParserVisitor*>(visitor)->visit%s(this); }" % (x, x))
    H += impl
    rid = {n: i for i, (n, _) in enumerate(pr)}
    def el(e):
        if e[0] == "ref":
            if e[1] == "EOF": return "tok(antlr4::Token::EOF)"
            return "rule(%d)" % rid[e[1]] if e[1] in rid else "tok(%d)" % num[e[1]]
        if e[0] == "grp": return "alts({%s})" % ", ".join("seq({%s})" % ", ".join(el(x) for x in a["seq"]) for a in e[1])
        if e[0] == "rep": return "rep(%s, '%s')" % (el(e[2]), e[1])
    H.append("inline CqasmParser::CqasmParser(antlr4::CommonTokenStream* ts) : antlr4::standin::ParserBase{ ts } {\n    using namespace antlr4::standin;")
    for (n, alts), mk in zip(pr, make):
        H.append("    defs.push_back({ \"%s\", {" % n)
        na = len(alts)
        for i, (a, m) in enumerate(zip(alts, mk)):
            prec = na - i
            seq = a["seq"]
            lrec = bool(seq) and seq[0] == ("ref", n)
            pre = (not lrec) and len(seq) > 1 and seq[-1] == ("ref", n) and alts[0]["label"] is not None and n == "expression"
            H.append("        { []() -> std::shared_ptr<antlr4::ParserRuleContext> { return std::make_shared<%s>(); }, seq({%s}), %s, %d, %s, %s }," %
                     (m, ", ".join(el(x) for x in (seq[1:] if lrec else seq)), "true" if lrec else "false", prec, "true" if a["right"] else "false", "true" if pre else "false"))
        H.append("    } });")
    H.append("}")
    r0 = pr[0][0]
    H.append("inline CqasmParser::%sContext* CqasmParser::%s() { root_ = parse(0); return dynamic_cast<%sContext*>(root_.get()); }" % (cap(r0), r0, cap(r0)))
    d = os.path.join(out, "libqasm/v3x"); os.makedirs(d, exist_ok=True)
    for f, body in (("CqasmLexer.h", L), ("CqasmParser.h", H), ("CqasmParserVisitor.h", V)):
        body = list(body)
        k = next(i for i, l in enumerate(body) if l.startswith("class Cqasm"))
        body.insert(k, "namespace cqasm::v3x::parser {"); body.append("}  // namespace cqasm::v3x::parser")
        s = "\n".join(body) + "\n"
        p = os.path.join(d, f)
        if not os.path.exists(p) or open(p).read() != s:
            with open(p + ".tmp", "w") as fh: fh.write(s)
            os.replace(p + ".tmp", p)

if __name__ == "__main__": main(sys.argv[1], sys.argv[2])
