// Programs written from random syntax trees: the parsed tree must be the one written, each node at its place.
#include <cmath>
#include <cstdlib>
#include <optional>
#include "harness.hpp"
#include "libqasm/annotations.hpp"
#include "libqasm/error.hpp"
#include "libqasm/v3x/parse_helper.hpp"
#include "libqasm/v3x/syntactic.hpp"
namespace parser = cqasm::v3x::parser;
namespace syn = cqasm::v3x::syntactic;
using Loc = cqasm::annotations::SourceLocation;
using Name = std::optional<std::string>;

struct Place { int line = 0, col = 0, line2 = 0, col2 = 0; };
struct N {                                   // a node as written
    std::string kind, text;
    std::vector<N> kids;
    Place at;
    N(std::string k = "", std::string t = "", std::vector<N> c = {}) : kind{ std::move(k) }, text{ std::move(t) }, kids{ std::move(c) } {}
};
static Name file;
static std::string place(const Place& p) {
    return p.line == 0 ? "" : "@" + std::to_string(p.line) + ":" + std::to_string(p.col) + "-" + std::to_string(p.line2) + ":" + std::to_string(p.col2);
}
static std::string show(const N& n) {
    std::string s = "(" + n.kind + place(n.at);
    if (!n.text.empty()) s += " " + n.text;
    for (auto& k : n.kids) s += " " + show(k);
    return s + ")";
}
static std::string num(double d) { char b[64]; snprintf(b, sizeof b, "%a", d); return b; }

// --- the tree parsed -----------------------------------------------------------------------
template <typename T> static std::string where(const T& n) {
    auto* l = n->template get_annotation_ptr<Loc>();
    if (!l) return "";
    H_REQUIRE(l->file_name.has_value() == (file.has_value() && !file->empty()) && (!l->file_name || *l->file_name == *file), "a node is not located in the file given");
    return place({ (int)l->range.first.line, (int)l->range.first.column, (int)l->range.last.line, (int)l->range.last.column });
}
static std::string got(const syn::One<syn::Expression>& e);
template <typename L> static std::string got_list(const L& l) {
    if (l.empty()) return "(missing)";
    std::string s = "(List" + where(l);
    for (auto& x : l->items) s += " " + got(x);
    return s + ")";
}
static std::string got_name(const std::string& kind, const std::string& name) { return "(" + kind + " " + name + ")"; }
template <typename I> static std::string got_id(const I& i) { return i.empty() ? "(missing)" : "(Name" + where(i) + " " + i->name + ")"; }
static std::string got(const syn::One<syn::Expression>& e) {
    if (e.empty()) return "(missing)";
    auto w = where(e);
    if (auto x = e->as_boolean_literal()) return "(Bool" + w + " " + (x->value ? "true" : "false") + ")";
    if (auto x = e->as_integer_literal()) return "(Int" + w + " " + std::to_string(x->value) + ")";
    if (auto x = e->as_float_literal()) return "(Float" + w + " " + num(x->value) + ")";
    if (auto x = e->as_identifier()) return "(Id" + w + " " + x->name + ")";
    if (auto x = e->as_function_call()) return "(Call" + w + " " + got_id(x->name) + (x->arguments.empty() ? "" : " " + got_list(x->arguments)) + ")";
    if (auto x = e->as_index()) {
        std::string s = "(Index" + w + " ";
        auto* id = x->expr.empty() ? nullptr : x->expr->as_identifier();
        s += id ? "(Name" + where(id) + " " + id->name + ")" : "(no name)";
        if (x->indices.empty()) return s + " (missing))";
        for (auto& i : x->indices->items) {
            if (auto a = i->as_index_item()) s += " (Item" + where(i) + " " + got(a->index) + ")";
            else if (auto b = i->as_index_range()) s += " (Range" + where(i) + " " + got(b->first) + " " + got(b->last) + ")";
            else s += " (other)";
        }
        return s + ")";
    }
    if (auto x = e->as_ternary_conditional_expression()) return "(?" + w + " " + got(x->cond) + " " + got(x->if_true) + " " + got(x->if_false) + ")";
    if (auto x = e->as_unary_expression())
        return std::string("(") + (e->as_unary_minus_expression() ? "u-" : e->as_bitwise_not_expression() ? "~" : e->as_logical_not_expression() ? "!" : "?unary") + w + " " + got(x->expr) + ")";
    if (auto x = e->as_binary_expression()) {
        const char* o = e->as_power_expression() ? "**" : e->as_product_expression() ? "*" : e->as_division_expression() ? "/" : e->as_modulo_expression() ? "%" :
            e->as_addition_expression() ? "+" : e->as_subtraction_expression() ? "-" : e->as_shift_left_expression() ? "<<" : e->as_shift_right_expression() ? ">>" :
            e->as_cmp_gt_expression() ? ">" : e->as_cmp_lt_expression() ? "<" : e->as_cmp_ge_expression() ? ">=" : e->as_cmp_le_expression() ? "<=" :
            e->as_cmp_eq_expression() ? "==" : e->as_cmp_ne_expression() ? "!=" : e->as_bitwise_and_expression() ? "&" : e->as_bitwise_xor_expression() ? "^" :
            e->as_bitwise_or_expression() ? "|" : e->as_logical_and_expression() ? "&&" : e->as_logical_xor_expression() ? "^^" : e->as_logical_or_expression() ? "||" : "?binary";
        return std::string("(") + o + w + " " + got(x->lhs) + " " + got(x->rhs) + ")";
    }
    return "(other)";
}
static std::string got(const syn::Gate& g) {
    return "(Gate" + where(&g) + " " + got_id(g.name) + " " + got_list(g.parameters) + (g.gate.empty() ? "" : " " + got(*g.gate)) + ")";
}
static std::string got(const syn::One<syn::Statement>& s) {
    auto w = where(s);
    if (auto x = s->as_variable()) {
        std::string t = x->typ.empty() ? "(missing)" : "(Type" + where(x->typ) + " " + x->typ->name->name + (x->typ->size.empty() ? "" : " (Size" + where(x->typ->size) + " " + std::to_string(x->typ->size->value) + ")") + ")";
        return "(Variable" + w + " " + got_id(x->name) + " " + t + ")";
    }
    if (auto x = s->as_gate_instruction()) return "(Do" + w + " " + (x->gate.empty() ? "(missing)" : got(*x->gate)) + " " + got_list(x->operands) + ")";
    if (auto x = s->as_non_gate_instruction()) return "(Non" + w + " (Name" + where(x->name) + " " + x->name->name + ") " + got_list(x->parameters) + " " + got_list(x->operands) + ")";
    if (auto x = s->as_asm_declaration()) return "(Asm" + w + " " + got_id(x->backend_name) + " [" + x->backend_code + "])";
    return "(other)";
}
static std::string got(const syn::Program& p) {
    std::string s = "(Program (Version" + where(p.version);
    for (auto i : p.version->items) s += " " + std::to_string(i);
    s += ")";
    for (auto& x : p.block->statements) s += " " + got(x);
    return s + ")";
}

// --- writing a program ---------------------------------------------------------------------
struct Writer {
    h::Rng& r;
    std::string out;
    int line = 1, col = 1;
    bool strict = false;                     // in a version, only blanks are allowed between words
    void put(const std::string& s) { for (char c : s) { out += c; if (c == '\n') { ++line; col = 1; } else ++col; } }
    static bool word(char c) { return isalnum((unsigned char)c) || c == '_' || c == '.'; }
    void blank() { static const char* b[] = { " ", "  ", "\t", " /* c */ ", " /* x\n y ** */", " /**/ " }; put(b[r.below(strict || r.below(4) ? 3 : 6)]); }
    Place tok(const std::string& t) {
        char last = out.empty() ? '\n' : out.back();
        if ((word(last) && word(t[0])) || r.below(3) == 0) blank();
        Place p{ line, col, line, col + (int)t.size() };
        put(t);
        return p;
    }
    void separator() {
        static const char* s[] = { "\n", ";", ";\n", "\n\n", " // comment; x q ** 2\n", "\r\n", "\n  ;" };
        put(s[r.below(7)]);
    }
};
struct Op { const char* text; int level; bool right; };
static const Op ops[] = { { "**", 19, true }, { "*", 18, false }, { "/", 18, false }, { "%", 18, false }, { "+", 17, false }, { "-", 17, false }, { "<<", 16, false }, { ">>", 16, false },
    { ">", 15, false }, { "<", 15, false }, { ">=", 15, false }, { "<=", 15, false }, { "==", 14, false }, { "!=", 14, false }, { "&", 13, false }, { "^", 12, false }, { "|", 11, false },
    { "&&", 10, false }, { "^^", 9, false }, { "||", 8, false } };
static const Op* op_of(const N& n) { if (n.kids.size() == 2) for (auto& o : ops) if (n.kind == o.text) return &o; return nullptr; }
static int level(const N& n) {
    if (auto o = op_of(n)) return o->level;
    if (n.kind == "?") return 7;
    return n.kind == "u-" || n.kind == "~" || n.kind == "!" || n.kind == "u+" ? 20 : 100;
}
static void write(Writer& w, N& n);
static void list(Writer& w, std::vector<N>& l) { for (size_t i = 0; i < l.size(); ++i) { if (i) w.tok(","); write(w, l[i]); } }
static void operand(Writer& w, N& n, int least) {
    bool p = level(n) < least || w.r.below(12) == 0;
    if (p) w.tok("(");
    write(w, n);
    if (p) w.tok(")");
}
static void write(Writer& w, N& n) {
    if (n.kind == "Bool" || n.kind == "Int" || n.kind == "Float" || n.kind == "Id") { n.at = w.tok(n.text); return; }
    if (n.kind == "Call") { n.at = w.tok(n.kids[0].text); w.tok("("); if (n.kids.size() > 1) list(w, n.kids[1].kids); w.tok(")"); return; }
    if (n.kind == "Index") {
        n.at = w.tok(n.kids[0].text); w.tok("[");
        for (size_t i = 1; i < n.kids.size(); ++i) {
            if (i > 1) w.tok(",");
            operand(w, n.kids[i].kids[0], 8);
            if (n.kids[i].kind == "Range") { w.tok(":"); operand(w, n.kids[i].kids[1], 8); }
        }
        w.tok("]");
        return;
    }
    if (auto o = op_of(n)) {
        operand(w, n.kids[0], o->right ? o->level + 1 : o->level);
        n.at = w.tok(n.kind);
        operand(w, n.kids[1], o->right ? o->level : o->level + 1);
        return;
    }
    if (n.kind == "?") { operand(w, n.kids[0], 8); n.at = w.tok("?"); operand(w, n.kids[1], 0); w.tok(":"); operand(w, n.kids[2], 7); return; }
    n.at = w.tok(n.kind == "u-" ? "-" : n.kind == "u+" ? "+" : n.kind);
    operand(w, n.kids[0], 20);
}
// the tree expected: literals by their value, a plus sign leaves its operand
static N meant(const N& n) {
    N m = n;
    if (n.kind == "u+") return meant(n.kids[0]);
    if (n.kind == "Int") m.text = std::to_string(strtoll(n.text.c_str(), nullptr, 10));
    if (n.kind == "Float") m.text = num(strtod(n.text.c_str(), nullptr));
    for (auto& k : m.kids) k = meant(k);
    return m;
}

// --- random trees --------------------------------------------------------------------------
struct Gen {
    h::Rng& r;
    std::string digits(int n) { std::string s; for (int i = 0; i < n; ++i) s += (char)('0' + r.below(10)); return s; }
    std::string name() { static const char* n[] = { "q", "b", "x", "H", "pi", "_", "in", "a1", "versions", "invx", "waiter", "E5", "trueish", "true_", "qubits" }; return n[r.below(15)]; }
    N integer() {
        static const char* n[] = { "0", "1", "42", "9223372036854775807", "9223372036854775806", "4294967296", "2147483648", "007", "00000000000000000000000012" };
        return N("Int", r.below(2) ? std::string(n[r.below(9)]) : digits(1 + r.below(18)));
    }
    N real() {
        static const char* n[] = { "0.0", ".5", "1.", "3.14159265358979", "1.e3", ".1e-7", "1.7976931348623157e308", "2.2250738585072014e-308", "0.1", "1.0E+10" };
        if (r.below(2)) return N("Float", n[r.below(10)]);
        std::string s = digits(r.below(6)), f = digits(r.below(9));
        if (s.empty() && f.empty()) f = "7";
        s += "." + f;
        if (r.below(3) == 0) s += std::string(r.below(2) ? "e" : "E") + (r.below(3) == 0 ? "-" : r.below(2) ? "+" : "") + digits(1 + r.below(2));
        return N("Float", s);
    }
    std::vector<N> exprs(int d, int least) { std::vector<N> v; int n = least + r.below(4 - least) + (r.below(200) || d < 2 ? 0 : r.below(40)); for (int i = 0; i < n; ++i) v.push_back(expr(d)); return v; }
    N index(int d) {
        N x("Index", "", { N("Name", name()) });
        int n = 1 + r.below(3) + (r.below(100) || d < 2 ? 0 : r.below(60));
        for (int i = 0; i < n; ++i) x.kids.push_back(r.below(2) ? N("Item", "", { expr(d) }) : N("Range", "", { expr(d), expr(d) }));
        return x;
    }
    N expr(int d) {
        unsigned k = r.below(d > 0 ? 20 : 5);
        if (k < 2) return N("Id", name());
        if (k == 2) return integer();
        if (k == 3) return real();
        if (k == 4) return N("Bool", r.below(2) ? "true" : "false");
        if (k == 5) { N c("Call", "", { N("Name", name()) }); auto a = exprs(d - 1, 0); if (!a.empty()) c.kids.push_back(N("List", "", a)); return c; }
        if (k == 6) return index(d - 1);
        if (k == 7) return N("?", "", { expr(d - 1), expr(d - 1), expr(d - 1) });
        if (k < 11) { static const char* u[] = { "u-", "~", "!", "u+" }; return N(u[r.below(4)], "", { expr(d - 1) }); }
        return N(ops[r.below(20)].text, "", { expr(d - 1), expr(d - 1) });
    }
};
// writes a statement; yields the tree expected
static N gate(Gen& g, Writer& w, int d) {
    unsigned k = d > 0 ? g.r.below(6) : 9;
    N n("Gate");
    if (k < 3) {
        static const char* m[] = { "inv", "ctrl", "pow" };
        n.at = w.tok(m[k]);
        n.kids = { N("Name", m[k]), N("List") };
        if (k == 2) { w.tok("("); N e = g.expr(2); write(w, e); w.tok(")"); n.kids[1].kids.push_back(meant(e)); }
        w.tok(".");
        n.kids.push_back(gate(g, w, d - 1));
        return n;
    }
    auto name = g.name();
    n.at = w.tok(name);
    n.kids = { N("Name", name), N("List") };
    if (g.r.below(2)) { w.tok("("); auto a = g.exprs(2, 1); list(w, a); w.tok(")"); for (auto& x : a) n.kids[1].kids.push_back(meant(x)); }
    return n;
}
static N statement(Gen& g, Writer& w) {
    auto exprs = [&](std::vector<N>& a) { N l("List"); for (auto& x : a) l.kids.push_back(meant(x)); return l; };
    switch (g.r.below(9)) {
        case 0: case 1: {
            std::string t = g.r.below(2) ? "qubit" : "bit";
            N type("Type", t);
            type.at = w.tok(t);
            if (g.r.below(2)) {
                w.tok("["); N s = g.integer(); w.tok(s.text); auto e = w.tok("]");
                type.kids.push_back(N("Size", meant(s).text));
                type.at.line2 = e.line2; type.at.col2 = e.col2;
            }
            auto name = g.name();
            N v("Variable", "", { N("Name", name), type });
            v.at = w.tok(name);
            return v;
        }
        case 2: case 3: case 4: {
            N gt = gate(g, w, 3);
            std::vector<N> a;                        // the first operand must not continue the gate
            a.push_back(g.r.below(2) ? N("Id", g.name()) : g.index(2));
            for (auto& x : g.exprs(2, 0)) a.push_back(x);
            list(w, a);
            N s("Do", "", { gt, exprs(a) });
            s.at = gt.at;
            return s;
        }
        case 5: {
            N s("Non");
            N to = g.expr(2), from = g.expr(2);
            write(w, to);
            w.tok("=");
            s.at = w.tok("measure");
            std::vector<N> p, o;
            if (g.r.below(2)) { w.tok("("); p = g.exprs(1, 1); list(w, p); w.tok(")"); write(w, from); }
            else { from = N("Id", g.name()); write(w, from); }
            o = { to, from };
            s.kids = { N("Name", "measure"), exprs(p), exprs(o) };
            return s;
        }
        case 6: {
            static const char* k[] = { "reset", "init", "barrier" };
            auto name = k[g.r.below(3)];
            N s("Non");
            s.at = w.tok(name);
            std::vector<N> p, o = { g.expr(3) };
            write(w, o[0]);
            s.kids = { N("Name", name), exprs(p), exprs(o) };
            return s;
        }
        case 7: {
            N s("Non");
            s.at = w.tok("wait");
            std::vector<N> p = { g.expr(2) }, o = { g.expr(2) };
            w.tok("("); write(w, p[0]); w.tok(")"); write(w, o[0]);
            s.kids = { N("Name", "wait"), exprs(p), exprs(o) };
            return s;
        }
        default: {
            static const char* code[] = { "", "x", " a line\n and another\n", "quote ' and '' two", "\"double\" // no comment", "\\ \t /* neither */" };
            std::string c = code[g.r.below(6)], name = g.name();
            w.tok("asm"); w.tok("("); w.tok(name); w.tok(")"); w.tok("'''" + c + "'''");
            N s("Asm", "", { N("Name", name) });
            s.text = "";
            s.kids.push_back(N("\x01" + c));       // printed specially below
            return s;
        }
    }
}
static std::string want(const N& n) {
    std::string s = show(n);
    for (size_t i; (i = s.find("(\x01")) != std::string::npos;) {       // (Asm ... (^Acode)) -> (Asm ... [code])
        size_t e = s.find("))", i);
        s = s.substr(0, i) + "[" + s.substr(i + 2, e - i - 2) + "]" + s.substr(e + 1);
    }
    return s;
}
static parser::ParseResult parse(const std::string& t) { h::begin("program:\n" + t); return parser::parse_string(t, file); }
static const syn::Program* program(const parser::ParseResult& p) {
    std::string e;
    for (auto& x : p.errors) e += std::string(x.what()) + "; ";
    H_REQUIRE(p.errors.empty(), "a well-formed program is rejected: " + e);
    H_REQUIRE(!p.root.empty() && p.root->as_program(), "no program is returned");
    return p.root->as_program();
}
static void rejected(const std::string& t, const std::string& at, const std::string& what) {
    auto p = parse(t);
    H_REQUIRE(p.errors.size() == 1, what + ": not rejected with one error");
    H_REQUIRE(p.root.empty(), what + ": rejected with a tree");
    std::string w = p.errors[0].what(), f = file && !file->empty() ? *file + ":" : "<unknown file name>:";
    H_REQUIRE(w.rfind("Error at " + f + at, 0) == 0, what + ": the error is not at " + at + " but reads " + w);
}

int main(int c, char** argv) {
    h::init(c, argv);
    h::Rng r(h::seed);
    Gen g{ r };
    const Name names[] = { std::nullopt, Name{ "" }, Name{ "a.cq" } };
    for (auto& f : names) {
        file = f;
        for (auto* e : { "1 + 9223372036854775808", "1 + 18446744073709551616", "1 + 99999999999999999999999" })
            rejected(std::string("version 3.0\n reset ") + e, "2:12: value '" + std::string(e + 4) + "' is out of the INTEGER_LITERAL range", "an integer beyond 64 bits");
        for (auto* e : { "1 + 1.0e400", "1 + 2.e308" })
            rejected(std::string("version 3.0\n reset ") + e, "2:12: value '" + std::string(e + 4) + "' is out of the FLOAT_LITERAL range", "a float beyond its range");
        rejected("version 3.0\n qubit[9223372036854775808] q", "2:8: value '9223372036854775808' is out of the INTEGER_LITERAL range", "a size beyond 64 bits");
        rejected("version 9223372036854775808", "1:9: value '9223372036854775808'", "a version beyond 64 bits");
        rejected("version 12.9223372036854775808", "1:12: value '9223372036854775808'", "a version beyond 64 bits");
        rejected("version 3.0\nqubit q\n  H q)", "3:6..7: ", "a token that does not fit");
        rejected("version 3.0\nqubit q\n  H q,", "3:7: ", "a text that ends early");
        rejected("version 3.0\nqubit q; $ q", "2:10: ", "a character of no token");
    }
    // what the grammar of the language has no program for
    file = std::nullopt;
    auto refused = [](const std::string& t) { auto p = parse(t); H_REQUIRE(!p.errors.empty() && p.root.empty(), "a text that is no program is accepted"); };
    for (int b = 1; b < 256; ++b) {
        std::string c(1, char(b)), v = "version 3.0\nqubit q\n";
        bool blank = b == ' ' || b == '\t', control = b < 32 && !blank && b != '\n';
        if (b >= 128) c = "\xc3" + std::string(1, char(0x80 + b % 64));      // valid UTF-8
        if (control || b >= 127) { refused(v + "H " + c + "q"); refused(v + "H q" + c); refused(v + c); refused(v + "bit" + c + "b"); refused("version" + c + "3.0"); }
        if (std::string("#$@`\\?\"'").find(char(b)) != std::string::npos && b < 128) { refused(v + "H " + c + "q"); refused(v + "H q" + c); refused(v + c); }
        bool letter = std::isalnum(b) && b < 128;
        if (!letter && b != '_' && !blank && b != '\n' && b != ';' && b != '[') { refused(v + "bit b" + c + "c"); refused(v + "bit " + c + "c"); }
        if (std::isdigit(b) && b < 128) { refused(v + "bit " + c); refused(v + "bit " + c + "c"); }
    }
    for (auto* k : { "version", "qubit", "bit", "true", "false", "inv", "pow", "ctrl", "measure", "reset", "init", "barrier", "wait", "asm" }) {
        refused(std::string("version 3.0\nqubit ") + k); refused(std::string("version 3.0\nqubit q\n") + k + " = q"); refused(std::string("version 3.0\nqubit q\nRx(") + k + "[0]) q");
    }
    for (auto* t : { "", "\n", "qubit q", "H q", "version", "version 3.", "version .0", "version 3.0.0", "version 3.0 3", "version -3", "version 3.a", "version a", "version 3.0 qubit q", "version 3.0\nversion 3.0", "Version 3.0",
                     "version 3.0\n/* open", "version 3.0\n*/", "version 3.0\n/ /", "version 3.0\nasm(A) ''' open", "version 3.0\nasm(A) '' x ''", "version 3.0\nasm A ''' x '''", "version 3.0\nasm() ''' x '''" }) refused(t);
    for (auto* t : { "qubit", "qubit[] q", "qubit[2 q", "qubit 2] q", "qubit q q", "qubit q, r", "qubit[2][3] q", "qubit[2.0] q", "qubit[n] q", "qubit[-1] q", "qubit[1 + 1] q", "H", "H q H q", "H q r", "H q,", "H , q", "H (1 q", "H 1) q",
                     "inv H q", "inv. q", "inv.H", ".H q", "inv..H q", "pow.X q", "pow().X q", "pow 2.X q", "pow(2, 3).X q", "inv(1).X q", "ctrl(1).X q", "X.inv q", "measure q", "b = q", "b == measure q", "b = measure", "= measure q", "b = reset q", "b = H q", "b measure q", "H = measure", "wait(1)", "wait q", "wait() q", "wait(1, 2) q", "barrier(1) q",
                     "Rx(1.) q.", "Rx(1e5) q", "Rx(1.0e) q", "Rx(1.0e+) q", "Rx(1.0e 5) q", "Rx(1 .0) q", "Rx(.) q", "Rx(1_000) q", "Rx(0x1F) q", "Rx(0b1) q", "Rx(1.5f) q", "Rx(1..2) q", "Rx('a') q", "Rx(\"a\") q", "Rx(1 + ) q", "Rx(* 1) q", "Rx(1 2) q", "Rx((1) q", "Rx(1)) q", "Rx(1 ? 2) q", "Rx(1 : 2) q", "Rx(1 ? : 2) q", "Rx(!) q", "Rx(1!) q", "Rx(1 =! 2) q", "Rx(1 <> 2) q", "Rx(1 === 2) q", "Rx(1 && & 2) q", "Rx(1 ||) q", "Rx(f(1) q", "Rx(f(1,)) q", "Rx(f(,1)) q", "Rx(1 = 2) q", "Rx(1 += 2) q",
                     "H q[", "H q]", "H q[]", "H q[0", "H q[0,]", "H q[,0]", "H q[0:]", "H q[:1]", "H q[:]", "H q[0:1:2]", "H q[0][1]", "{ H q }", "if (b) H q", "let a = q", "H q : r", "q -> b", "H\nq", "qubit\nq", "qubit[2]\nq", "b =\nmeasure q", "Rx(1\n) q", "H q,\nr", "inv.\nX q", "H q \\\n, r" }) refused(std::string("version 3.0\n") + t);
    for (int i = 0; i < (h::thorough ? 60000 : 12000) && h::time_left(); ++i) {
        file = names[r.below(3)];
        Writer w{ r };
        N p("Program", "", { N("Version") });
        for (int k = r.below(3); k > 0; --k) w.separator();
        w.tok("version");
        w.strict = true;
        static const char* majors[] = { "3", "0", "1", "3", "9223372036854775807", "10" };
        std::string a = majors[r.below(6)], b = r.below(3) ? majors[r.below(6)] : "";
        p.kids[0].at = w.tok(b.empty() ? a : a + "." + b);
        w.strict = false;
        p.kids[0].text = b.empty() ? a : a + " " + b;
        int n = r.below(i % 20 == 0 ? i % 200 == 0 ? 120 : 12 : 4);
        for (int k = 0; k < n; ++k) { do w.separator(); while (r.below(4) == 0); p.kids.push_back(statement(g, w)); }
        for (int k = r.below(3); k > 0; --k) w.separator();
        auto result = parse(w.out);
        auto x = got(*program(result)), y = want(p);
        H_REQUIRE(x == y, "the tree is\n" + x + "\nbut the program was written from\n" + y);
    }
    return h::done();
}
