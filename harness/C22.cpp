// Programs mixing good and faulty statements: one located error per faulty statement, and the rest as if the faulty ones were absent.
#include "prog.hpp"
#include <sstream>
using namespace vx;
static std::string tree_of(const analyzer::AnalysisResult& r) { if (r.root.empty()) return "no tree"; std::ostringstream s; s << *r.root; return s.str(); }
// the locations of statements, variables and the block: they are not part of the text above
template <class N> static std::string at(const N& n) {
    auto l = n.template get_annotation_ptr<cqasm::annotations::SourceLocation>();
    if (!l) return "nowhere";
    std::ostringstream s; s << *l; return s.str();
}
int main(int c, char** argv) {
    h::init(c, argv);
    h::Rng r(h::seed);
    for (int i = 0; i < (h::thorough ? 40000 : 2500) && h::time_left(); ++i) {
        struct Line { std::string text; bool good, declares; size_t indent; };
        struct Var { std::string name; bool qubit; long size; };
        std::vector<Line> ls;
        std::vector<Var> vs;
        size_t n = r.below(i % 25 == 24 ? 150 : i % 500 == 499 ? 1200 : 14), fresh = 0;   // some long: a limit on errors or statements shows only there
        for (size_t k = 0; k < n; ++k) {
            std::string s; bool good = true, decl = false;
            auto any = [&](bool q) -> Var* { std::vector<Var*> o; for (auto& v : vs) if (v.qubit == q) o.push_back(&v); return o.empty() ? nullptr : o[r.below(o.size())]; };
            auto one = [&](Var* v) { return v->size < 0 ? v->name : v->name + "[" + std::to_string(r.below(v->size)) + "]"; };
            Var *q = any(true), *b = any(false);
            switch (r.below(q ? 16 : 3)) {
            case 0: case 1: {       // a declaration
                Var v{ "v" + std::to_string(fresh++), r.below(3) != 0, r.below(2) ? -1 : (long)(1 + r.below(4)) };
                s = (v.qubit ? "qubit" : "bit") + (v.size < 0 ? std::string() : "[" + std::to_string(v.size) + "]") + " " + v.name;
                vs.push_back(v); decl = true;
                break;
            }
            case 2: {       // a faulty declaration
                good = false;
                if (vs.empty() || r.below(3) == 0) s = std::string(r.below(2) ? "qubit" : "bit") + "[0] v" + std::to_string(r.below(2) ? fresh++ : fresh);   // the name stays free
                else { auto& v = vs[r.below(vs.size())]; s = std::string(r.below(2) ? "qubit" : "bit") + (r.below(2) ? "" : "[2]") + " " + v.name; }
                if (r.below(8) == 0) s = "bit pi";
                break;
            }
            case 3: s = "H " + one(q); break;
            case 4: s = "Rx(" + std::string(r.below(2) ? "pi / 2" : "1") + ") " + q->name; break;
            case 5: s = "inv.pow(2).X " + one(q); break;
            case 6: s = "asm(Be) ''' code " + std::to_string(k) + " '''"; break;
            case 7: if (!b) { s = "barrier " + q->name; break; } s = one(b) + " = measure " + one(q); break;
            case 8: s = r.below(2) ? "reset " + q->name : "wait(3) " + q->name; break;
            case 9: { good = false; s = "H nothing" + std::to_string(k); break; }
            case 10: { good = false; s = "Rx " + one(q); break; }
            case 11: { good = false; s = "H " + q->name + "[" + std::to_string((q->size < 0 ? 0 : q->size) + (long)r.below(3)) + "]"; break; }
            case 12: { good = false; s = b ? "X " + b->name : "X 3"; break; }
            case 13: { good = false; s = "inv.CNOT " + one(q) + ", " + one(q); break; }
            case 14: { good = false; s = b ? one(b) + " = measure " + one(b) : one(q) + " = measure " + one(q); break; }
            case 15: { good = false; s = r.below(2) ? "Foo " + one(q) : "Rx(1 / 0) " + one(q); break; }
            }
            ls.push_back({ s, good, decl, r.below(3) });
        }
        std::string text = "version 3.0\n", clean = text;
        std::vector<size_t> bad;
        size_t line = 1, statements = 0, variables = 0;
        for (auto& l : ls) {
            size_t gap = r.below(2);
            for (size_t k = 0; k < gap; ++k) { text += "\n"; clean += "\n"; ++line; }
            ++line;
            text += std::string(l.indent, ' ') + l.text + "\n";
            clean += (l.good ? std::string(l.indent, ' ') + l.text : std::string()) + "\n";
            if (!l.good) bad.push_back(line);
            else (l.declares ? variables : statements)++;
        }
        h::begin("program:\n" + text);
        auto got = run(text), want = run(clean);
        H_REQUIRE(want.errors.empty(), "without the faulty statements there is still an error: " + errors_of(want));
        H_REQUIRE(got.errors.size() == bad.size(), std::to_string(bad.size()) + " faulty statements, but " + std::to_string(got.errors.size()) + " errors: " + errors_of(got));
        for (size_t k = 0; k < bad.size(); ++k) {
            std::string w = got.errors[k].what(), p = "Error at in.cq:" + std::to_string(bad[k]) + ":";
            H_REQUIRE(w.compare(0, p.size(), p) == 0, "error " + std::to_string(k) + " is not located at line " + std::to_string(bad[k]) + ": " + w);
        }
        H_REQUIRE(n_statements(got) == statements, std::to_string(statements) + " good statements, but " + std::to_string(n_statements(got)) + " in the tree");
        H_REQUIRE(n_variables(got) == variables, std::to_string(variables) + " good declarations, but " + std::to_string(n_variables(got)) + " in the tree");
        H_REQUIRE(tree_of(got) == tree_of(want), "the tree differs from that of the program without the faulty statements:\n" + tree_of(got) + "\nversus\n" + tree_of(want));
        for (size_t k = 0; k < statements; ++k)
            H_REQUIRE(at(*got.root->block->statements[k]) == at(*want.root->block->statements[k]) && (at(*got.root->block->statements[k]) != "nowhere" || got.root->block->statements[k]->as_asm_declaration()), "statement " + std::to_string(k) + " is located at " + at(*got.root->block->statements[k]));
        for (size_t k = 0; k < variables; ++k)
            H_REQUIRE(at(*got.root->variables[k]) == at(*want.root->variables[k]), "variable " + std::to_string(k) + " is located at " + at(*got.root->variables[k]));
        auto b = got.root->block->get_annotation_ptr<cqasm::annotations::SourceLocation>();
        for (size_t k = 0; k < statements; ++k) {
            auto s = got.root->block->statements[k]->get_annotation_ptr<cqasm::annotations::SourceLocation>();
            H_REQUIRE(!s || b && b->range.first <= s->range.first && s->range.last <= b->range.last, "the block's location " + at(*got.root->block) + " does not cover statement " + std::to_string(k) + " at " + at(*got.root->block->statements[k]));
        }
    }
    return h::done();
}
