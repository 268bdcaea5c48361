// Every front end against parse + analyze + to_strings / to_json of the core API, composed here.
#include "prog.hpp"
#include <fstream>
#include <sstream>
#include "libqasm/v3x/cqasm.hpp"
#include "libqasm/v3x/cqasm_python.hpp"
#include "libqasm/v3x/parse_helper.hpp"
#include "../emscripten/emscripten_wrapper.hpp"
using namespace vx;
namespace parser = cqasm::v3x::parser;
using Strings = std::vector<std::string>;
static std::string show(const Strings& s) { std::string r; for (auto& x : s) r += h::show(x) + ", "; return r; }
static analyzer::Analyzer core(bool without_defaults) {
    analyzer::Analyzer a;
    a.register_default_constants();
    a.register_default_functions();
    if (!without_defaults) a.register_default_instructions();
    return a;
}
static std::string dump(const analyzer::AnalysisResult& r) {
    std::ostringstream s;
    s << errors_of(r) << "\n";
    if (r.errors.empty() && !r.root.empty()) s << *r.root;
    return s.str();
}
template <typename F> static std::string outcome(F f) {
    std::ostringstream s, err;
    struct Redirect { std::streambuf* old; ~Redirect() { std::cerr.rdbuf(old); } } redirect{ std::cerr.rdbuf(err.rdbuf()) };
    try { auto root = f(); if (root.empty()) s << "no tree"; else s << *root; }
    catch (const analyzer::AnalysisFailed&) { s << "AnalysisFailed, printing " << err.str(); }
    return s.str();
}
template <typename F, typename G> static void same(const char* what, F got, G want) {
    std::string g, w;
    try { g = got(); } catch (const std::exception& e) { g = std::string("exception ") + e.what(); }
    try { w = want(); } catch (const std::exception& e) { w = std::string("exception ") + e.what(); }
    H_REQUIRE(g == w, std::string(what) + " gives\n" + g + "\nbut the core API gives\n" + w);
}
int main(int c, char** argv) {
    h::init(c, argv);
    h::Rng r(h::seed);
    char dir[] = "/tmp/c26XXXXXX";
    if (!mkdtemp(dir)) return 2;
    for (int i = 0; i < (h::thorough ? 8000 : 500) && h::time_left(); ++i) {
        std::string text = r.below(12) ? "version 3.0\n" : r.below(2) ? "version 3.1\n" : "";
        const char* names[] = { "q", "b", "r", "pi", "\xc3\xa9" };
        const char* gates[] = { "H", "X", "H", "mine", "Rx(pi)", "inv.S", "CNOT", "Nothing" };
        for (size_t j = 0, m = r.below(6); j < m; ++j) {
            std::string nm = names[r.below(r.below(8) ? 4 : 5)];
            switch (r.below(7)) {
            case 0: case 1: text += std::string(r.below(4) ? "qubit" : "bit") + (r.below(2) ? "[2] " : " ") + nm + "\n"; break;
            case 2: case 3: text += std::string(gates[r.below(8)]) + " " + nm + (r.below(4) ? "" : ", q[0]") + "\n"; break;
            case 4: {
                const char* bits[] = { "\"code\"", "\\", "\n", "\r", "\r\n", "\t", "  ", "//", "/*", "\xc3\xa9", "#", "\v", "\f", "'" };
                text += "asm(Backend) ''' ";
                for (size_t k = r.below(5); k-- > 0;) text += bits[r.below(14)], text += " ";
                text += "'''\n";
                break;
            }
            case 6: text += r.below(2) ? "// remark \xc3\xa9 \t\n" : "/* remark\n \r\n remark */\n"; break;
            case 5: text += "barrier " + nm + "\n"; break;
            }
        }
        if (r.below(10) == 0) text += "qubit qubit\n";
        if (r.below(6) == 0) text = "version 3.0\nqubit q\n" + std::string(r.below(2) ? "bit b\n" : "qubit b\n") + std::string(r.below(2) ? "H q" : "X q") + (r.below(2) ? "" : ", b") + "\n";
        if (r.below(6) == 0) { std::string t; for (char ch : text) { if (ch == '\n') t += '\r'; t += ch; } text = t; }
        if (r.below(8) == 0 && !text.empty() && text.back() == '\n') text.pop_back();
        const char* files[] = { "", "in.cq", "a b.cq", "/tmp/x.cq", "<unknown file name>" };
        std::string name = files[r.below(5)];
        std::optional<std::string> given = name.empty() ? std::optional<std::string>{} : name;
        std::string path = std::string(dir) + "/" + (r.below(20) ? "in.cq" : "none.cq");
        { std::ofstream f(std::string(dir) + "/in.cq", std::ios::binary); f << text; }
        bool without = r.below(3) == 0;
        unsigned own = r.below(4);
        h::begin("name " + h::show(name) + ", file " + (path.back() == 'q' && path.find("none") != std::string::npos ? "missing" : "there") + ", own instructions " + std::to_string(own) + (without ? ", without default instructions" : "") + ", program:\n" + text);
        auto set_up = [&](auto& a) {
            if (own & 1) a.register_instruction("H", std::optional<std::string>{ without ? "Q" : "QQ" });
            if (own & 2) { a.register_instruction("mine", std::optional<std::string>{}); a.register_instruction("X", std::optional<std::string>{ "QB" }); };
        };
        analyzer::Analyzer reference = core(without);
        set_up(reference);
        std::unique_ptr<V3xAnalyzer> python;
        if (!without && r.below(2)) python = std::make_unique<V3xAnalyzer>(); else python = std::make_unique<V3xAnalyzer>("3.0", without);
        set_up(*python);
        auto pt = [&] { return parser::parse_string(text, given); };
        auto pf = [&] { return parser::parse_file(path, std::nullopt); };
        // the binding class
        same("V3xAnalyzer::parse_string", [&] { return show(V3xAnalyzer::parse_string(text, name)); }, [&] { return show(pt().to_strings()); });
        same("V3xAnalyzer::parse_string_to_json", [&] { return V3xAnalyzer::parse_string_to_json(text, name); }, [&] { return pt().to_json(); });
        same("V3xAnalyzer::parse_file", [&] { return show(V3xAnalyzer::parse_file(path)); }, [&] { return show(pf().to_strings()); });
        same("V3xAnalyzer::parse_file_to_json", [&] { return V3xAnalyzer::parse_file_to_json(path); }, [&] { return pf().to_json(); });
        same("V3xAnalyzer::analyze_string", [&] { return show(python->analyze_string(text, name)); }, [&] { return show(reference.analyze(pt()).to_strings()); });
        same("V3xAnalyzer::analyze_string_to_json", [&] { return python->analyze_string_to_json(text, name); }, [&] { return reference.analyze(pt()).to_json(); });
        same("V3xAnalyzer::analyze_file", [&] { return show(python->analyze_file(path)); }, [&] { return show(reference.analyze(pf()).to_strings()); });
        same("V3xAnalyzer::analyze_file_to_json", [&] { return python->analyze_file_to_json(path); }, [&] { return reference.analyze(pf()).to_json(); });
        // the JavaScript binding, under the names it exports
        {
            using F = std::string (EmscriptenWrapper::*)(const std::string&, const std::string&);
            auto& bound = emscripten::bound();
            auto call = [&](const char* n) { auto i = bound.find(std::string("EmscriptenWrapper.") + n); if (i == bound.end()) return std::string("nothing of that name is exported"); EmscriptenWrapper w; return (w.*std::any_cast<F>(i->second))(text, name); };
            same("JavaScript parse_string_to_json", [&] { return call("parse_string_to_json"); }, [&] { return pt().to_json(); });
            same("JavaScript analyze_string_to_json", [&] { return call("analyze_string_to_json"); }, [&] { return core(false).analyze(pt()).to_json(); });
        }
        // a file read is the text read
        if (path.find("none") == std::string::npos) {
            same("parse_file", [&] { return show(parser::parse_file(path, given).to_strings()); }, [&] { return show(pt().to_strings()); });
            same("Analyzer::analyze_file", [&] { return dump(reference.analyze_file(path)); }, [&] { return dump(reference.analyze(parser::parse_string(text, path))); });
            same("analyze_file", [&] { return outcome([&] { return cqasm::v3x::analyze_file(path); }); }, [&] { return outcome([&] { return core(false).analyze(pf()).unwrap(); }); });
        }
        same("Analyzer::analyze_string", [&] { return dump(reference.analyze_string(text, given)); }, [&] { return dump(reference.analyze(pt())); });
        same("analyze_string", [&] { return outcome([&] { return cqasm::v3x::analyze_string(text, given); }); }, [&] { return outcome([&] { return core(false).analyze(pt()).unwrap(); }); });
        // the version given is obeyed
        auto refused = [&](auto f) { try { f(); return false; } catch (const std::invalid_argument&) { return true; } };
        const char* versions[] = { "3.0", "3.1", "2.9", "3", "3.0.0" };
        std::string w = versions[r.below(5)];
        bool bad = refused([&] { analyzer::Analyzer a{ w }; });
        H_REQUIRE(refused([&] { cqasm::v3x::default_analyzer(w); }) == bad, "default_analyzer(\"" + w + "\") and Analyzer disagree");
        H_REQUIRE(refused([&] { V3xAnalyzer a(w, without); }) == bad, "V3xAnalyzer(\"" + w + "\") and Analyzer disagree");
        H_REQUIRE(refused([&] { outcome([&] { return cqasm::v3x::analyze_string(text, given, w); }); }) == bad, "analyze_string for \"" + w + "\" and Analyzer disagree");
        if (path.find("none") == std::string::npos) H_REQUIRE(refused([&] { outcome([&] { return cqasm::v3x::analyze_file(path, w); }); }) == bad, "analyze_file for \"" + w + "\" and Analyzer disagree");
    }
    unlink((std::string(dir) + "/in.cq").c_str());
    rmdir(dir);
    return h::done();
}
