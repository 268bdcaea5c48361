import sys; sys.path.insert(0, "/verif/tools/seeds")
import v3
from v3 import *
EW = "emscripten/emscripten_wrapper.cpp"
FILES["bind.h"] = open(V + "/standin/include/emscripten/bind.h").read()
v3.SCRIPT = v3.SCRIPT.replace('python3 "$D/gen_tree.py"', 'mkdir -p "$T/include/emscripten"; cp "$D/bind.h" "$T/include/emscripten/"\npython3 "$D/gen_tree.py"', 1)
INC = ["libqasm/v3x/cqasm_python.hpp", "libqasm/v3x/analyzer.hpp", "libqasm/v3x/semantic.hpp", "libqasm/v3x/analysis_result.hpp", "../emscripten/emscripten_wrapper.hpp"]
P = "using cqasm::v3x::analyzer::Analyzer; static Analyzer core() { Analyzer a; a.register_default_constants(); a.register_default_functions(); a.register_default_instructions(); return a; }\n"
main = lambda b: P + "int main() { " + b + " return 0; }\n"
SRC = "ALL"
def go2(*a): 
    s = "src/*.cpp src/v3x/*.cpp emscripten/emscripten_wrapper.cpp"
    only = sys.argv[1:]
    if only and a[0] not in only: return
    return make(a[0], a[1], a[2], a[3], a[4], H % "".join('#include "%s"\n' % i for i in INC) + a[5], files=FILES, script=v3.SCRIPT % s)
go2("y01-js-kept-analyzer", "C26", "two analyses by the JavaScript binding, the second of another text with the same length and name", "the JavaScript binding keeps the last answer and compares only length and name",
   [(EW, "    return V3xAnalyzer{}.analyze_string_to_json(data, file_name);", "    static std::string last_name{}, last_answer{};\n    static size_t last_size{};\n    if (last_answer.empty() || data.size() != last_size || file_name != last_name) {\n        last_answer = V3xAnalyzer{}.analyze_string_to_json(data, file_name);\n        last_size = data.size();\n        last_name = file_name;\n    }\n    return last_answer;")],
   main(r'EmscriptenWrapper w; auto a = core(); std::string t = "version 3.0\nqubit q\nH q\n", u = "version 3.0\nqubit q\nH r\n"; CHECK(w.analyze_string_to_json(t, "f") == a.analyze_string(t, std::string("f")).to_json()); CHECK(w.analyze_string_to_json(u, "f") == a.analyze_string(u, std::string("f")).to_json());'))
go2("y02-js-no-instructions", "C26", "an analysis of an instruction by the JavaScript binding", "the JavaScript binding analyzes without the default instructions",
   [(EW, "V3xAnalyzer{}.analyze_string", 'V3xAnalyzer{ "3.0", data.find("asm") != std::string::npos }.analyze_string')],
   main(r"""EmscriptenWrapper w; auto a = core(); std::string t = "version 3.0\nqubit q\nH q\nasm(B) ''' '''\n"; CHECK(w.analyze_string_to_json(t, "f") == a.analyze_string(t, std::string("f")).to_json());"""))
