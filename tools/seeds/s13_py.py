import sys; sys.path.insert(0, "/verif/tools/seeds")
from v3 import *
import v3
P, I, N = ("python/module/cqasm/v3x/%s.py" % n for n in ("primitives", "__init__", "instruction"))
STUB = '''import sys, types
sys.dont_write_bytecode = True
sys.path.insert(0, "python/module")
class Node:
    def __init__(self, b): self.b = b
    def serialize(self): return self.b
    deserialize = staticmethod(lambda b: Node(b))
class Tree(Node):
    @classmethod
    def deserialize(cls, b): return cls(b)
class V3xAnalyzer:
    ret = None
    parse_file = staticmethod(lambda *a: V3xAnalyzer.ret)
    parse_string = staticmethod(lambda *a: V3xAnalyzer.ret)
    def analyze_file(self, *a): return V3xAnalyzer.ret
    def analyze_string(self, *a): return V3xAnalyzer.ret
def mod(q, **kw):
    m = types.ModuleType(q); m.__dict__.update(kw); sys.modules[q] = m; return m
tm, am, sm = mod("cqasm.v3x.types", Node=Node), mod("cqasm.v3x.ast", Root=Tree), mod("cqasm.v3x.semantic", Program=Tree)
mod("libqasm", V3xAnalyzer=V3xAnalyzer)
import cqasm.v3x
cqasm.v3x.types, cqasm.v3x.ast, cqasm.v3x.semantic = tm, am, sm
import cqasm.v3x.primitives as P
from cqasm.v3x import Analyzer
from cqasm.v3x.instruction import Instruction, InstructionRef
'''
PY = """#!/bin/bash
# run with cwd /repo; exit 0 iff the property's demonstration succeeds
timeout 100 python3 -B "$(cd "$(dirname "$0")" && pwd)/demo.py"
"""
def py(id, needs, breaks, edits, body):
    only = sys.argv[1:]
    if only and id not in only: return
    return make(id, "C29", needs, breaks, edits, None, files={"demo.py": STUB + body}, script=PY)
py("x01-latin-text", "a text with a character outside ASCII", "texts of the tree are decoded as Latin-1",
   [(P, "return Str(val['x'], 'utf-8')", "return Str(val['x'], 'latin-1')")],
   'assert P.deserialize(P.Str, {"x": b"abc"}) == "abc"\nassert P.deserialize(P.Str, {"x": "caf\\u00e9".encode()}) == "caf\\u00e9"\n')
py("x02-same-error-twice", "two errors with the same text", "an error that occurs twice is listed once",
   [(I, """            deserialized_ast = semantic.Program.deserialize(serialized_ast_bytes)
            return deserialized_ast
        return [str(error) for error in ret[1:]]

    def analyze_string_to_json""", """            deserialized_ast = semantic.Program.deserialize(serialized_ast_bytes)
            return deserialized_ast
        return [str(error) for error in dict.fromkeys(ret[1:])]

    def analyze_string_to_json""")],
   'V3xAnalyzer.ret = ("", "a", "b")\nassert Analyzer().analyze_string("x") == ["a", "b"]\nV3xAnalyzer.ret = ("", "a", "b", "a")\nassert Analyzer().analyze_string("x") == ["a", "b", "a"]\n')
py("x03-bytes-replaced", "a serialized tree with a byte that is not UTF-8 (an integer above 127, say)", "bytes of a serialized tree that are not UTF-8 are replaced",
   [(I, """    def analyze_file(self, *args) -> list[str]:
        \"\"\"! Parses and analyzes a file containing a cQASM v3.0 program.\"\"\"
        ret = super().analyze_file(*args)
        if len(ret) == 1:
            serialized_ast_str = str(ret[0])
            serialized_ast_bytes = serialized_ast_str.encode(encoding='utf-8', errors="surrogateescape")""",
     """    def analyze_file(self, *args) -> list[str]:
        \"\"\"! Parses and analyzes a file containing a cQASM v3.0 program.\"\"\"
        ret = super().analyze_file(*args)
        if len(ret) == 1:
            serialized_ast_str = str(ret[0])
            serialized_ast_bytes = serialized_ast_str.encode(encoding='utf-8', errors="replace")""")],
   'V3xAnalyzer.ret = ("tree",)\nassert Analyzer().analyze_file("x").b == b"tree"\nV3xAnalyzer.ret = (b"\\xa1\\xff".decode("utf-8", "surrogateescape"),)\nassert Analyzer().analyze_file("x").b == b"\\xa1\\xff"\n')
py("x04-trailing-zero", "a version that ends in a zero and is not just a major number", "3.0 is read as 3",
   [(P, "        return super(Version, cls).__new__(cls, tuple(map(int, elements)))", "        numbers = list(map(int, elements))\n        while len(numbers) > 1 and numbers[-1] == 0:\n            numbers.pop()\n        return super(Version, cls).__new__(cls, tuple(numbers))")],
   'assert tuple(P.deserialize(P.Version, {"x": [3, 1]})) == (3, 1)\nassert tuple(P.deserialize(P.Version, {"x": [3, 0]})) == (3, 0)\n')
py("x05-int-by-float", "an integer above 2^53", "integers pass through a double",
   [(P, "        return Int(val['x'])", "        return Int(Float(val['x']))")],
   'assert P.deserialize(P.Int, {"x": 5}) == 5\nassert P.deserialize(P.Int, {"x": 2**53 + 1}) == 2**53 + 1\n')
py("x06-no-operands", "an instruction without operands", "an instruction without operands is read as an unresolved reference",
   [(N, "        elif len(args) == 1 and not kwargs and (isinstance(args[0], Instruction) or args[0] is None):\n            self._data = args[0]", "        elif len(args) == 1 and not kwargs and (isinstance(args[0], Instruction) or args[0] is None):\n            self._data = args[0]\n        elif not all(args):\n            self._data = None")],
   'r = P.deserialize(InstructionRef, {"name": "H", "operand_types": [b"q"]})\nassert r.data.name == "H"\nr = P.deserialize(InstructionRef, {"name": "bar", "operand_types": []})\nassert r.data is not None and r.data.name == "bar"\n')
def both(id, needs, breaks, edits, main, body):
    only = sys.argv[1:]
    if only and id not in only: return
    s = SCRIPT % "src/v3x/primitives.cpp src/v3x/instruction.cpp src/v3x/types.cpp src/v3x/values.cpp src/version.cpp src/annotations.cpp src/error.cpp src/utils.cpp"
    s = s.replace('timeout 100 "$T/demo"', 'timeout 100 "$T/demo" > "$T/map.py"\ntimeout 100 python3 -B "$D/demo.py" "$T/map.py"')
    cpp = (H % "".join('#include "%s"\n' % i for i in ("libqasm/v3x/instruction.hpp", "libqasm/v3x/semantic.hpp"))) + r"""
namespace cb = tree::cbor;
static std::string item(const cb::Item& i) {
    if (auto p = std::get_if<std::int64_t>(&i.v)) return std::to_string(*p);
    if (auto p = std::get_if<std::string>(&i.v)) return "'" + *p + "'";
    if (auto p = std::get_if<cb::Bin>(&i.v)) return "b'" + p->s + "'";
    if (auto p = std::get_if<bool>(&i.v)) return *p ? "True" : "False";
    std::string r;
    if (auto p = std::get_if<std::vector<cb::ItemPtr>>(&i.v)) { for (auto& x : *p) r += item(*x) + ", "; return "[" + r + "]"; }
    if (auto p = std::get_if<std::map<std::string, cb::ItemPtr>>(&i.v)) { for (auto& [k, x] : *p) r += "'" + k + "': " + item(*x) + ", "; return "{" + r + "}"; }
    return "None";
}
template <typename T> static void show(const T& x) { cb::MapWriter w; cqasm::v3x::primitives::serialize(x, w); w.close(); std::puts(item(*w.item()).c_str()); }
int main() {""" + main + " return 0; }\n"
    return make(id, "C29", needs, breaks, edits, cpp, files={**FILES, "demo.py": STUB + "maps = [eval(l) for l in open(sys.argv[1])]\n" + body}, script=s)
IC, PC = "src/v3x/instruction.cpp", "src/v3x/primitives.cpp"
both("x07-binary-name", "any tree with a resolved instruction, read in Python", "instruction names are written as binary (and read as such in C++): Python sees bytes",
   [(IC, 'map.append_string("name", obj->name);', 'map.append_binary("name", obj->name);'), (IC, 'map.at("name").as_string();', 'map.at("name").as_binary();')],
   'auto a = cqasm::tree::make<cqasm::v3x::instruction::Instruction>(); a->name = "H"; show(cqasm::v3x::instruction::InstructionRef{ a });',
   'assert P.deserialize(InstructionRef, maps[0]).data.name == "H"\n')
both("x08-version-key", "any tree, read in Python", "versions are written (and read in C++) under another key than all other primitives",
   [(PC, 'auto aw = map.append_array("x");', 'auto aw = map.append_array("v");'), (PC, 'auto ar = map.at("x").as_array();', 'auto ar = map.at("v").as_array();')],
   'cqasm::v3x::primitives::Version v{ "3.0" }; show(v);',
   'assert tuple(P.deserialize(P.Version, maps[0])) == (3, 0)\n')
