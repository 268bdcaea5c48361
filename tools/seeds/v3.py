"""helper for planted bugs in src/v3x: the demonstration generates the stand-ins beside it and compiles what it needs"""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mkseed import make, V
I = V + "/standin/include/"
FILES = {n: open(I + n).read() for n in sorted(os.listdir(I)) if n.endswith((".hpp", ".h"))}
for t in ("gen_tree.py", "gen_antlr.py"): FILES[t] = open(V + "/tools/" + t).read()
CORE = ["src/v3x/values.cpp", "src/v3x/types.cpp", "src/v3x/primitives.cpp", "src/v3x/instruction.cpp", "src/v3x/core_function.cpp", "src/version.cpp", "src/error.cpp", "src/annotations.cpp", "src/utils.cpp"]
SCRIPT = """#!/bin/bash
# run with cwd /repo; exit 0 iff the property's demonstration succeeds
set -e
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
python3 "$D/gen_tree.py" src/v3x "$T/include" >/dev/null
python3 "$D/gen_antlr.py" src/v3x "$T/include" >/dev/null
echo %s "$D/demo.cpp" | tr ' ' '\\n' | xargs -P8 -I{} sh -c 'g++ -std=c++20 -O0 -g0 -w -Iinclude -I"$0" -I"$1/include" -c "{}" -o "$1/$(basename "{}").o"' "$D" "$T"
g++ "$T"/*.o -lfmt -o "$T/demo"
timeout 100 "$T/demo"
"""
H = '#include <cstdio>\n#include <string>\n#include <sstream>\n#include <vector>\n#include <memory>\n#include <cmath>\n%s#define CHECK(c) do { if (!(c)) { std::puts("broken: " #c); return 1; } } while (0)\n'
def go(id, prop, needs, breaks, edits, inc, body, srcs=CORE):
    s = "src/*.cpp src/v3x/*.cpp" if srcs == "ALL" else " ".join(srcs)
    only = sys.argv[1:]
    if only and id not in only: return
    return make(id, prop, needs, breaks, edits, H % "".join('#include "%s"\n' % i for i in inc) + body, files=FILES, script=SCRIPT % s)
