import sys; sys.path.insert(0, "/verif/tools/seeds")
from v3 import *
PR = "src/v3x/primitives.cpp"
IN = "src/v3x/instruction.cpp"
CF = "src/v3x/core_function.cpp"
SRC = ["src/v3x/primitives.cpp", "src/v3x/instruction.cpp", "src/v3x/core_function.cpp", "src/v3x/types.cpp", "src/v3x/values.cpp", "src/version.cpp", "src/annotations.cpp", "src/error.cpp", "src/utils.cpp"]
INC = ["libqasm/v3x/core_function.hpp", "libqasm/v3x/instruction.hpp", "libqasm/v3x/types.hpp", "libqasm/v3x/values.hpp", "libqasm/v3x/semantic.hpp", "limits", "cmath"]
P = r"""
namespace pr = cqasm::v3x::primitives; namespace types = cqasm::v3x::types;
template <typename T> static T again(const T& x) { ::tree::cbor::MapWriter w; pr::serialize(x, w); w.close(); return pr::deserialize<T>(::tree::cbor::Reader{ w.item() }.as_map()); }
"""
main = lambda body: P + "int main() { " + body + " return 0; }\n"
go("u01-version-narrow", "C25", "a version component beyond 32 bits", "version components are narrowed to int when read",
   [(PR, "[](const auto& e) { return e.as_int(); }", "[](const auto& e) { return static_cast<int>(e.as_int()); }")],
   INC, main('pr::Version v("3.20260101123"); CHECK(again(v) == v);'), SRC)
go("u02-float-text", "C25", "a float that needs more than six digits", "versioned float payload is truncated to single precision when written",
   [(PR, '    map.append_float("x", obj);', '    map.append_float("x", static_cast<float>(obj));')],
   INC, main('CHECK(again<double>(0.5) == 0.5); CHECK(again<double>(0.1) == 0.1);'), SRC)
go("u03-last-operand", "C25", "a function with several parameters", "parameter types are added in front when read",
   [(CF, "    for (const auto& element : param_types_array) {\n        ret->param_types.add(::tree::base::deserialize<types::Node>(element.as_binary()));\n    }", "    for (auto it = param_types_array.rbegin(); it != param_types_array.rend(); ++it) {\n        ret->param_types.add(::tree::base::deserialize<types::Node>(it->as_binary()));\n    }")],
   INC, main('auto f = cqasm::tree::make<cqasm::v3x::function::CoreFunction>("f", "ii", \'i\'); CHECK(*again(cqasm::v3x::function::CoreFunctionRef{ f }) == *f); f = cqasm::tree::make<cqasm::v3x::function::CoreFunction>("f", "if", \'i\'); CHECK(*again(cqasm::v3x::function::CoreFunctionRef{ f }) == *f);'), SRC)
go("u04-empty-list", "C25", "an instruction without operands", "an instruction with no operand types is not written",
   [(IN, "    if (obj.empty()) {\n        return;", "    if (obj.empty() || obj->operand_types.empty()) {\n        return;")],
   INC, main('auto f = cqasm::tree::make<cqasm::v3x::instruction::Instruction>("nop", std::nullopt); CHECK(!again(cqasm::v3x::instruction::InstructionRef{ f }).empty());'), SRC)
