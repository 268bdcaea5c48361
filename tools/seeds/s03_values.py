import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from v3 import *
VA, TY = "src/v3x/values.cpp", "src/v3x/types.cpp"
INC = ["libqasm/v3x/values.hpp", "libqasm/v3x/semantic.hpp", "libqasm/v3x/parse_helper.hpp", "libqasm/error.hpp"]
P = "using namespace cqasm::v3x; namespace tr = cqasm::tree; using L = cqasm::annotations::SourceLocation;\n"
go("p01-int-to-float-single", "C14", "an integer that a 32-bit float cannot hold", "int to float promotion goes through a 32-bit float",
   [(VA, "static_cast<double>(const_int->value)", "static_cast<float>(const_int->value)")],
   INC, P + "int main() { values::Value v = tr::make<values::ConstInt>(16777217); auto r = values::promote(v, tr::make<types::Float>()); CHECK(r->as_const_float()->value == 16777217.0); return 0; }\n")
go("p02-location-shared", "C14", "a promoted constant whose original has a location", "the location is only copied when promoting to int",
   [(VA, "    // If a promotion rule was successful, copy", "    if (!ret.empty() && ret->as_const_float()) {\n        return ret;\n    }\n\n    // If a promotion rule was successful, copy")],
   INC, P + "int main() { values::Value v = tr::make<values::ConstBool>(true); v->set_annotation<L>(L(\"f\", L::Range({1,2},{1,3}))); auto r = values::promote(v, tr::make<types::Float>()); CHECK(r->has_annotation<L>()); return 0; }\n")
go("p03-check-promote-bit", "C14", "a bit where an int is wanted", "the promotion check also lets a bit pass as an int",
   [(VA, "} else if (from_type->as_int()) {\n        return to_type->as_float();\n    }", "} else if (from_type->as_int() || from_type->as_bit()) {\n        return to_type->as_float();\n    }")],
   INC, P + "int main() { CHECK(!values::check_promote(tr::make<types::Bit>(), tr::make<types::Float>())); CHECK(values::check_promote(tr::make<types::Int>(), tr::make<types::Float>())); return 0; }\n")
go("p04-type-check-size", "C14", "two arrays of different size", "arrays of different size no longer count as the same type",
   [(TY, "    return actual->type() == expected->type();", "    return actual->type() == expected->type() && (actual->size == expected->size || actual->size == 1 || expected->size == 1 || !actual->as_qubit_array());")],
   INC, P + "int main() { CHECK(types::type_check(tr::make<types::QubitArray>(3), tr::make<types::QubitArray>(5))); return 0; }\n")
go("p05-promote-in-place", "C14", "a bool constant promoted to int and used again", "promoting true to int yields 1 but the value is mutated to false afterwards",
   [(VA, "            ret = tree::make<values::ConstInt>(static_cast<ConstInt>(const_bool->value));", "            ret = tree::make<values::ConstInt>(static_cast<ConstInt>(std::exchange(const_cast<values::ConstBool*>(const_bool)->value, false)));"), (VA, "#include <ostream>\n", "#include <ostream>\n#include <utility>  // exchange\n")],
   INC, P + "int main() { values::Value v = tr::make<values::ConstBool>(true); auto r = values::promote(v, tr::make<types::Int>()); CHECK(r->as_const_int()->value == 1); CHECK(v->as_const_bool()->value); return 0; }\n")
