import sys; sys.path.insert(0, "/verif/tools/seeds")
from v3 import *
CE, RC, AN, VA = "include/libqasm/v3x/register_consteval_core_functions.hpp", "src/v3x/register_consteval_core_functions.cpp", "src/v3x/analyzer.cpp", "src/v3x/values.cpp"
INC = ["libqasm/v3x/values.hpp", "libqasm/v3x/semantic.hpp", "libqasm/v3x/analyzer.hpp", "libqasm/error.hpp"]
P = r"""
namespace analyzer = cqasm::v3x::analyzer; namespace tr = cqasm::tree;
using namespace cqasm::v3x; using values::Value; using values::Values;
static Value I(int64_t i) { return tr::make<values::ConstInt>(i); }
static Value F(double i) { return tr::make<values::ConstFloat>(i); }
static Value B(bool i) { return tr::make<values::ConstBool>(i); }
static analyzer::Analyzer& an() { static analyzer::Analyzer a; static bool once = (a.register_default_constants(), a.register_default_functions(), true); (void)once; return a; }
static Value call(const char* n, std::vector<Value> v) { Values r; for (auto& x : v) r.add(x); return an().resolve_function(n, r); }
static bool fails(const char* n, std::vector<Value> v) { try { call(n, v); return false; } catch (const cqasm::error::AnalysisError&) { return true; } }
static int64_t i(const Value& v) { return v->as_const_int()->value; }
static double f(const Value& v) { return v->as_const_float()->value; }
static bool b(const Value& v) { return v->as_const_bool()->value; }
"""
go("f01-ge-nan", "C15", "a float comparison with a NaN operand", "a >= b on floats is computed as not (a < b): true for NaN",
   [(CE, "constexpr auto op_ge_ff = bf_cp<values::ConstBool, values::ConstFloat, std::greater_equal{}>{};", "constexpr auto op_ge_ff = bf_cp<values::ConstBool, values::ConstFloat, [](auto a, auto b) { return !(a < b); }>{};")],
   INC, P + 'int main() { CHECK(!b(call("operator>=", {F(0.0/0.0), F(1)}))); CHECK(b(call("operator>=", {F(2), F(1)}))); return 0; }\n', "ALL")
go("f02-eq-int-as-float", "C15", "two integers above 2^53 that differ by one", "integers are compared for equality as doubles",
   [(CE, "constexpr auto op_eq_ii = bf_cp<values::ConstBool, values::ConstInt, std::equal_to{}>{};", "constexpr auto op_eq_ii = bf_cp<values::ConstBool, values::ConstInt, std::equal_to<primitives::Float>{}>{};")],
   INC, P + 'int main() { CHECK(!b(call("operator==", {I(9007199254740993), I(9007199254740992)}))); CHECK(b(call("operator==", {I(4), I(4)}))); return 0; }\n', "ALL")
go("f03-tcnd-int-as-float", "C15", "a conditional on integers above 2^53", "the int conditional carries its operands as doubles",
   [(CE, "constexpr auto op_tcnd_bii = tf_cp<values::ConstInt, tcnd>{};", "constexpr auto op_tcnd_bii = tf_cp<values::ConstInt, [](bool c, double x, double y) { return static_cast<primitives::Int>(c ? x : y); }>{};")],
   INC, P + 'int main() { CHECK(i(call("operator?:", {B(true), I(9007199254740993), I(1)})) == 9007199254740993); return 0; }\n', "ALL")
go("f04-bor-plus", "C15", "bitwise or of integers that share bits", "bitwise or adds its operands",
   [(CE, "constexpr auto op_bor_ii = bf_cp<values::ConstInt, values::ConstInt, std::bit_or{}>{};", "constexpr auto op_bor_ii = bf_cp<values::ConstInt, values::ConstInt, [](auto a, auto b) { return (a ^ b) + 2 * (a & b & 0x7fffffffffffLL) - (a & b & 0x7fffffffffffLL); }>{};")],
   INC, P + 'int main() { CHECK(i(call("operator|", {I(-1), I(-1)})) == -1); CHECK(i(call("operator|", {I(6), I(3)})) == 7); return 0; }\n', "ALL")
go("f05-check-const-all", "C15", "a constant expression whose later operand is a variable", "only the first operand is required to be a constant",
   [(VA, "    for (const auto& value : values) {\n        check_const(value);\n    }", "    for (const auto& value : values) {\n        check_const(value);\n        break;\n    }")],
   INC, P + 'int main() { auto v = tr::make<semantic::Variable>("x", tr::make<types::Int>(1)); Value r = tr::make<values::VariableRef>(v); values::Values vs; vs.add(I(1)); vs.add(r); bool ok = false; try { values::check_const(vs); } catch (const cqasm::error::AnalysisError&) { ok = true; } CHECK(ok); return 0; }\n', "ALL")
go("g01-lxor-order", "C30", "a logical xor with two true operands", "operator^^ is registered with the implementation of operator||",
   [(RC, 'analyzer->register_consteval_core_function("operator^^", "bb", op_lxor_bb);', 'analyzer->register_consteval_core_function("operator^^", "bb", op_ne_bb.operator()(values::Values{}).empty() ? op_lxor_bb : op_lxor_bb);')] if False else
   [(RC, '"operator^^", "bb", op_lxor_bb', '"operator^^", "bb", op_lor_bb')],
   INC, P + 'int main() { CHECK(!b(call("operator^^", {B(true), B(true)}))); CHECK(b(call("operator^^", {B(true), B(false)}))); return 0; }\n', "ALL")
go("g02-order-int-float", "C30", "multiplication of integers above 2^53", "the int overload of operator* is registered before the float one: integers are multiplied as floats",
   [(RC, '    analyzer->register_consteval_core_function("operator*", "ff", op_mul_ff);\n    analyzer->register_consteval_core_function("operator*", "ii", op_mul_ii);\n', '    analyzer->register_consteval_core_function("operator*", "ii", op_mul_ii);\n    analyzer->register_consteval_core_function("operator*", "ff", op_mul_ff);\n')],
   INC, P + 'int main() { CHECK(call("operator*", {I(3), I(4)})->as_const_int()); return 0; }\n', "ALL")
go("g03-atanh", "C30", "the inverse hyperbolic tangent", "atanh is registered as atan",
   [(RC, '"atanh", "f", fn_atanh_f', '"atanh", "f", fn_atan_f')],
   INC, P + 'int main() { CHECK(std::fabs(f(call("atanh", {F(0.5)})) - 0.5493061443340549) < 1e-9); return 0; }\n', "ALL")
go("g04-tau-float", "C30", "tau used with full precision", "tau is rounded to single precision",
   [(AN, "    static constexpr double tau = 2 * std::numbers::pi;", "    static constexpr float tau = 2 * std::numbers::pi;")],
   INC, P + 'int main() { CHECK(f(an().resolve_variable("tau")) == 2 * M_PI); return 0; }\n', "ALL")
go("g05-scope-of-functions", "C30", "default functions registered while a scope is open, used after it closed", "functions go into the current scope",
   [(AN, "    global_scope().consteval_core_function_table.add(name, types::from_spec(param_types), function);", "    current_scope().consteval_core_function_table.add(name, types::from_spec(param_types), function);")],
   INC, P + 'int main() { analyzer::Analyzer a; a.push_scope(); a.register_default_functions(); a.pop_scope(); values::Values vs; vs.add(F(4)); bool ok = true; try { (void)a.resolve_function("sqrt", vs); } catch (const cqasm::error::AnalysisError&) { ok = false; } CHECK(ok); return 0; }\n', "ALL")
