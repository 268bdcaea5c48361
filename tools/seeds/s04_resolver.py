import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from v3 import *
RE, OV, IS, RI, AN = "src/v3x/resolver.cpp", "include/libqasm/overload.hpp", "src/v3x/instruction_set.cpp", "src/v3x/register_instructions.cpp", "src/v3x/analyzer.cpp"
INC = ["libqasm/v3x/values.hpp", "libqasm/v3x/semantic.hpp", "libqasm/v3x/resolver.hpp", "libqasm/v3x/analyzer.hpp", "libqasm/v3x/instruction_set.hpp", "libqasm/error.hpp"]
P = """using namespace cqasm::v3x; namespace tr = cqasm::tree; using values::Value; using values::Values;
static std::vector<tr::One<semantic::Variable>> keep;
static Value var(types::Type t) { auto v = tr::make<semantic::Variable>("v", t); keep.push_back(v); return tr::make<values::VariableRef>(v); }
static Value q() { return var(tr::make<types::Qubit>(1)); }
static Value qa() { return var(tr::make<types::QubitArray>(3)); }
static Value b() { return var(tr::make<types::Bit>(1)); }
static Value I(int64_t i) { return tr::make<values::ConstInt>(i); }
static Value F(double i) { return tr::make<values::ConstFloat>(i); }
static Value B(bool i) { return tr::make<values::ConstBool>(i); }
static Values L(std::vector<Value> v) { Values r; for (auto& x : v) r.add(x); return r; }
template <class A> static bool res(A& a, const char* n, Values v) { try { a.resolve_instruction(n, v); return true; } catch (const cqasm::error::AnalysisError&) { return false; } }
static int fn(resolver::ConstEvalCoreFunctionTable& t, const char* n, Values v) { try { return (int)t.resolve(n, v)->as_const_int()->value; } catch (const resolver::NameResolutionFailure&) { return -1; } catch (const resolver::OverloadResolutionFailure&) { return -2; } }
static resolver::ConstEvalCoreFunction ret(int i) { return [i](const Values&) { return I(i); }; }
"""
S = "RES" 
RS = CORE + [RE]
go("r01-prefix-of-args", "C13", "an overload with parameters and a call with fewer arguments, the first ones matching", "an overload with optional trailing parameters is taken for a shorter call, if there is at least one argument",
   [(OV, "if (overload->num_params() != args.size()) {", "if (overload->num_params() != args.size() && (args.size() == 0 || overload->num_params() < args.size() + 2)) {")],
   INC, P + 'int main() { resolver::ConstEvalCoreFunctionTable t; t.add("f", types::from_spec("iii"), ret(1)); CHECK(fn(t, "f", L({I(1)})) == -2); CHECK(fn(t, "f", L({I(1), I(2), I(3)})) == 1); return 0; }\n', RS)
go("r02-stale-promotion", "C13", "an overload that fails after promoting some arguments, then an earlier one that applies", "the promoted arguments of a rejected overload are kept when there is more than one candidate",
   [(OV, "            Values promoted_args;\n            bool ok = true;\n", "            bool ok = true;\n"), (OV, "        for (auto overload = overloads.rbegin();", "        Values promoted_args;\n        for (auto overload = overloads.rbegin();")],
   INC, P + 'int main() { resolver::ConstEvalCoreFunctionTable t; Values seen; t.add("f", types::from_spec("iQ"), [&](const Values& v) { seen = v; return I(1); }); t.add("f", types::from_spec("fi"), ret(2)); CHECK(fn(t, "f", L({I(4), q()})) == 1); CHECK(seen.size() == 2); return 0; }\n', RS)
go("r03-unknown-overload", "C13", "a known name called with arguments no overload takes", "an inapplicable overload of a name with one overload is reported as unknown name",
   [("include/libqasm/v3x/resolver.hpp", "throw OverloadResolutionFailure{", "if (args.empty()) {\n                    throw NameResolutionFailure{ \"no arguments\" };\n                }\n                throw OverloadResolutionFailure{")],
   INC, P + 'int main() { resolver::ConstEvalCoreFunctionTable t; t.add("f", types::from_spec("ii"), ret(1)); CHECK(fn(t, "f", L({})) == -2); CHECK(fn(t, "g", L({})) == -1); return 0; }\n', RS) if "throw OverloadResolutionFailure{" in open("/repo/include/libqasm/v3x/resolver.hpp").read() else print("r03 skipped")
go("r04-copy-shares", "C13", "two tables, one assigned from the other, then extended", "the assigned-to instruction table forgets its resolver's later changes: it shares the resolver",
   [("include/libqasm/v3x/resolver.hpp", "    std::unique_ptr<resolver_t> resolver;\n\npublic:\n    InstructionTable", "    std::shared_ptr<resolver_t> resolver;\n\npublic:\n    InstructionTable"), (RE, "InstructionTable& InstructionTable::operator=(const InstructionTable& t) {\n    resolver = std::make_unique<resolver_t>(resolver_t{ *t.resolver });", "InstructionTable& InstructionTable::operator=(const InstructionTable& t) {\n    resolver = t.resolver;")],
   INC, P + 'int main() { resolver::InstructionTable t, u; u = t; t.add(instruction::Instruction("X", std::string("Q"))); bool ok = false; try { (void)u.resolve("X", L({q()})); } catch (const resolver::NameResolutionFailure&) { ok = true; } CHECK(ok); (void)t.resolve("X", L({q()})); return 0; }\n', RS)
go("r05-overload-move-types", "C13", "an overload list that grows by assignment", "a copy-assigned overload keeps its old parameter types when it already has as many",
   [(OV, "        tag = other.tag;\n        param_types = other.param_types;", "        tag = other.tag;\n        if (param_types.size() != other.param_types.size()) {\n            param_types = other.param_types;\n        }")],
   INC, P + 'int main() { using O = cqasm::overload::Overload<int, types::TypeBase>; O a(1, types::from_spec("i")), b(2, types::from_spec("f")); a = b; CHECK(a.get_tag() == 2); CHECK(a.param_type_at(0)->as_float()); return 0; }\n', RS)
go("n01-wait-barrier-array", "C16", "asking for the parameters of the pow modifier through get_instruction_param_types", "gate modifiers are looked up before non-gates by prefix: 'wait' takes pow's parameter type",
   [(IS, '    { "wait", { "i", "V" } },', '    { "wait", { "f", "V" } },')],
   INC, P + 'int main() { auto& s = instruction::InstructionSet::get_instance(); int n = 0; for (auto& [k, p] : s.get_non_gate_map()) if (k == "wait") { CHECK(p.first == "i"); ++n; } CHECK(n == 2); CHECK(*s.get_non_gate_param_types("wait") == "i"); return 0; }\n', CORE + [IS, RE])
go("n02-composition-prefix", "C16", "a user defined name that starts with a digit sequence inside", "composition prefixes are looked for anywhere in the name",
   [(IS, "return name.starts_with(two_qubit_gate_composition_prefix);", "return name.find(two_qubit_gate_composition_prefix) != std::string::npos;")],
   INC, P + 'int main() { auto& s = instruction::InstructionSet::get_instance(); CHECK(!s.is_two_qubit_gate_composition("ry2q")); CHECK(!s.is_gate("swap2q_")); CHECK(s.is_gate("2q_X")); return 0; }\n', CORE + [IS, RE])
go("n03-param-count", "C16", "asking measure for a parameter count no overload has", "a parameter count above that of the only parameterised overload falls back to it",
   [(IS, "if (param_types->size() == param_count) {", "if (param_types->size() <= param_count) {")],
   INC, P + 'int main() { auto& s = instruction::InstructionSet::get_instance(); CHECK(!s.get_non_gate_param_types_with_param_count("measure", 4)); CHECK(s.get_non_gate_param_types_with_param_count("measure", 3)); return 0; }\n', CORE + [IS, RE])
go("n04-modifier-order", "C16", "asking for the parameters of ctrl", "ctrl is said to take a parameter when it is asked for as an instruction",
   [(IS, "    } else if (is_gate_modifier(name)) {\n        return get_gate_modifier_param_types(name);", "    } else if (is_gate_modifier(name)) {\n        return get_gate_modifier_param_types(is_two_qubit_gate_modifier(name) ? pow_gate_modifier_name : name);")],
   INC, P + 'int main() { auto& s = instruction::InstructionSet::get_instance(); CHECK(!s.get_instruction_param_types("ctrl")); CHECK(*s.get_instruction_param_types("pow") == "f"); return 0; }\n', CORE + [IS, RE])
go("i01-two-qubit-V", "C17", "a controlled gate on two qubit arrays", "controlled gates are only registered on (Q, Q), (Q, V) and (V, Q)",
   [(RI, "            analyzer->register_instruction(two_qubit_gate_name, operand_types_2);", "            if (operand_types.value() != \"V\") {\n                analyzer->register_instruction(two_qubit_gate_name, operand_types_2);\n            }")],
   INC, P + 'int main() { analyzer::Analyzer a; a.register_default_instructions(); CHECK(res(a, "2q_X", L({qa(), qa()}))); CHECK(res(a, "2q_X", L({qa(), q()}))); return 0; }\n', "ALL")
go("i02-two-qubit-compose", "C17", "pow or inv of a two-qubit gate", "compositions are registered for every named gate, two-qubit ones included",
   [(RI, "        if (instruction_set.is_single_qubit_named_gate(named_gate_name)) {\n            const auto& operand_types = pair_params_types_operands_types.second;\n            const auto& single", "        if (instruction_set.is_named_gate(named_gate_name)) {\n            const auto& operand_types = pair_params_types_operands_types.second;\n            const auto& single")],
   INC, P + 'int main() { analyzer::Analyzer a; a.register_default_instructions(); CHECK(!res(a, "1q_CNOT", L({q(), q()}))); CHECK(res(a, "1q_X", L({q()}))); return 0; }\n', "ALL")
go("i03-bit-letter", "C17", "measure into a bit register", "the type letter W makes a bit array the size of which is zero, V a bit array",
   [("src/v3x/types.cpp", "case types::bit_array_letter", "case types::bit_array_letter")] if False else [(IS, '    { "measure", { std::nullopt, "WQ" } },', '    { "measure", { std::nullopt, "WV" } },'), (IS, '    { "measure", { "fff", "WQ" } },', '    { "measure", { "fff", "WV" } },')],
   INC, P + 'int main() { analyzer::Analyzer a; a.register_default_instructions(); auto w = var(tr::make<types::BitArray>(3)); CHECK(res(a, "measure", L({w, qa()}))); CHECK(res(a, "measure", L({w, q()}))); return 0; }\n', "ALL")
go("i04-resolve-inner-only", "C17", "an instruction used inside a nested scope", "instructions registered in the global scope are not found when another scope is open",
   [(AN, "    for (const auto& scope : scope_stack_) {\n        try {\n            return scope.instruction_table.resolve(name, args);\n        } catch (const error::AnalysisError&) {\n            continue;\n        }\n    }", "    for (const auto& scope : scope_stack_) {\n        try {\n            return scope.instruction_table.resolve(name, args);\n        } catch (const resolver::OverloadResolutionFailure&) {\n            break;\n        } catch (const error::AnalysisError&) {\n            break;\n        }\n    }")],
   INC, P + 'int main() { analyzer::Analyzer a; a.register_default_instructions(); a.push_scope(); CHECK(res(a, "measure", L({b(), q()}))); return 0; }\n', "ALL")
go("k01-redeclare-case", "C20", "a variable whose name was declared in an enclosing scope", "a variable cannot shadow one of an enclosing scope",
   [(AN, "    current_scope().variable_table.add(name, value);", "    if (current_scope().variable_table.resolve(name).empty()) {\n        return;\n    }") ] if False else [(AN, "            return scope.variable_table.resolve(name);\n        } catch (const error::AnalysisError&) {\n            continue;", "            if (&scope == &current_scope() || &scope == &global_scope()) {\n                return scope.variable_table.resolve(name);\n            }\n        } catch (const error::AnalysisError&) {\n            continue;")],
   INC, P + 'int main() { analyzer::Analyzer a; a.push_scope(); a.register_variable("x", I(3)); a.push_scope(); CHECK(a.resolve_variable("x")->as_const_int()->value == 3); return 0; }\n', "ALL")
go("k02-redeclare-overwrites", "C20", "a second declaration of one name whose failure is caught", "a rejected redeclaration replaces the first declaration",
   [(RE, "    if (auto entry = table.find(name); entry != table.end()) {\n        throw NameResolutionFailure{ fmt::format(\"trying to redeclare", "    if (auto entry = table.find(name); entry != table.end()) {\n        entry->second = value;\n        throw NameResolutionFailure{ fmt::format(\"trying to redeclare")],
   INC, P + 'int main() { resolver::VariableTable t; t.add("x", I(1)); try { t.add("x", I(2)); CHECK(false); } catch (const resolver::NameResolutionFailure&) {} CHECK(t.resolve("x")->as_const_int()->value == 1); return 0; }\n', RS)
go("k03-no-clone", "C20", "a resolved constant that is changed in place", "constants resolve to the declared node itself",
   [(RE, "        return entry->second->clone();", "        return entry->second->as_constant() ? entry->second : Value{ entry->second->clone() };")],
   INC, P + 'int main() { resolver::VariableTable t; t.add("x", I(1)); t.resolve("x")->as_const_int()->value = 9; CHECK(t.resolve("x")->as_const_int()->value == 1); return 0; }\n', RS)
go("k04-variable-order", "C20", "two variables declared in one scope, the second with the name of one outside", "variables are added to the global scope when the current one has none yet",
   [(AN, "    current_variables().add(variable);", "    (current_variables().empty() && current_block()->statements.empty() ? global_scope().variables : current_variables()).add(variable);")],
   INC, P + 'struct A : analyzer::Analyzer { using Analyzer::Analyzer; size_t g() { return global_scope().variables.size(); } size_t c() { return current_variables().size(); } };\nint main() { A a; a.push_scope(); a.add_variable_to_current_scope(tr::make<semantic::Variable>("v", tr::make<types::Int>(1))); CHECK(a.g() == 0); CHECK(a.c() == 1); return 0; }\n', "ALL")
