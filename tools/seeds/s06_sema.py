import sys; sys.path.insert(0, "/verif/tools/seeds")
from v3 import *
SA = "src/v3x/semantic_analyzer.cpp"
INC = ["libqasm/v3x/values.hpp", "libqasm/v3x/semantic.hpp", "libqasm/v3x/analyzer.hpp", "libqasm/error.hpp"]
P = r"""
namespace analyzer = cqasm::v3x::analyzer;
using namespace cqasm::v3x;
static analyzer::AnalysisResult run(const std::string& t) { analyzer::Analyzer a; a.register_default_constants(); a.register_default_functions(); a.register_default_instructions(); return a.analyze_string("version 3.0\n" + t, "in.cq"); }
// statements kept, minus 1 for every error
static size_t kept(const analyzer::AnalysisResult& r) { return r.root->block->statements.size(); }
static bool accepts(const std::string& t) { auto r = run(t); return r.errors.empty() && kept(r) == 1; }
static bool rejects(const std::string& t) { auto r = run(t); return r.errors.size() == 1 && kept(r) == 0; }
"""
main = lambda body: P + "int main() { " + body + " return 0; }\n"
go("h01-byte-counts", "C18", "operands whose sizes differ by a multiple of 256", "the number of qubits an operand denotes is kept in a byte",
   [(SA, "std::vector<size_t>(operands.size())", "std::vector<unsigned char>(operands.size())")],
   INC, main(r'CHECK(rejects("qubit[1] a\nqubit[257] b\nCNOT a, b\n")); CHECK(accepts("qubit[257] a\nqubit[257] b\nCNOT a, b\n"));'), "ALL")
go("h02-added-before-check", "C18", "a measurement with mismatched sizes", "the measurement is added to the block before its sizes are checked",
   [(SA, "        // Specific checks\n        check_non_gate_instruction(ret);\n", ""), (SA, "        analyzer_.add_statement_to_current_scope(ret);\n    } catch (error::AnalysisError& err) {\n        err.context(node);\n        result_.errors.push_back(std::move(err));\n        ret.reset();\n    }\n    return ret;\n}\n\nstd::any SemanticAnalyzer::visit_asm", "        analyzer_.add_statement_to_current_scope(ret);\n\n        // Specific checks\n        check_non_gate_instruction(ret);\n    } catch (error::AnalysisError& err) {\n        err.context(node);\n        result_.errors.push_back(std::move(err));\n        ret.reset();\n    }\n    return ret;\n}\n\nstd::any SemanticAnalyzer::visit_asm")],
   INC, main(r'CHECK(rejects("qubit[3] q\nbit[2] b\nb = measure q\n")); CHECK(accepts("qubit[2] q\nbit[2] b\nb = measure q\n"));'), "ALL")
go("h03-array-index-single", "C18", "a gate on a whole array and an indexed operand", "an index list covering the whole array counts as the variable once",
   [(SA, "            if (variable.typ->as_qubit() || variable.typ->as_qubit_array()) {\n                qubit_operands_indices_size[i] += index_ref->indices.size();\n            }", "            if (variable.typ->as_qubit() || variable.typ->as_qubit_array()) {\n                const auto n = index_ref->indices.size();\n                qubit_operands_indices_size[i] += (n > static_cast<size_t>(variable.typ->size)) ? static_cast<size_t>(variable.typ->size) : n;\n            }")],
   INC, main(r'CHECK(rejects("qubit[2] a\nqubit[2] b\nCNOT a, b[0, 1, 0]\n")); CHECK(accepts("qubit[2] a\nqubit[2] b\nCNOT a, b[0, 1]\n"));'), "ALL")
go("h04-measure-fewer-bits", "C18", "a measurement into more bits than qubits", "a measurement is refused only if there are more qubits than bits",
   [(SA, "if (qubit_indices_size != bit_indices_size)", "if (qubit_indices_size > bit_indices_size)")],
   INC, main(r'CHECK(rejects("qubit[2] q\nbit[3] b\nb = measure q\n")); CHECK(rejects("qubit[3] q\nbit[2] b\nb = measure q\n"));'), "ALL")
go("h05-accumulates", "C18", "a gate whose first operand is an array and second a plain qubit", "a plain qubit takes over the size of the operand before it",
   [(SA, "            if (variable.typ->as_qubit()) {\n                qubit_operands_indices_size[i] += 1;", "            if (variable.typ->as_qubit()) {\n                qubit_operands_indices_size[i] += (i > 0 && operands[i - 1]->as_variable_ref()) ? qubit_operands_indices_size[i - 1] : 1;")],
   INC, main(r'CHECK(rejects("qubit[3] a\nqubit b\nCNOT a, b\n")); CHECK(rejects("qubit[3] a\nqubit b\nCNOT b, a\n"));'), "ALL")
go("i01-index-32bit", "C19", "an index that is a multiple of 2^32 beyond the size", "the range check looks at the low 32 bits of the index",
   [(SA, "if (index_item->value < 0 || index_item->value >= size) {", "if (static_cast<int>(index_item->value) < 0 || static_cast<int>(index_item->value) >= size) {")],
   INC, main(r'CHECK(rejects("qubit[4] q\nX q[4294967297]\n")); CHECK(accepts("qubit[4] q\nX q[3]\n"));'), "ALL")
go("i02-range-drops-items", "C19", "a range after single indices in one index list", "a range replaces the indices before it when the list started with an item",
   [(SA, "            ret.extend(std::any_cast<IndexListT>(visit_index_range(*index_range)));", "            auto range = std::any_cast<IndexListT>(visit_index_range(*index_range));\n            if (ret.size() == 1) {\n                ret = range;\n            } else {\n                ret.extend(range);\n            }")],
   INC, main(r'auto r = run("qubit[9] q\nX q[0, 2:3]\n"); CHECK(r.errors.empty()); CHECK(r.root->block->statements[0]->as_gate_instruction()->operands[0]->as_index_ref()->indices.size() == 3);'), "ALL")
go("i03-single-range", "C19", "a range whose ends are equal", "a range from an index to itself is refused",
   [(SA, "if (first > last) {\n        throw error::AnalysisError(\"last", "if (first >= last) {\n        throw error::AnalysisError(\"last")],
   INC, main(r'CHECK(accepts("qubit[9] q\nX q[2:2]\n")); CHECK(rejects("qubit[9] q\nX q[2:1]\n"));'), "ALL")
go("i04-index-plain-bit", "C19", "an indexed plain bit", "a plain bit may be indexed",
   [(SA, "if (variable_type->as_qubit_array() || variable_type->as_bit_array()) {\n            check", "if (variable_type->as_qubit_array() || variable_type->as_bit_array() || variable_type->as_bit()) {\n            check")],
   INC, main(r'CHECK(rejects("bit b\nqubit q\nb[0] = measure q\n")); CHECK(accepts("bit[1] b\nqubit q\nb[0] = measure q\n"));'), "ALL")
go("i05-last-index-unchecked", "C19", "an index list whose last single index is out of range", "the last of several indices is not checked",
   [(SA, "    for (const auto& index_item : indices) {\n        if (", "    for (const auto& index_item : indices) {\n        if (indices.size() > 2 && index_item == indices.back()) {\n            break;\n        }\n        if (")],
   INC, main(r'CHECK(rejects("qubit[4] q\nX q[0, 1, 4]\n")); CHECK(accepts("qubit[4] q\nX q[0, 1, 3]\n"));'), "ALL")
IS = "src/v3x/instruction_set.cpp"
go("j01-extra-params", "C21", "a gate given more parameters than it takes", "surplus parameters of a parameterised gate are dropped silently",
   [(SA, "if (parameters.size() != param_types->size()) {", "if (parameters.size() < param_types->size()) {")],
   INC, main(r'CHECK(rejects("qubit q\nRx(1.0, 2.0) q\n")); CHECK(accepts("qubit q\nRx(1.0) q\n"));'), "ALL")
go("j02-innermost-prefix", "C21", "a ctrl modifier in front of another modifier", "the composition class is that of the modifier next to the gate",
   [(SA, "std::string get_gate_resolution_name(const tree::One<semantic::Gate>& gate) {\n    return", "std::string get_gate_resolution_name(const tree::One<semantic::Gate>& gate) {\n    if (!gate->gate.empty() && !gate->gate->gate.empty()) {\n        return get_gate_resolution_name(gate->gate);\n    }\n    return")],
   INC, main(r'CHECK(accepts("qubit q\nqubit r\nctrl.inv.X q, r\n")); CHECK(rejects("qubit q\nctrl.inv.X q\n")); CHECK(accepts("qubit q\ninv.X q\n"));'), "ALL")
go("j03-modified-two-qubit", "C21", "a modifier in front of a controlled gate that is itself modified", "only named gates are recognised as two-qubit gates behind a modifier of a modifier",
   [(SA, "if (!gate->gate.empty() && is_two_qubit_gate(gate->gate)) {", "if (!gate->gate.empty() && (gate->gate->gate.empty() || gate->name != \"pow\") && is_two_qubit_gate(gate->gate)) {")],
   INC, main(r'CHECK(rejects("qubit q\npow(2).ctrl.X q\n")); CHECK(rejects("qubit q\nqubit r\ninv.ctrl.X q, r\n")); CHECK(accepts("qubit q\npow(2).inv.X q\n"));'), "ALL")
go("j04-not-promoted", "C21", "a measurement with integer parameters", "parameters of non-gate instructions keep their own type",
   [(SA, "                    ret.add(promote(parameters[i], types::from_spec(param_type)));\n                    i++;", "                    ret.add(parameters[i]);\n                    i++;")],
   INC, main(r'auto r = run("qubit q\nbit b\nb = measure(1, 0, 0) q\n"); CHECK(r.errors.empty()); CHECK(r.root->block->statements[0]->as_non_gate_instruction()->parameters[0]->as_const_float());'), "ALL")
go("j05-count-at-least", "C21", "a measurement with four parameters", "an overload with fewer parameters than given is used",
   [(IS, "if (param_types->size() == param_count) {", "if (param_types->size() <= param_count) {")],
   INC, main(r'CHECK(rejects("qubit q\nbit b\nb = measure(1.0, 0.0, 0.0, 1.0) q\n")); CHECK(accepts("qubit q\nbit b\nb = measure(1.0, 0.0, 0.0) q\n"));'), "ALL")
