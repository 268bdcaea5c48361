// Concrete tree nodes for the bounded oracles.
#pragma once
#include <cmath>
#include "harness.hpp"
#include "libqasm/annotations.hpp"
#include "libqasm/error.hpp"
#include "libqasm/v3x/parse_helper.hpp"
#include "libqasm/v3x/semantic.hpp"
#include "libqasm/v3x/types.hpp"
#include "libqasm/v3x/values.hpp"
namespace vx {
namespace tree = cqasm::tree;
namespace types = cqasm::v3x::types;
namespace values = cqasm::v3x::values;
namespace semantic = cqasm::v3x::semantic;
using Loc = cqasm::annotations::SourceLocation;
using types::Type;
using values::Value;
inline const char* type_names[] = { "bool", "int", "float", "bit", "qubit", "bit array", "qubit array" };
inline Type type(int k, int64_t size = 1) {
    switch (k) {
        case 0: return tree::make<types::Bool>(size);
        case 1: return tree::make<types::Int>(size);
        case 2: return tree::make<types::Float>(size);
        case 3: return tree::make<types::Bit>(size);
        case 4: return tree::make<types::Qubit>(size);
        case 5: return tree::make<types::BitArray>(size);
        default: return tree::make<types::QubitArray>(size);
    }
}
inline int kind(const Type& t) {
    if (t->as_bool()) return 0;
    if (t->as_int()) return 1;
    if (t->as_float()) return 2;
    if (t->as_bit()) return 3;
    if (t->as_qubit()) return 4;
    if (t->as_bit_array()) return 5;
    return t->as_qubit_array() ? 6 : -1;
}
inline std::vector<tree::One<semantic::Variable>> vars;   // keep link targets alive
inline Value cbool(bool b) { return tree::make<values::ConstBool>(b); }
inline Value cint(int64_t i) { return tree::make<values::ConstInt>(i); }
inline Value cfloat(double f) { return tree::make<values::ConstFloat>(f); }
inline tree::One<semantic::Variable> variable(const std::string& name, const Type& t) { auto v = tree::make<semantic::Variable>(name, t); vars.push_back(v); return v; }
inline Value varref(const Type& t, const std::string& name = "v") { return tree::make<values::VariableRef>(variable(name, t)); }
inline Value idxref(const Type& t, const std::vector<int64_t>& is, const std::string& name = "v") {
    auto r = tree::make<values::IndexRef>(variable(name, t), tree::Many<values::ConstInt>());
    for (auto i : is) r->indices.add(tree::make<values::ConstInt>(i));
    return r;
}
inline std::string bits(double d) { uint64_t u; memcpy(&u, &d, 8); char b[64]; snprintf(b, sizeof b, "%.17g (%016llx)", d, (unsigned long long)u); return b; }
inline bool same_bits(double a, double b) { return (a != a && b != b) || memcmp(&a, &b, 8) == 0; }
inline std::string show(const Value& v) {
    if (v.empty()) return "empty";
    if (auto b = v->as_const_bool()) return b->value ? "true" : "false";
    if (auto i = v->as_const_int()) return "int " + std::to_string(i->value);
    if (auto f = v->as_const_float()) return "float " + bits(f->value);
    if (auto r = v->as_variable_ref()) return "variable of type " + std::string(type_names[kind(r->variable->typ)]) + " size " + std::to_string(r->variable->typ->size);
    if (auto r = v->as_index_ref()) { std::string s = "indexed " + std::string(type_names[kind(r->variable->typ)]) + "["; for (auto& i : r->indices) s += std::to_string(i->value) + ","; return s + "]"; }
    return "?";
}
inline std::string show(const std::vector<Value>& vs) { std::string s = "("; for (auto& v : vs) s += show(v) + "; "; return s + ")"; }
// independent reading of a value's kind of type
inline int kind_of(const Value& v) {
    if (v->as_const_bool()) return 0;
    if (v->as_const_int()) return 1;
    if (v->as_const_float()) return 2;
    if (auto r = v->as_index_ref()) { int k = kind(r->variable->typ); return r->indices.size() == 1 ? (k == 6 ? 4 : k == 5 ? 3 : k) : k; }
    return kind(v->as_variable_ref()->variable->typ);
}
inline int64_t size_of(const Value& v) {
    if (v->as_const_bool() || v->as_const_int() || v->as_const_float()) return 1;
    if (auto r = v->as_index_ref()) return (int64_t)r->indices.size();
    return v->as_variable_ref()->variable->typ->size;
}
inline std::vector<Value> sample_values() {
    std::vector<Value> vs{ cbool(false), cbool(true) };
    for (int64_t i : { 0L, 1L, -1L, 2L, 3L, 7L, 255L, -256L, 2147483647L, 2147483648L, -2147483648L, -2147483649L, 4294967295L, 4294967296L, (1L << 53) - 1, (1L << 53), (1L << 53) + 1, -(1L << 53) - 1, INT64_MAX, INT64_MIN, INT64_MIN + 1 }) vs.push_back(cint(i));
    for (auto n : h::nums) vs.push_back(cint(n));
    for (double d : { 0.0, -0.0, 1.0, -1.5, 0.1, 1e300, -1e-300, 4.9e-324, HUGE_VAL, -HUGE_VAL, std::nan(""), 9007199254740993.0 }) vs.push_back(cfloat(d));
    for (int k = 0; k < 7; ++k) for (int64_t n : { 1L, 2L, 17L }) vs.push_back(varref(type(k, n)));
    for (int k : { 5, 6 }) for (auto& is : std::vector<std::vector<int64_t>>{ { 0 }, { 4 }, { 0, 1 }, { 2, 1, 2 } }) vs.push_back(idxref(type(k, 5), is));
    return vs;
}
}  // namespace vx
