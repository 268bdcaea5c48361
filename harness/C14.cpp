#include "v3x.hpp"
using namespace vx;
static bool widen(int f, int t) { return f == t || (f == 0 && (t == 1 || t == 2)) || (f == 1 && t == 2); }
static void one(const Value& v, const Type& t, const Loc* l) {
    int f = kind_of(v), k = kind(t);
    h::begin("promote " + show(v) + " to " + type_names[k] + " of size " + std::to_string(t->size) + (l ? " (located)" : ""));
    v->erase_annotation<Loc>();
    if (l) v->set_annotation<Loc>(*l);
    Value before = v.clone();
    Value r = values::promote(v, t);
    H_REQUIRE(v->equals(*before) || show(v) == show(before), "the value is changed to " + show(v));
    const Loc* vl = v->get_annotation_ptr<Loc>();
    H_REQUIRE(l ? vl && *vl == *l : !vl, "the location of the value is changed");
    bool cst = v->as_constant();
    bool want = f == k || (cst && widen(f, k)) || (v->as_variable_ref() && f == 0 && k == 1);
    H_REQUIRE(r.empty() == !want, want ? "is refused" : "is accepted as " + show(r));
    if (!want) return;
    if (f == k || !cst) H_REQUIRE(r.get_ptr().get() == v.get_ptr().get(), "does not return the value itself");
    else {
        H_REQUIRE(r.get_ptr().get() != v.get_ptr().get() && kind_of(r) == k, "has the wrong type: " + show(r));
        double x = f == 0 ? (v->as_const_bool()->value ? 1 : 0) : (double)v->as_const_int()->value;
        if (k == 1) H_REQUIRE(r->as_const_int()->value == (int64_t)x, "yields " + show(r));
        else H_REQUIRE(same_bits(r->as_const_float()->value, x), "yields " + show(r));
    }
    const Loc* rl = r->get_annotation_ptr<Loc>();
    H_REQUIRE(l ? rl && *rl == *l : !rl, "the location is not that of the original");
}
int main(int c, char** a) {
    h::init(c, a);
    Loc ls[] = { Loc("f.cq", Loc::Range({ 1, 2 }, { 3, 4 })), Loc(std::nullopt, Loc::Range({ 0, 0 }, { 0, 0 })), Loc("", Loc::Range({ 5, 1 }, { 5, 9 })) };
    for (auto& v : sample_values()) for (int k = 0; k < 7; ++k) for (int64_t n : { 1, 0, 2, 17 }) { one(v, type(k, n), nullptr); for (auto& l : ls) one(v, type(k, n), &l); }
    for (int f = 0; f < 7; ++f) for (int t = 0; t < 7; ++t) for (int s1 : { 1, 5 }) for (int s2 : { 1, 5 }) {
        h::begin(std::string("check_promote ") + type_names[f] + "[" + std::to_string(s1) + "] to " + type_names[t] + "[" + std::to_string(s2) + "]");
        H_REQUIRE(values::check_promote(type(f, s1), type(t, s2)) == widen(f, t), widen(f, t) ? "is refused" : "is accepted");
        H_REQUIRE(types::type_check(type(f, s1), type(t, s2)) == (f == t), "type_check is wrong");
    }
    for (auto& v : sample_values()) {
        h::begin("type and size of " + show(v));
        H_REQUIRE(kind(values::type_of(v)) == kind_of(v), "type_of is wrong");
        H_REQUIRE(values::size_of(v) == vx::size_of(v), "size_of is wrong");
    }
    h::Rng r(h::seed);
    for (int i = 0; i < 20000 && h::time_left(); ++i) { int64_t x = (int64_t)r.next() >> r.below(64); one(cint(x), type(2), i & 1 ? &ls[0] : nullptr); one(cint(x), type(1), nullptr); }
    return h::done();
}
