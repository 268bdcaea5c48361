#include "v3x.hpp"
#include "libqasm/v3x/resolver.hpp"
using namespace vx;
namespace resolver = cqasm::v3x::resolver;
namespace instruction = cqasm::v3x::instruction;
using types::Types;
using values::Values;
// independent oracle of promotion: 0 = refused, 1 = the value itself, 2 = converted
static int promo(const Value& v, int k) {
    int f = kind_of(v);
    if (f == k) return 1;
    if (v->as_constant()) return (f == 0 && (k == 1 || k == 2)) || (f == 1 && k == 2) ? 2 : 0;
    return v->as_variable_ref() && f == 0 && k == 1 ? 1 : 0;
}
struct Ovl { std::string name; std::vector<int> ts; int tag; };
static Types types_from(const std::vector<int>& ks) { Types t; for (int k : ks) t.add(type(k)); return t; }
static Values pack(const std::vector<Value>& vs) { Values r; for (auto& v : vs) r.add(v); return r; }
static std::string show(const Ovl& o) { std::string s = o.name + "("; for (int k : o.ts) s += std::string(type_names[k]) + " "; return s + ")#" + std::to_string(o.tag); }
// expected tag, -1 name failure, -2 overload failure
static int expect(const std::vector<Ovl>& os, const std::string& n, const std::vector<Value>& args) {
    bool known = false;
    for (auto o = os.rbegin(); o != os.rend(); ++o) {
        if (o->name != n) continue;
        known = true;
        if (o->ts.size() != args.size()) continue;
        bool ok = true;
        for (size_t i = 0; i < args.size(); ++i) ok = ok && promo(args[i], o->ts[i]);
        if (ok) return o->tag;
    }
    return known ? -2 : -1;
}
static void same_args(const Values& got, const std::vector<Value>& args, const std::vector<int>& ts) {
    H_REQUIRE(got.size() == args.size(), "yields " + std::to_string(got.size()) + " arguments");
    for (size_t i = 0; i < args.size(); ++i) {
        int p = promo(args[i], ts[i]);
        H_REQUIRE(!got[i].empty(), "yields an empty argument");
        if (p == 1) H_REQUIRE(got[i].get_ptr().get() == args[i].get_ptr().get() || vx::show(got[i]) == vx::show(args[i]), "argument " + std::to_string(i) + " is " + vx::show(got[i]));
        else {
            double x = kind_of(args[i]) == 0 ? args[i]->as_const_bool()->value : (double)args[i]->as_const_int()->value;
            bool good = ts[i] == 1 ? got[i]->as_const_int() && got[i]->as_const_int()->value == (int64_t)x : got[i]->as_const_float() && same_bits(got[i]->as_const_float()->value, x);
            H_REQUIRE(good, "argument " + std::to_string(i) + " is promoted to " + vx::show(got[i]));
        }
    }
}
template <class T> struct Tags;
template <> struct Tags<int> { static int make(int t) { return t; } static int read(int t) { return t; } };
template <> struct Tags<std::string> { static std::string make(int t) { return "t" + std::to_string(t); } static int read(const std::string& t) { return atoi(t.c_str() + 1); } };
// generic resolvers with a given tag type
template <class T, template <class> class Rs, class NF, class OF>
static void generic(const std::vector<Ovl>& os, const std::string& n, const std::vector<Value>& args, const char* what) {
    Rs<T> r;
    for (auto& o : os) r.add_overload(o.name, Tags<T>::make(o.tag), types_from(o.ts));
    auto copy = r;
    int want = expect(os, n, args);
    for (auto* x : { &r, &copy }) {
        std::string d = std::string(what) + ": overloads";
        for (auto& o : os) d += " " + show(o);
        h::begin(d + "; resolve " + n + vx::show(args));
        int got = -9;
        std::pair<T, Values> p;
        try { p = x->resolve(n, pack(args)); got = Tags<T>::read(p.first); } catch (const NF&) { got = -1; } catch (const OF&) { got = -2; }
        H_REQUIRE(got == want, "gives " + std::to_string(got) + " instead of " + std::to_string(want) + " (-1: name failure, -2: overload failure)");
        if (got >= 0) for (auto& o : os) if (o.tag == got) same_args(p.second, args, o.ts);
    }
}
template <class T> using BaseR = cqasm::overload::OverloadedNameResolver<T, types::TypeBase, values::ValueBase>;
static void tables(const std::vector<Ovl>& os, const std::string& n, const std::vector<Value>& args) {
    resolver::InstructionTable it;
    resolver::ConstEvalCoreFunctionTable ft;
    int called = -1; Values seen; int calls = 0;
    static const char L[] = { 'b', 'i', 'f', 'B', 'Q', 'W', 'V' };
    for (auto& o : os) {
        std::string spec;
        for (int k : o.ts) spec += L[k];
        it.add(instruction::Instruction(o.name, spec));
        ft.add(o.name, types_from(o.ts), [&called, &seen, &calls, t = o.tag](const Values& vs) { called = t; seen = vs; ++calls; return cint(t * 7); });
    }
    auto it2 = it; auto ft2 = ft;
    resolver::InstructionTable it3; it3 = it; resolver::ConstEvalCoreFunctionTable ft3; ft3 = ft;
    int want = expect(os, n, args);
    std::vector<int> wt;
    for (auto& o : os) if (o.tag == want) wt = o.ts;
    for (int w = 0; w < 3; ++w) {
        std::string d = "tables: overloads";
        for (auto& o : os) d += " " + show(o);
        h::begin(d + "; resolve " + n + vx::show(args));
        auto& f = w == 0 ? ft : w == 1 ? ft2 : ft3;
        auto& t = w == 0 ? it : w == 1 ? it2 : it3;
        int got = -9; called = -1; calls = 0; Value r;
        try { r = f.resolve(n, pack(args)); got = called; } catch (const resolver::NameResolutionFailure&) { got = -1; } catch (const resolver::OverloadResolutionFailure&) { got = -2; }
        H_REQUIRE(got == want, "function table gives " + std::to_string(got) + " instead of " + std::to_string(want));
        if (got >= 0) { H_REQUIRE(calls == 1, "the implementation is called more than once"); H_REQUIRE(r->as_const_int() && r->as_const_int()->value == got * 7, "not the value of the implementation"); same_args(seen, args, wt); }
        for (int g = 0; g < 2; ++g) {
            int code = 0; vx::tree::One<semantic::Instruction> ins;
            auto gate = vx::tree::make<semantic::Gate>(n);
            try { ins = g ? t.resolve(n, gate, pack(args)) : t.resolve(n, pack(args)); } catch (const resolver::NameResolutionFailure&) { code = -1; } catch (const resolver::OverloadResolutionFailure&) { code = -2; }
            H_REQUIRE(code == std::min(want, 0), "instruction table gives " + std::to_string(code) + " instead of " + std::to_string(want));
            if (code) continue;
            auto ref = g ? (ins->as_gate_instruction() ? ins->as_gate_instruction()->instruction_ref : decltype(ins->as_gate_instruction()->instruction_ref)()) : (ins->as_non_gate_instruction() ? ins->as_non_gate_instruction()->instruction_ref : decltype(ins->as_gate_instruction()->instruction_ref)());
            H_REQUIRE(!ref.empty() && ref->name == n && ref->operand_types.size() == wt.size(), "the instruction is another one");
            for (size_t i = 0; i < wt.size(); ++i) H_REQUIRE(kind(ref->operand_types[i]) == wt[i], "the instruction is another overload");
            if (g) { auto gi = ins->as_gate_instruction(); H_REQUIRE(gi, "not a gate instruction"); same_args(gi->operands, args, wt); H_REQUIRE(!gi->gate.empty() && gi->gate->name == n, "holds another gate"); }
            else { auto ni = ins->as_non_gate_instruction(); H_REQUIRE(ni, "not a non-gate instruction"); same_args(ni->operands, args, wt); H_REQUIRE(ni->name == n, "holds another name"); }
        }
    }
}
int main(int c, char** a) {
    h::init(c, a);
    h::Rng r(h::seed);
    auto vs = sample_values();
    std::vector<std::string> names{ "a", "b", "A", "operator+", "", "aa", "ab" };
    for (auto& d : h::dict) if (d.size() < 20) names.push_back(d);
    for (int i = 0; h::time_left() && i < (h::thorough ? 200000 : 30000); ++i) {
        std::vector<Ovl> os;
        int n = r.below(i % 7 == 0 ? 40 : 6);
        int nn = 1 + r.below(3);
        size_t base = r.below(names.size());
        for (int j = 0; j < n; ++j) {
            Ovl o{ names[(base + r.below(nn)) % names.size()], {}, j };
            int k = r.below(i % 11 == 0 ? 7 : 4);
            for (int q = 0; q < k; ++q) o.ts.push_back(r.below(3) ? r.below(3) : r.below(7));
            os.push_back(o);
        }
        std::vector<Value> args;
        if (n && r.below(4)) {      // arguments that nearly match some overload
            auto& o = os[r.below(n)];
            for (int k : o.ts) { Value v; for (int t = 0; t < 30; ++t) { v = vs[r.below(vs.size())]; if (promo(v, k)) break; } args.push_back(v); }
            if (!r.below(5) && !args.empty()) args.pop_back();
            if (!r.below(5)) args.push_back(vs[r.below(vs.size())]);
        } else { int k = r.below(4); for (int q = 0; q < k; ++q) args.push_back(vs[r.below(vs.size())]); }
        std::string name = r.below(5) && n ? os[r.below(n)].name : names[r.below(names.size())];
        generic<int, BaseR, cqasm::overload::NameResolutionFailure, cqasm::overload::OverloadResolutionFailure>(os, name, args, "overload resolver");
        generic<std::string, resolver::OverloadedNameResolver, resolver::NameResolutionFailure, resolver::OverloadResolutionFailure>(os, name, args, "resolver");
        tables(os, name, args);
    }
    // overloads that are copied, moved and assigned keep tag and types
    using Ov = cqasm::overload::Overload<std::string, types::TypeBase>;
    for (int n = 0; n < 5; ++n) {
        h::begin("copies of an overload with " + std::to_string(n) + " parameters");
        std::vector<int> ks;
        for (int i = 0; i < n; ++i) ks.push_back((i * 3 + n) % 7);
        auto good = [&](const Ov& o) { bool ok = o.get_tag() == "tag" && o.num_params() == ks.size(); for (size_t i = 0; ok && i < ks.size(); ++i) ok = kind(o.param_type_at(i)) == ks[i]; return ok; };
        Ov o("tag", types_from(ks)), p(o), q("x", types_from({ 1 })), s("y", types_from({ 2 }));
        q = o; H_REQUIRE(good(o) && good(p) && good(q), "a copy differs");
        Ov m(std::move(p)); s = std::move(q); H_REQUIRE(good(m) && good(s), "a moved overload differs");
        Ov t("z", types_from(std::vector<int>(n, 6))), u("z", types_from(std::vector<int>(n, 5)));      // as many, but others
        t = o; u = std::move(m); H_REQUIRE(good(t) && good(u), "an overload assigned over one with as many parameters differs");
    }
    // a table is a value: what is added to one later is not in another
    {
        h::begin("tables copied from one another, then extended");
        auto fit = [&](auto& t, const std::string& n, const std::vector<int>&, auto&& args) {
            try { t.resolve(n, args); return true; } catch (const resolver::NameResolutionFailure&) { return false; } };
        values::Values q; q.add(vx::tree::make<values::ConstInt>(1));
        auto inst = [&](const std::string& n) { return instruction::Instruction(n, std::string("i")); };
        resolver::InstructionTable a, b;
        a.add(inst("one")); b.add(inst("two"));
        b = a;
        a.add(inst("three")); b.add(inst("four"));
        resolver::InstructionTable e(b);
        e.add(inst("five"));
        H_REQUIRE(fit(a, "one", {}, q) && fit(a, "three", {}, q) && !fit(a, "four", {}, q) && !fit(a, "two", {}, q) && !fit(a, "five", {}, q), "the table copied from has not what was added to it, or more");
        H_REQUIRE(fit(b, "one", {}, q) && fit(b, "four", {}, q) && !fit(b, "three", {}, q) && !fit(b, "two", {}, q) && !fit(b, "five", {}, q), "the table assigned to has not what was in the other at that time and added since");
        H_REQUIRE(fit(e, "one", {}, q) && fit(e, "four", {}, q) && fit(e, "five", {}, q) && !fit(e, "three", {}, q), "the copy has not what was in the other at that time and added since");
        a = std::move(e);
        H_REQUIRE(fit(a, "five", {}, q) && !fit(a, "three", {}, q), "the table moved to has not what was in the other");
        resolver::ConstEvalCoreFunctionTable f, g;
        auto put = [](auto& t, const std::string& n) { t.add(n, types_from({ 1 }), [](const Values& v) { return v[0]; }); };
        put(f, "one"); put(g, "two");
        g = f;
        put(f, "three"); put(g, "four");
        resolver::ConstEvalCoreFunctionTable k(g);
        put(k, "five");
        H_REQUIRE(fit(f, "one", {}, q) && fit(f, "three", {}, q) && !fit(f, "four", {}, q) && !fit(f, "five", {}, q), "the function table copied from has not what was added to it, or more");
        H_REQUIRE(fit(g, "one", {}, q) && fit(g, "four", {}, q) && !fit(g, "three", {}, q) && !fit(g, "two", {}, q) && !fit(g, "five", {}, q), "the function table assigned to has not what was in the other at that time and added since");
        H_REQUIRE(fit(k, "one", {}, q) && fit(k, "four", {}, q) && fit(k, "five", {}, q), "the copy of the function table has not what was in the other");
    }
    return h::done();
}
