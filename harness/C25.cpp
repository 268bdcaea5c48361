// What serialize writes, deserialize reads back equal: primitives, instruction and function references.
#include <limits>
#include "v3x.hpp"
#include "libqasm/v3x/core_function.hpp"
#include "libqasm/v3x/instruction.hpp"
using namespace vx;
namespace pr = cqasm::v3x::primitives;
template <typename T> static T again(const T& x) {
    ::tree::cbor::MapWriter w;
    pr::serialize(x, w);
    w.close();
    return pr::deserialize<T>(::tree::cbor::Reader{ w.item() }.as_map());
}
static bool same(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0; }
static std::string num(double x) { char b[64]; snprintf(b, sizeof b, "%a", x); return b; }
static std::string show(const types::Types& ts) { std::string s; for (auto& t : ts) s += std::string(kind(t) < 0 ? "?" : type_names[kind(t)]) + "[" + std::to_string(t->size) + "] "; return s; }
int main(int c, char** argv) {
    h::init(c, argv);
    h::Rng r(h::seed);
    h::strings([&](const std::string& s) {
        h::begin("string " + h::show(s));
        H_REQUIRE(again<pr::Str>(s) == s, "the string is read back as " + h::show(again<pr::Str>(s)));
    }, false, 5000);
    for (bool b : { false, true }) { h::begin(std::string("bool ") + (b ? "true" : "false")); H_REQUIRE(again<pr::Bool>(b) == b, "the bool is read back as its opposite"); }
    std::vector<std::int64_t> ints;
    for (int k = 0; k < 64; ++k) for (int d = -1; d <= 1; ++d) { auto x = std::int64_t((std::uint64_t(1) << k) + d); ints.push_back(x); ints.push_back(std::int64_t(0 - std::uint64_t(x))); }
    for (auto n : h::nums) for (int d = -1; d <= 1; ++d) ints.push_back(n + d);
    for (int i = 0; i < 2000; ++i) ints.push_back(std::int64_t(r.next() >> r.below(64)));
    for (auto x : ints) { h::begin("int " + std::to_string(x)); H_REQUIRE(again<pr::Int>(x) == x, "the int is read back as " + std::to_string(again<pr::Int>(x))); }
    using L = std::numeric_limits<double>;
    std::vector<double> ds{ 0.0, -0.0, 1.0, -1.0, 0.1, L::infinity(), -L::infinity(), L::quiet_NaN(), -L::quiet_NaN(), L::max(), L::lowest(), L::min(), L::denorm_min(), -L::denorm_min(), L::epsilon(), 1e300, 9007199254740993.0, 16777217.0, 1e-40 };
    for (int i = 0; i < 2000; ++i) { std::uint64_t b = r.next(); double d; std::memcpy(&d, &b, sizeof d); ds.push_back(d); }
    for (auto x : ds) { h::begin("float " + num(x)); H_REQUIRE(same(again<pr::Float>(x), x), "the float is read back as " + num(again<pr::Float>(x))); }
    for (int i = 0; i < 4000; ++i) {
        double x = ds[r.below(ds.size())], y = ds[r.below(ds.size())], z = ds[r.below(ds.size())];
        h::begin("axis [" + num(x) + ", " + num(y) + ", " + num(z) + "]");
        auto a = again(pr::Axis{ x, y, z });
        H_REQUIRE(same(a.x, x) && same(a.y, y) && same(a.z, z), "the axis is read back as [" + num(a.x) + ", " + num(a.y) + ", " + num(a.z) + "]");
        h::begin("complex " + num(x) + " + " + num(y) + "i");
        auto b = again(pr::Complex{ x, y });
        H_REQUIRE(same(b.real(), x) && same(b.imag(), y), "the complex is read back as " + num(b.real()) + " + " + num(b.imag()) + "i");
    }
    for (size_t i = 0; i < 3000; ++i) {
        pr::Version v("");
        std::string s;
        for (size_t k = 0, n = i < 40 ? i : r.below(12); k < n; ++k) { v.push_back(ints[r.below(ints.size())]); s += std::to_string(v.back()) + "."; }
        h::begin("version " + s);
        auto w = again(v);
        s.clear(); for (auto x : w) s += std::to_string(x) + ".";
        H_REQUIRE(static_cast<const std::vector<std::int64_t>&>(w) == static_cast<const std::vector<std::int64_t>&>(v), "the version is read back as " + s);
    }
    auto name = [&] { std::string s = h::dict.empty() || r.below(2) ? "" : h::dict[r.below(h::dict.size())]; for (size_t n = r.below(6); n--;) s += char(r.below(256)); return s; };
    auto some = [&](types::Types& ts) { for (size_t k = 0, n = r.below(4) ? r.below(5) : r.below(40); k < n; ++k) ts.add(type((int)r.below(7), r.below(2) ? 1 : ints[r.below(ints.size())])); };
    H_REQUIRE(again(cqasm::v3x::instruction::InstructionRef{}).empty(), "a reference to no instruction is read back as one to an instruction");
    H_REQUIRE(again(cqasm::v3x::function::CoreFunctionRef{}).empty(), "a reference to no function is read back as one to a function");
    for (int i = 0; i < 4000 && h::time_left(); ++i) {
        auto a = vx::tree::make<cqasm::v3x::instruction::Instruction>();
        a->name = name(); some(a->operand_types);
        h::begin("instruction " + h::show(a->name) + " of " + show(a->operand_types));
        auto b = again(cqasm::v3x::instruction::InstructionRef{ a });
        H_REQUIRE(!b.empty(), "the reference is read back as one to nothing");
        H_REQUIRE(b->name == a->name && show(b->operand_types) == show(a->operand_types), "the instruction is read back as " + h::show(b->name) + " of " + show(b->operand_types));
        H_REQUIRE(*a == *b, "the instruction read back is not equal");
        auto f = vx::tree::make<cqasm::v3x::function::CoreFunction>();
        f->name = name(); some(f->param_types); f->return_type = type((int)r.below(7), ints[r.below(ints.size())]);
        types::Types ret; ret.add(f->return_type);
        h::begin("function " + h::show(f->name) + " of " + show(f->param_types) + " to " + show(ret));
        auto g = again(cqasm::v3x::function::CoreFunctionRef{ f });
        H_REQUIRE(!g.empty(), "the reference is read back as one to nothing");
        types::Types ret2; if (!g->return_type.empty()) ret2.add(g->return_type);
        H_REQUIRE(g->name == f->name && show(g->param_types) == show(f->param_types) && show(ret2) == show(ret), "the function is read back as " + h::show(g->name) + " of " + show(g->param_types) + " to " + show(ret2));
        H_REQUIRE(*f == *g && *g == *f, "the function read back is not equal");
        // what differs in one respect is not equal
        auto a2 = vx::tree::make<cqasm::v3x::instruction::Instruction>();
        a2->name = a->name; for (auto& t : a->operand_types) a2->operand_types.add(t);
        auto f2 = vx::tree::make<cqasm::v3x::function::CoreFunction>();
        f2->name = f->name; f2->return_type = f->return_type; for (auto& t : f->param_types) f2->param_types.add(t);
        switch (r.below(4)) {
        case 0: a2->name += "x"; f2->name += "x"; break;
        case 1: a2->operand_types.add(type(0, 1)); f2->param_types.add(type(0, 1)); break;
        case 2: f2->return_type = type((kind(f->return_type) + 1) % 7, 1); a2->name = "x" + a2->name; break;
        case 3: if (a2->operand_types.size()) a2->operand_types.remove(); else a2->name += "y";
                if (f2->param_types.size()) f2->param_types.remove(); else f2->name += "y"; break;
        }
        h::begin("instructions " + h::show(a->name) + " of " + show(a->operand_types) + "and " + h::show(a2->name) + " of " + show(a2->operand_types));
        H_REQUIRE(!(*a == *a2) && !(*a2 == *a), "they differ, but are equal");
        H_REQUIRE(!(*f == *f2) && !(*f2 == *f), "functions that differ are equal");
    }
    return h::done();
}
