#include "harness.hpp"
#include "libqasm/error.hpp"
using cqasm::error::Error;
using L = cqasm::annotations::SourceLocation;
using A = cqasm::tree::Annotatable;
static const std::string unk = "<unknown error message>";
static std::string where(const L& l) { std::ostringstream o; o << l; return o.str(); }
static std::string text(const Error& e) { std::string a = e.what(); std::ostringstream o; o << e; H_REQUIRE(o.str() == a, "operator<< differs from what()"); const std::exception& x = e; H_REQUIRE(a == x.what(), "what() depends on the static type"); return a; }
static std::string cut(const std::string& s) { return s.substr(0, s.find('\0')); }
static void check(const Error& e, const std::string& m, const L* l, const char* w) {
    std::string want = std::string("Error") + (l ? " at " + where(*l) : "") + ": " + (m.empty() ? unk : m);
    std::string got = text(e);
    H_REQUIRE(got == cut(want), std::string(w) + ": reports " + h::show(got) + ", expected " + h::show(want));
    H_REQUIRE(text(e) == cut(want), "second report differs");
}
static void all(const std::string& m, const std::optional<std::string>& f, const L::Range& r, const L::Range& r2) {
    h::begin("message " + h::show(m) + ", file " + (f ? h::show(*f) : "none") + ", range " + where(L(std::nullopt, r)));
    L one(f, r), two(std::string("other"), r2);
    A plain, n1, n2;
    n1.set_annotation<L>(one);
    n2.set_annotation<L>(two);
    { Error e(m); check(e, m, nullptr, "no location"); e.context(plain); check(e, m, nullptr, "context without location"); e.context(n1); check(e, m, &one, "first context"); e.context(n2); check(e, m, &one, "second context"); e.context(plain); e.context(n2); check(e, m, &one, "later contexts"); }
    { Error e(m, &plain); check(e, m, nullptr, "plain node"); e.context(n2); check(e, m, &two, "context"); e.context(n1); check(e, m, &two, "second context"); }
    { A n3; n3.set_annotation<L>(one); Error e(m, &n3); check(e, m, &one, "node"); n3.set_annotation<L>(two); check(e, m, &one, "after the node changed"); e.context(n2); check(e, m, &one, "context"); n3.get_annotation<L>().range = r2; check(e, m, &one, "after the node changed"); }
    { A n3; n3.set_annotation<L>(one); Error e(m); e.context(n3); n3.get_annotation<L>().range = r2; n3.get_annotation<L>().file_name = "changed"; check(e, m, &one, "after the node changed"); }
    { Error e(m, std::make_shared<L>(one)); check(e, m, &one, "shared location"); e.context(n2); check(e, m, &one, "context"); }
    { Error e(m, std::shared_ptr<L>{}); check(e, m, nullptr, "null location"); e.context(n1); check(e, m, &one, "context"); }
    { Error e(m, f, r); check(e, m, &one, "file and range"); e.context(n2); check(e, m, &one, "context"); Error c = e; check(c, m, &one, "copy"); }
    try { throw Error(m, f, r); } catch (Error& e) { e.context(n2); check(e, m, &one, "thrown"); }
}
int main(int c, char** v) {
    h::init(c, v);
    std::vector<L::Range> rs{ { { 1, 1 }, { 1, 1 } }, { { 1, 1 }, { 1, 5 } }, { { 2, 3 }, { 4, 1 } }, { { 0, 0 }, { 0, 0 } }, { { 1, 0 }, { 2, 0 } }, { { 4294967295u, 4294967295u }, { 4294967295u, 4294967295u } } };
    for (auto& r : rs) for (auto& q : rs) for (auto& f : std::vector<std::optional<std::string>>{ std::nullopt, "", "f", "a b\"c" }) for (auto m : { "", "m", "Error: {} {0}", "x\ny" }) all(m, f, r, q);
    h::strings([&](const std::string& s) { all(s, std::nullopt, rs[1], rs[2]); if (s.size() < 300) all("m", s, rs[2], rs[0]); }, false, 3000);
    return h::done();
}
