#include "harness.hpp"
#include "json.hpp"
#include "libqasm/error.hpp"
using cqasm::error::Error;
using L = cqasm::annotations::SourceLocation;
static const std::string unk = "<unknown error message>";
static void check(const Error& e, const std::string& m, const L* l) {
    std::string t = e.to_json();
    js::P v;
    try { v = js::parse(t); } catch (const std::exception& x) { h::fail(std::string("not JSON: ") + x.what() + ": " + h::show(t)); }
    H_REQUIRE(v->k == 'o', "not an object: " + h::show(t));
    auto n = [&](const char* a, const char* b, unsigned long w) { auto g = js::num(v.get(), "range", a, b); H_REQUIRE(g == std::to_string(w), std::string("range.") + a + "." + b + " is " + g + ", expected " + std::to_string(w)); };
    n("start", "line", l ? l->range.first.line : 0); n("start", "character", l ? l->range.first.column : 0);
    n("end", "line", l ? l->range.last.line : 0); n("end", "character", l ? l->range.last.column : 0);
    auto msg = v->get("message");
    H_REQUIRE(msg && msg->k == 's' && msg->s == (m.empty() ? unk : m), "message is " + (msg ? h::show(msg->s) : std::string("missing")));
    auto sv = v->get("severity");
    H_REQUIRE(sv && sv->k == '#' && sv->s == "1", "severity is not 1");
    auto ri = v->get("relatedInformation");
    bool want = l && l->file_name.has_value();
    H_REQUIRE((ri != nullptr) == want, want ? "no related information" : "related information without file name");
    if (!ri) return;
    H_REQUIRE(ri->k == 'a' && ri->a.size() == 1, "related information is not one element");
    auto loc = ri->a[0]->get("location"); auto uri = loc ? loc->get("uri") : nullptr;
    H_REQUIRE(uri && uri->k == 's' && uri->s.rfind("file:///", 0) == 0, "no file URI");
    std::string dec;
    const std::string& u = uri->s;
    for (size_t i = 8; i < u.size(); ++i) {
        if (u[i] == '%') { H_REQUIRE(i + 2 < u.size() && isxdigit((unsigned char)u[i + 1]) && isxdigit((unsigned char)u[i + 2]), "malformed percent escape"); dec += (char)strtol(u.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; }
        else { H_REQUIRE(isalnum((unsigned char)u[i]) || strchr("-_.~", u[i]), "raw reserved character in the URI"); dec += u[i]; }
    }
    H_REQUIRE(dec == *l->file_name, "URI is that of " + h::show(dec));
    H_REQUIRE(js::num(loc, "range", "start", "line") != "(no number)" && js::num(loc, "range", "end", "character") != "(no number)", "related information without range");
    auto rm = ri->a[0]->get("message");
    H_REQUIRE(rm && rm->k == 's', "related information without message");
}
static void all(const std::string& m, const std::optional<std::string>& f, const L::Range& r) {
    h::begin("to_json of message " + h::show(m) + ", file " + (f ? h::show(*f) : "none") + ", range " + std::to_string(r.first.line) + ":" + std::to_string(r.first.column) + ".." + std::to_string(r.last.line) + ":" + std::to_string(r.last.column));
    L l(f, r);
    check(Error(m), m, nullptr);
    check(Error(m, f, r), m, &l);
    check(Error(m, std::make_shared<L>(l)), m, &l);
    cqasm::tree::Annotatable n; n.set_annotation<L>(l);
    check(Error(m, &n), m, &l);
}
int main(int c, char** v) {
    h::init(c, v);
    L::Range r{ { 2, 3 }, { 4, 5 } };
    auto u = h::u32s();
    for (auto a : u) for (auto b : u) { all("m", "f", L::Range({ a, b }, { b, a })); all("m", std::nullopt, L::Range({ 1, a }, { 1, b })); all("m", "", L::Range({ a, 7 }, { b, 3 })); }
    h::strings([&](const std::string& s) { all(s, std::nullopt, r); if (s.size() < 600) { all("m", s, r); all(s, s, r); } }, false, 3000);
    return h::done();
}
