// What the library's serialize functions write, the Python package reads back as the same values.
// This program writes random values with the real C++ code; harness/C29_read.py reads them with the real Python code.
#include <limits>
#include "v3x.hpp"
#include "libqasm/v3x/instruction.hpp"
using namespace vx;
namespace pr = cqasm::v3x::primitives;
namespace cb = ::tree::cbor;
static std::string hex(const std::string& s) { std::string r = "\""; char b[4]; for (unsigned char c : s) { snprintf(b, sizeof b, "%02x", c); r += b; } return r + "\""; }
static std::string dbits(double d) { std::uint64_t u; std::memcpy(&u, &d, sizeof u); return "\"" + std::to_string(u) + "\""; }
static std::string item(const cb::Item& i) {
    if (auto p = std::get_if<bool>(&i.v)) return std::string("[\"bool\",") + (*p ? "true" : "false") + "]";
    if (auto p = std::get_if<std::int64_t>(&i.v)) return "[\"int\",\"" + std::to_string(*p) + "\"]";
    if (auto p = std::get_if<double>(&i.v)) return "[\"float\"," + dbits(*p) + "]";
    if (auto p = std::get_if<std::string>(&i.v)) return "[\"string\"," + hex(*p) + "]";
    if (auto p = std::get_if<cb::Bin>(&i.v)) return "[\"binary\"," + hex(p->s) + "]";
    std::string r;
    if (auto p = std::get_if<std::vector<cb::ItemPtr>>(&i.v)) { for (auto& x : *p) r += (r.empty() ? "" : ",") + item(*x); return "[\"array\",[" + r + "]]"; }
    if (auto p = std::get_if<std::map<std::string, cb::ItemPtr>>(&i.v)) { for (auto& [k, x] : *p) r += (r.empty() ? "" : ",") + std::string("[") + hex(k) + "," + item(*x) + "]"; return "[\"map\",[" + r + "]]"; }
    return "[\"none\",null]";
}
template <typename T> static std::string written(const T& x) {
    cb::MapWriter w;
    pr::serialize(x, w);
    w.close();
    return item(*w.item());
}
int main(int c, char** argv) {
    h::init(c, argv);
    h::Rng r(h::seed);
    char dir[] = "/tmp/c29XXXXXX";
    if (!mkdtemp(dir)) return 2;
    std::string file = std::string(dir) + "/cases.json";
    unsigned long long n = 0;
    {
        std::ofstream f(file);
        auto put = [&](const char* typ, const std::string& map, const std::string& want) { f << "[\"" << typ << "\"," << map << "," << want << "]\n"; ++n; };
        auto text = [&] {
            std::string s = h::dict.empty() || r.below(2) ? "" : h::dict[r.below(h::dict.size())];
            for (unsigned char ch : s) if (ch >= 0x80) { s.clear(); break; }
            const char* bits_[] = { "a", "Z", "_", "0", " ", "\n", "\r", "\t", "'", "\"", "\\", "b'", "{", "}", "%", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\x7f", "x'" };
            for (size_t k = r.below(3) ? r.below(8) : r.below(300); k--;) s += bits_[r.below(20)];
            if (r.below(20) == 0) s += std::string(1, '\0');
            return s;
        };
        for (int i = 0; i < 3000; ++i) { auto s = i ? text() : std::string(); put("Str", written(pr::Str(s)), hex(s)); }
        for (bool b : { false, true }) put("Bool", written(pr::Bool(b)), b ? "true" : "false");
        std::vector<std::int64_t> ints;
        for (int k = 0; k < 64; ++k) for (int d = -1; d <= 1; ++d) { auto x = std::int64_t((std::uint64_t(1) << k) + d); ints.push_back(x); ints.push_back(std::int64_t(0 - std::uint64_t(x))); }
        for (auto m : h::nums) for (int d = -1; d <= 1; ++d) ints.push_back(m + d);
        for (int i = 0; i < 1000; ++i) ints.push_back(std::int64_t(r.next() >> r.below(64)));
        for (auto x : ints) put("Int", written(pr::Int(x)), "\"" + std::to_string(x) + "\"");
        using L = std::numeric_limits<double>;
        std::vector<double> ds{ 0.0, -0.0, 1.0, -1.0, 0.1, L::infinity(), -L::infinity(), L::quiet_NaN(), L::max(), L::lowest(), L::min(), L::denorm_min(), L::epsilon(), 1e300, 9007199254740993.0, 16777217.0, 1e-40 };
        for (int i = 0; i < 1000; ++i) { std::uint64_t b = r.next(); double d; std::memcpy(&d, &b, sizeof d); if (d == d) ds.push_back(d); }
        for (auto x : ds) put("Float", written(pr::Float(x)), dbits(x));
        for (size_t i = 0; i < 1000; ++i) {
            pr::Version v("");
            std::string w;
            for (size_t k = 0, m = i < 40 ? i : r.below(12); k < m; ++k) { v.push_back(ints[r.below(ints.size())]); w += (w.empty() ? "\"" : ",\"") + std::to_string(v.back()) + "\""; }
            put("Version", written(v), "[" + w + "]");
        }
        put("InstructionRef", written(cqasm::v3x::instruction::InstructionRef{}), "null");
        for (int i = 0; i < 2000; ++i) {
            auto a = vx::tree::make<cqasm::v3x::instruction::Instruction>();
            a->name = text();
            std::string w;
            for (size_t k = 0, m = r.below(4) ? r.below(5) : r.below(40); k < m; ++k) {
                auto t = type((int)r.below(7), r.below(2) ? 1 : ints[r.below(ints.size())]);
                a->operand_types.add(t);
                w += (w.empty() ? "" : ",") + hex(::tree::base::serialize(::tree::base::Maybe<types::TypeBase>{ t.get_ptr() }));
            }
            put("InstructionRef", written(cqasm::v3x::instruction::InstructionRef{ a }), "[" + hex(a->name) + ",[" + w + "]]");
        }
    }
    h::begin("values read by the Python package");
    alarm(120);
    h::cases = n;
    std::string here = __FILE__;
    here = here.substr(0, here.rfind('/'));
    const char* repo = getenv("VERIF_REPO");
    std::string cmd = "python3 -B '" + here + "/C29_read.py' '" + file + "' '" + (repo ? repo : "/repo") + "' 2>&1", out;
    FILE* p = popen(cmd.c_str(), "r");
    if (!p) return 2;
    char b[4096];
    size_t k;
    while ((k = fread(b, 1, sizeof b, p)) > 0) out.append(b, k);
    int rc = pclose(p);
    unlink(file.c_str());
    rmdir(dir);
    if (rc || out.rfind("OK", 0) != 0) {
        auto x = out.find("INPUT: "), y = out.find("FAIL: ");
        if (x != std::string::npos && y != std::string::npos) { h::current = out.substr(x + 7, out.find('\n', x) - x - 7); h::fail(out.substr(y + 6, out.find('\n', y) - y - 6)); }
        std::cout << out << std::endl;
        return 2;
    }
    return h::done();
}
