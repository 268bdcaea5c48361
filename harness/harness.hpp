// Bounded replay/search harness: runs the real code of /repo on concrete inputs and compares it
// with an oracle written here.  Never counted as proof; it turns failed obligations into failing
// inputs and stands in (labelled bounded) where an obligation could not be decided.
#pragma once
#include <signal.h>
#include <unistd.h>

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace h {
inline std::string current;            // description of the case being run
inline unsigned long long cases = 0;
inline unsigned seed = 1;
inline bool thorough = false;
inline std::vector<std::string> dict;  // string literals of the current sources
inline std::vector<long long> nums;    // integer literals of the current sources
inline std::set<std::string> known_seen;
inline long budget_ms = 20000;
inline struct timespec t0;

inline std::string show(const std::string& s) {
    std::string r = "\"";
    char b[8];
    size_t n = 0;
    for (unsigned char c : s) {
        if (++n > 400) { r += "..."; break; }
        if (c >= 32 && c < 127 && c != '"' && c != '\\') r += char(c);
        else { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
    }
    return r + "\" (length " + std::to_string(s.size()) + ")";
}
[[noreturn]] inline void fail(const std::string& what) {
    std::cout << "FAIL: " << what << "\nINPUT: " << current << "\nCASES: " << cases << std::endl;
    _exit(3);
}
inline void known(const std::string& key) {
    if (known_seen.insert(key).second) std::cout << "KNOWN: " << key << std::endl;
}
#define H_REQUIRE(c, what) do { if (!(c)) h::fail(what); } while (0)
inline void on_signal(int s) {
    const char* n = s == SIGALRM ? "the call does not terminate (20 s)" : s == SIGFPE ? "the process is stopped by SIGFPE" : s == SIGSEGV ? "the process is stopped by SIGSEGV" : "the process is stopped by a signal";
    std::string m = std::string("FAIL: ") + n + "\nINPUT: " + current + "\n";
    (void)!write(1, m.data(), m.size());
    _exit(3);
}
// starts a case: remembers its description, arms the per-case timer
inline void begin(std::string d) { current = std::move(d); ++cases; alarm(20); }
inline long elapsed_ms() {
    struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
    return (t.tv_sec - t0.tv_sec) * 1000 + (t.tv_nsec - t0.tv_nsec) / 1000000;
}
inline bool time_left() { return elapsed_ms() < budget_ms; }

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t x) : s{ x * 0x9E3779B97F4A7C15ull + 1 } {}
    uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
};

// args: <tier> <seed> <hints file>; hints: lines "s <hex>" (strings), "n <integer>"
inline void init(int argc, char** argv) {
    clock_gettime(CLOCK_MONOTONIC, &t0);
    for (int s : { SIGSEGV, SIGFPE, SIGABRT, SIGILL, SIGBUS, SIGALRM }) signal(s, on_signal);
    std::set_terminate([] {
        std::string w = "unexpected exception escapes";
        try { if (auto e = std::current_exception()) std::rethrow_exception(e); } catch (const std::exception& e) { w += std::string(": ") + e.what(); } catch (...) {}
        std::cout << "FAIL: " << w << "\nINPUT: " << current << std::endl;
        _exit(3);
    });
    if (argc > 1) thorough = std::string(argv[1]) == "thorough";
    if (argc > 2) seed = (unsigned)atoi(argv[2]);
    budget_ms = thorough ? 120000 : 15000;
    if (argc > 3) {
        std::ifstream f(argv[3]);
        std::string l;
        while (std::getline(f, l)) {
            if (l.size() < 2) continue;
            if (l[0] == 's') {
                std::string r;
                for (size_t i = 2; i + 1 < l.size(); i += 2) r += (char)strtol(l.substr(i, 2).c_str(), nullptr, 16);
                dict.push_back(r);
            } else if (l[0] == 'n') nums.push_back(strtoll(l.c_str() + 2, nullptr, 10));
        }
    }
}
inline int done() {
    alarm(0);
    std::cout << "OK\nCASES: " << cases << std::endl;
    return 0;
}

// Calls f on a broad family of byte strings: empty, every byte, every pair of bytes, dictionary
// words alone and embedded, words differing in case, lengths around powers of two and around the
// integer literals of the source, and random strings over several alphabets.
template <typename F>
void strings(F f, bool all_pairs = true, size_t maxlen = 70000) {
    f(std::string());
    for (int c = 0; c < 256; ++c) f(std::string(1, (char)c));
    for (int c = 0; c < 256; ++c) for (int k = 2; k <= 40; ++k) f(std::string(k, (char)c));
    for (auto& d : dict) {
        f(d); f(d + d); f("x" + d); f(d + "x"); f(d + "\n" + d); f("'" + d + "'"); f("\"" + d + "\"");
        for (size_t i = 0; i <= d.size() && i < 64; ++i) f(d.substr(0, i));
    }
    for (auto& a : dict) for (auto& b : dict) { if (!time_left()) break; if (a.size() + b.size() < 64) f(a + b); }
    std::set<size_t> lens;
    for (size_t p = 1; p <= maxlen; p *= 2) for (long d = -2; d <= 2; ++d) if ((long)p + d >= 0) lens.insert(p + d);
    for (auto n : nums) if (n >= 0 && n <= (long long)maxlen) for (long d = -2; d <= 2; ++d) if (n + d >= 0) lens.insert(n + d);
    for (size_t n = 0; n <= 300; ++n) lens.insert(n);
    const std::string al[] = { "aZ09", std::string("\x80\xff\x7f\x20\x1f\x00", 6), "\"\\/\n\t", "'", "%-_.~ ", "\xC3\xA9\xE2\x82\xAC" };
    for (size_t n : lens) {
        for (auto& a : al) { std::string s; for (size_t i = 0; i < n; ++i) s += a[(i * 7 + i / 5) % a.size()]; f(s); if (!time_left()) return; }
        std::string s(n, 'a');                       // one special byte at the end or the start
        for (int c : { 0, 10, 31, 34, 39, 92, 127, 128, 255 }) if (n) { s[n - 1] = (char)c; f(s); s[n - 1] = 'a'; s[0] = (char)c; f(s); s[0] = 'a'; }
    }
    if (all_pairs) for (int a = 0; a < 256; ++a) for (int b = 0; b < 256; ++b) { std::string s{ (char)a, (char)b }; f(s); }
    const std::string ext = std::string("\\\"'ux0aAZz9% -_.~/\n\r\t\b\f\x7f\x80\xff\xc3\xa9\x1b\x00\x01", 30);
    for (unsigned char a : ext) for (unsigned char b : ext) for (unsigned char c : ext) { std::string s{ (char)a, (char)b, (char)c }; f(s); }
    Rng r(seed);
    long end = thorough ? budget_ms : budget_ms / 2;
    for (int i = 0; i < (thorough ? 2000000 : 40000) && elapsed_ms() < end; ++i) {
        std::string s;
        size_t n = r.below(i % 16 == 0 ? 600 : 24);
        unsigned mode = r.below(4);
        for (size_t k = 0; k < n; ++k) {
            if (mode == 0) s += (char)r.below(256);
            else if (mode == 1) s += ext[r.below(ext.size())];
            else if (mode == 2) s += (char)(32 + r.below(95));
            else if (!dict.empty() && r.below(3) == 0) s += dict[r.below(dict.size())];
            else s += ext[r.below(ext.size())];
        }
        f(s);
    }
}
inline std::vector<uint32_t> u32s() {
    std::set<uint32_t> v{ 0, 1, 2, 3, 7, 8, 9, 10, 11, 12, 15, 16, 99, 100, 127, 128, 255, 256, 999, 1000, 1023, 1024, 4095, 4096, 9999, 10000, 32767, 32768, 65535, 65536, 99999, 100000, 999999, 1000000, 16777215, 16777216, 0x7fffffffu, 0x80000000u, 0x80000001u, 0xfffffffeu, 0xffffffffu };
    for (auto n : nums) if (n >= -2 && n <= 0xffffffffll) for (int d = -1; d <= 1; ++d) if (n + d >= 0 && n + d <= 0xffffffffll) v.insert((uint32_t)(n + d));
    return { v.begin(), v.end() };
}
}  // namespace h
