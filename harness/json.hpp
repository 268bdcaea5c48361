// Strict JSON reader (independent oracle).  Strings keep bytes; \u00XX escapes decode to the byte XX.
#pragma once
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
namespace js {
struct V;
using P = std::shared_ptr<V>;
struct V {
    char k = 'n';  // o a s # w
    std::vector<std::pair<std::string, P>> o;
    std::vector<P> a;
    std::string s;
    const V* get(const std::string& n) const { for (auto& [x, v] : o) if (x == n) return v.get(); return nullptr; }
};
struct R {
    const std::string& t;
    size_t i = 0;
    [[noreturn]] void bad(const std::string& w) { throw std::runtime_error(w + " at byte " + std::to_string(i)); }
    void ws() { while (i < t.size() && (t[i] == ' ' || t[i] == '\n' || t[i] == '\t' || t[i] == '\r')) ++i; }
    int hex(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
    std::string str() {
        if (i >= t.size() || t[i] != '"') bad("expected a string");
        ++i;
        std::string r;
        for (;;) {
            if (i >= t.size()) bad("unterminated string");
            unsigned char c = t[i++];
            if (c == '"') return r;
            if (c < 32) bad("raw control character in a string");
            if (c != '\\') { r += (char)c; continue; }
            if (i >= t.size()) bad("unterminated escape");
            char e = t[i++];
            switch (e) {
                case '"': case '\\': case '/': r += e; break;
                case 'b': r += '\b'; break;
                case 'f': r += '\f'; break;
                case 'n': r += '\n'; break;
                case 'r': r += '\r'; break;
                case 't': r += '\t'; break;
                case 'u': {
                    int v = 0;
                    for (int k = 0; k < 4; ++k) { int h = i < t.size() ? hex(t[i]) : -1; if (h < 0) bad("malformed unicode escape"); ++i; v = v * 16 + h; }
                    if (v > 255) bad("escape does not denote a byte");
                    r += (char)v;
                    break;
                }
                default: bad("unknown escape");
            }
        }
    }
    P value(int depth = 0) {
        ws();
        if (i >= t.size()) bad("value missing");
        auto v = std::make_shared<V>();
        char c = t[i];
        if (c == '{') {
            v->k = 'o'; ++i; ws();
            if (i < t.size() && t[i] == '}') { ++i; return v; }
            for (;;) {
                ws(); auto n = str(); ws();
                if (v->get(n)) bad("duplicate key " + n);
                if (i >= t.size() || t[i] != ':') bad("expected :");
                ++i; v->o.emplace_back(n, value(depth + 1)); ws();
                if (i < t.size() && t[i] == ',') { ++i; continue; }
                if (i < t.size() && t[i] == '}') { ++i; return v; }
                bad("expected , or }");
            }
        }
        if (c == '[') {
            v->k = 'a'; ++i; ws();
            if (i < t.size() && t[i] == ']') { ++i; return v; }
            for (;;) {
                v->a.push_back(value(depth + 1)); ws();
                if (i < t.size() && t[i] == ',') { ++i; continue; }
                if (i < t.size() && t[i] == ']') { ++i; return v; }
                bad("expected , or ]");
            }
        }
        if (c == '"') { v->k = 's'; v->s = str(); return v; }
        if (c == '-' || (c >= '0' && c <= '9')) {
            v->k = '#';
            size_t b = i;
            if (t[i] == '-') ++i;
            size_t d = i;
            while (i < t.size() && t[i] >= '0' && t[i] <= '9') ++i;
            if (i == d || (t[d] == '0' && i - d > 1)) bad("malformed number");
            if (i < t.size() && (t[i] == '.' || t[i] == 'e' || t[i] == 'E')) { ++i; while (i < t.size() && ((t[i] >= '0' && t[i] <= '9') || t[i] == '+' || t[i] == '-' || t[i] == 'e' || t[i] == 'E')) ++i; }
            v->s = t.substr(b, i - b);
            return v;
        }
        for (std::string w : { "true", "false", "null" }) if (t.compare(i, w.size(), w) == 0) { v->k = 'w'; v->s = w; i += w.size(); return v; }
        bad("unexpected character");
    }
};
inline P parse(const std::string& t) { R r{ t }; auto v = r.value(); r.ws(); if (r.i != t.size()) r.bad("text after the value"); return v; }
inline std::string num(const V* v, const char* a, const char* b, const char* c) {
    const V* x = v ? v->get(a) : nullptr;
    x = x ? x->get(b) : nullptr;
    x = x ? x->get(c) : nullptr;
    return x && x->k == '#' ? x->s : "(no number)";
}
}  // namespace js
