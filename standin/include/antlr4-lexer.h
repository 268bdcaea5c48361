// Stand-in lexer: longest match, first rule wins, mode stack.  Works on UTF-8 with code point positions.
#pragma once
#include <set>
#include "antlr4-runtime.h"
namespace antlr4::standin {
using Cont = std::function<bool(std::size_t)>;
using Text = std::u32string;
using M = std::function<bool(const Text&, std::size_t, const Cont&)>;
inline M lit(const std::string& s) {
    return [s](const Text& t, std::size_t p, const Cont& k) { for (std::size_t i = 0; i < s.size(); i++) if (p + i >= t.size() || t[p + i] != static_cast<unsigned char>(s[i])) return false; return k(p + s.size()); };
}
inline M set(std::vector<std::pair<unsigned, unsigned>> r, bool neg) {
    return [r, neg](const Text& t, std::size_t p, const Cont& k) {
        if (p >= t.size()) return false;
        bool in = false;
        for (auto& [a, b] : r) in = in || (t[p] >= a && t[p] <= b);
        return in != neg && k(p + 1);
    };
}
inline M seq(std::vector<M> ms) {
    return [ms](const Text& t, std::size_t p, const Cont& k) {
        std::function<bool(std::size_t, std::size_t)> go = [&](std::size_t i, std::size_t q) { return i == ms.size() ? k(q) : ms[i](t, q, [&, i](std::size_t r) { return go(i + 1, r); }); };
        return go(0, p);
    };
}
inline M alt(std::vector<M> ms) {
    return [ms](const Text& t, std::size_t p, const Cont& k) { for (auto& m : ms) if (m(t, p, k)) return true; return false; };
}
inline M rep(M m, char kind) {
    return [m, kind](const Text& t, std::size_t p, const Cont& k) -> bool {
        if (kind == '?') return m(t, p, k) || k(p);
        if (kind == 'l') {   // non-greedy
            std::vector<std::size_t> todo{ p };
            while (!todo.empty()) {
                auto q = todo.back(); todo.pop_back();
                if (k(q)) return true;
                std::size_t nx = q; bool any = m(t, q, [&](std::size_t r) { nx = r; return true; });
                if (any && nx > q) todo.push_back(nx);
            }
            return false;
        }
        std::set<std::size_t> ends{ p }, from{ p }, once;      // greedy: all positions reached, the farthest first
        while (!from.empty()) {
            std::set<std::size_t> next;
            for (auto q : from) m(t, q, [&](std::size_t r) { if (r > q) { once.insert(r); if (ends.insert(r).second) next.insert(r); } else if (q == p) once.insert(r); return false; });
            from.swap(next);
        }
        if (kind == '+') ends = once;
        for (auto i = ends.rbegin(); i != ends.rend(); ++i) if (k(*i)) return true;
        return false;
    };
}
class LexerBase : public Lexer {
    struct Rule { std::size_t type; bool skip; int push; bool pop; M m; bool greedy; };
    std::map<int, std::vector<Rule>> rules;
    ANTLRInputStream* is;
public:
    explicit LexerBase(ANTLRInputStream* s) : is{ s } {}
    void add(int mode, std::size_t type, bool skip, int push, bool pop, M m, bool greedy = true) { rules[mode].push_back({ type, skip, push, pop, std::move(m), greedy }); }
    static Text decode(const std::string& s, std::vector<std::size_t>& off) {
        Text r;
        for (std::size_t i = 0; i < s.size();) {
            unsigned char c = s[i]; int n = c < 0x80 ? 1 : c >= 0xf0 ? 4 : c >= 0xe0 ? 3 : c >= 0xc0 ? 2 : 1;
            char32_t v = n == 1 ? c : n == 2 ? c & 0x1f : n == 3 ? c & 0x0f : c & 0x07;
            off.push_back(i);
            for (int j = 1; j < n && i + j < s.size(); j++) v = (v << 6) | (s[i + j] & 0x3f);
            r.push_back(v); i += n; if (i > s.size()) i = s.size();
        }
        off.push_back(s.size());
        return r;
    }
    std::vector<std::shared_ptr<CommonToken>> all() override {
        std::vector<std::shared_ptr<CommonToken>> out;
        std::vector<std::size_t> off;
        Text t = decode(is->data, off);
        std::vector<int> modes{ 0 };
        std::size_t p = 0, line = 1, col = 0;
        auto adv = [&](std::size_t to) { for (; p < to; p++) { if (t[p] == U'\n') { line++; col = 0; } else col++; } };
        while (p < t.size()) {
            const Rule* best = nullptr; std::size_t bl = 0;
            for (auto& r : rules[modes.back()]) {
                std::size_t len = 0; bool ok = false;
                // longest match of this rule (non-greedy parts stop at the first way through)
                r.m(t, p, [&](std::size_t q) { if (!ok || q - p > len) len = q - p; ok = true; return !r.greedy; });
                if (ok && len > bl) { best = &r; bl = len; }
            }
            if (!best) {
                notify(nullptr, line, col, "token recognition error at: '" + is->data.substr(off[p], off[p + 1] - off[p]) + "'");
                adv(p + 1); continue;
            }
            if (!best->skip) {
                auto k = std::make_shared<CommonToken>();
                k->text = is->data.substr(off[p], off[p + bl] - off[p]); k->type = best->type; k->line = line; k->col = col; k->start = p; k->stop = p + bl - 1;
                out.push_back(k);
            }
            if (best->pop && modes.size() > 1) modes.pop_back();
            if (best->push >= 0) modes.push_back(best->push);
            adv(p + bl);
        }
        auto k = std::make_shared<CommonToken>();
        k->text = "<EOF>"; k->type = Token::EOF; k->line = line; k->col = col; k->start = p; k->stop = p ? p - 1 : 0;
        out.push_back(k);
        return out;
    }
};
}  // namespace antlr4::standin
