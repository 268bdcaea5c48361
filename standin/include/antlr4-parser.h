// Stand-in parser: ordered choice with full backtracking; left-recursive alternatives by precedence climbing.
#pragma once
#include "antlr4-lexer.h"
namespace antlr4::standin {
using Kids = std::vector<std::shared_ptr<tree::ParseTree>>;
class ParserBase;
using PK = std::function<bool(std::size_t)>;
using PE = std::function<bool(ParserBase&, std::size_t, Kids&, int, const PK&)>;   // (parser, pos, children, precedence of a trailing self reference, continuation)
struct AltDef { std::function<std::shared_ptr<ParserRuleContext>()> make; PE body; bool lrec; int prec; bool right; bool prefix; };
struct RuleDef { const char* name; std::vector<AltDef> alts; };
class ParserBase : public Parser {
public:
    std::vector<RuleDef> defs;
    CommonTokenStream* ts;
    std::vector<std::shared_ptr<CommonToken>> toks;
    std::size_t far{};
    explicit ParserBase(CommonTokenStream* t) : ts{ t } {}
    bool left(std::size_t r) const { for (auto& a : defs[r].alts) if (a.lrec) return true; return false; }
    bool match(std::size_t r, std::size_t p, Kids& out, int prec, const PK& k) {
        auto n = out.size();
        for (auto& a : defs[r].alts) {
            if (a.lrec) continue;
            auto ctx = a.make();
            Kids kids;
            if (a.body(*this, p, kids, a.prefix ? a.prec : 0, [&](std::size_t q) {
                    ctx->children = kids;
                    return tail(r, ctx, q, prec, out, k);
                })) return true;
            out.resize(n);
        }
        return false;
    }
    bool tail(std::size_t r, std::shared_ptr<ParserRuleContext> lhs, std::size_t p, int prec, Kids& out, const PK& k) {
        auto n = out.size();
        for (auto& a : defs[r].alts) {
            if (!a.lrec || a.prec < prec) continue;
            auto ctx = a.make();
            Kids kids{ lhs };
            if (a.body(*this, p, kids, a.right ? a.prec : a.prec + 1, [&](std::size_t q) {
                    ctx->children = kids;
                    return tail(r, ctx, q, prec, out, k);
                })) return true;
            out.resize(n);
        }
        out.push_back(lhs);
        if (k(p)) return true;
        out.resize(n);
        return false;
    }
    std::shared_ptr<ParserRuleContext> parse(std::size_t r) {
        toks = ts->lexer->all();
        Kids out;
        if (match(r, 0, out, 0, [&](std::size_t) { return true; })) return std::dynamic_pointer_cast<ParserRuleContext>(out.at(0));
        auto& t = toks.at(far < toks.size() ? far : toks.size() - 1);
        notify(t.get(), t->line, t->col, "syntax error at '" + t->text + "'");
        throw std::runtime_error("syntax error not reported");
    }
};
inline PE tok(std::size_t type) {
    return [type](ParserBase& ps, std::size_t p, Kids& out, int, const PK& k) {
        if (p >= ps.toks.size() || ps.toks[p]->type != type) { if (p > ps.far) ps.far = p; return false; }
        auto n = out.size();
        out.push_back(std::make_shared<tree::TerminalNode>(ps.toks[p]));
        if (k(p + 1)) return true;
        out.resize(n);
        return false;
    };
}
struct RuleRef { std::size_t r; bool operator()(ParserBase& ps, std::size_t p, Kids& out, int prec, const PK& k) const { return ps.match(r, p, out, prec, k); } };
inline PE rule(std::size_t r) { return RuleRef{ r }; }
// only the last element of a sequence inherits the precedence (the trailing self reference)
inline PE seq(std::vector<PE> es) {
    return [es](ParserBase& ps, std::size_t p, Kids& out, int prec, const PK& k) {
        std::function<bool(std::size_t, std::size_t)> go = [&](std::size_t i, std::size_t q) { return i == es.size() ? k(q) : es[i](ps, q, out, i + 1 == es.size() ? prec : 0, [&, i](std::size_t r) { return go(i + 1, r); }); };
        return go(0, p);
    };
}
inline PE alts(std::vector<PE> es) {
    return [es](ParserBase& ps, std::size_t p, Kids& out, int prec, const PK& k) { auto n = out.size(); for (auto& e : es) { if (e(ps, p, out, prec, k)) return true; out.resize(n); } return false; };
}
inline PE rep(PE e, char kind) {
    return [e, kind](ParserBase& ps, std::size_t p, Kids& out, int, const PK& k) -> bool {
        if (kind == '?') { auto n = out.size(); if (e(ps, p, out, 0, k)) return true; out.resize(n); return k(p); }
        std::function<bool(std::size_t, bool)> go = [&](std::size_t q, bool may) -> bool {
            auto n = out.size();
            if (e(ps, q, out, 0, [&](std::size_t r) { return r > q && go(r, true); })) return true;
            out.resize(n);
            return may && k(q);
        };
        return go(p, kind == '*');
    };
}
inline tree::TerminalNode* token(ParserRuleContext& c, std::size_t type, std::size_t i) {
    for (auto& x : c.children) if (auto t = dynamic_cast<tree::TerminalNode*>(x.get()); t && t->getSymbol()->getType() == type && i-- == 0) return t;
    return nullptr;
}
inline std::vector<tree::TerminalNode*> tokenAll(ParserRuleContext& c, std::size_t type) {
    std::vector<tree::TerminalNode*> r;
    for (auto& x : c.children) if (auto t = dynamic_cast<tree::TerminalNode*>(x.get()); t && t->getSymbol()->getType() == type) r.push_back(t);
    return r;
}
template <class T> T* child(ParserRuleContext& c, std::size_t i) {
    for (auto& x : c.children) if (auto t = dynamic_cast<T*>(x.get()); t && i-- == 0) return t;
    return nullptr;
}
template <class T> std::vector<T*> childAll(ParserRuleContext& c) {
    std::vector<T*> r;
    for (auto& x : c.children) if (auto t = dynamic_cast<T*>(x.get())) r.push_back(t);
    return r;
}
}  // namespace antlr4::standin
