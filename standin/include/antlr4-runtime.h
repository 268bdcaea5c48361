// Stand-in for the part of the ANTLR 4 C++ runtime that /repo uses (not installable offline).
// Behaviour is an assumption of the checks that use it (see DESIGN.md, "stand-ins").
#pragma once
#include <any>
#include <cstddef>
#include <cstdint>
#include <exception>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
#undef EOF
namespace antlr4 {
class Token {
public:
    static constexpr std::size_t EOF = static_cast<std::size_t>(-1);
    virtual ~Token() = default;
    virtual std::string getText() const = 0;
    virtual std::size_t getType() const = 0;
    virtual std::size_t getLine() const = 0;
    virtual std::size_t getCharPositionInLine() const = 0;
    virtual std::size_t getStartIndex() const = 0;
    virtual std::size_t getStopIndex() const = 0;
};
class CommonToken : public Token {
public:
    std::string text; std::size_t type{}, line{ 1 }, col{}, start{}, stop{};
    std::string getText() const override { return text; }
    std::size_t getType() const override { return type; }
    std::size_t getLine() const override { return line; }
    std::size_t getCharPositionInLine() const override { return col; }
    std::size_t getStartIndex() const override { return start; }
    std::size_t getStopIndex() const override { return stop; }
};
class Recognizer;
class BaseErrorListener {
public:
    virtual ~BaseErrorListener() = default;
    virtual void syntaxError(Recognizer*, Token*, std::size_t, std::size_t, const std::string&, std::exception_ptr) {}
};
class Recognizer {
protected:
    std::vector<BaseErrorListener*> listeners;
public:
    virtual ~Recognizer() = default;
    void removeErrorListeners() { listeners.clear(); }
    void addErrorListener(BaseErrorListener* l) { listeners.push_back(l); }
    void notify(Token* t, std::size_t line, std::size_t col, const std::string& msg) {
        for (auto l : listeners) l->syntaxError(this, t, line, col, msg, nullptr);
    }
};
namespace tree {
class ParseTreeVisitor { public: virtual ~ParseTreeVisitor() = default; };
class ParseTree {
public:
    virtual ~ParseTree() = default;
    virtual std::string getText() = 0;
    virtual std::any accept(ParseTreeVisitor*) { return {}; }
};
class TerminalNode : public ParseTree {
    std::shared_ptr<CommonToken> tok;
public:
    explicit TerminalNode(std::shared_ptr<CommonToken> t) : tok{ std::move(t) } {}
    Token* getSymbol() { return tok.get(); }
    std::string getText() override { return tok->getText(); }
};
class AbstractParseTreeVisitor : public ParseTreeVisitor {};
}  // namespace tree
class ParserRuleContext : public tree::ParseTree {
public:
    std::vector<std::shared_ptr<tree::ParseTree>> children;
    std::string getText() override { std::string s; for (auto& c : children) s += c->getText(); return s; }
};
class ANTLRInputStream {
public:
    std::string data;
    ANTLRInputStream() = default;
    explicit ANTLRInputStream(std::string s) : data{ std::move(s) } {}
};
class ANTLRFileStream : public ANTLRInputStream {
public:
    void loadFromFile(const std::string& name) { std::ifstream f(name, std::ios::binary); std::ostringstream o; o << f.rdbuf(); data = o.str(); }
};
class Lexer : public Recognizer {
public:
    virtual std::vector<std::shared_ptr<CommonToken>> all() = 0;
};
class CommonTokenStream {
public:
    Lexer* lexer;
    explicit CommonTokenStream(Lexer* l) : lexer{ l } {}
};
class Parser : public Recognizer {};
}  // namespace antlr4
