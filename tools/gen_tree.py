#!/usr/bin/env python3
"""Stand-in for the tree-gen executable: generates the node classes of a .tree file of /repo.
usage: gen_tree.py <repo>/src/v3x <outdir>   (writes <outdir>/libqasm/v3x/*_generated.hpp)"""
import re, sys, os

def camel(n): return "".join(w[:1].upper() + w[1:] for w in n.split("_"))

def parse(text):
    text = re.sub(r"//[^\n]*", "", text)
    text = re.sub(r"#[^\n]*", "", text)
    d = dict(include=[], ns=[], header=None, location=None)
    body = []
    for line in text.split("\n"):
        l = line.strip()
        m = re.match(r"(source|header|include|src_include|import|namespace|tree_namespace|initialize_function|serdes_functions|location)\b(.*)$", l)
        if m and not l.endswith("{") and not l.endswith(";"):
            k, v = m.group(1), m.group(2).strip().strip('"')
            if k == "header": d["header"] = v
            elif k == "include": d["include"].append(v)
            elif k == "namespace": d["ns"].append(v)
        else: body.append(line)
    toks = re.findall(r"[A-Za-z_][A-Za-z_0-9]*(?:::[A-Za-z_][A-Za-z_0-9]*)*|[{}:;<>]", "\n".join(body))
    pos = 0
    nodes = []
    def node(parent):
        nonlocal pos
        name = toks[pos]; assert toks[pos + 1] == "{", toks[pos:pos + 3]; pos += 2
        n = dict(name=name, cls=camel(name), parent=parent, fields=[], kids=[])
        nodes.append(n)
        while toks[pos] != "}":
            if toks[pos + 1] == ":":
                f = toks[pos]; pos += 2
                ext = toks[pos] == "external"
                if ext: pos += 1
                t = toks[pos]; pos += 1
                if toks[pos] == "<":
                    inner = toks[pos + 1]; pos += 3
                    n["fields"].append((f, t, inner, ext))
                else: n["fields"].append((f, None, t, ext))
                assert toks[pos] == ";"; pos += 1
            else:
                n["kids"].append(node(n))
        pos += 1
        return n
    while pos < len(toks): node(None)
    return d, nodes

def ftype(f):
    n, k, t, ext = f
    if k is None: return "::" + t
    inner = "::" + t if ext else camel(t)
    return "::cqasm::tree::%s<%s>" % (k, inner)

def allfields(n): return n["fields"] + (allfields(n["parent"]) if n["parent"] else [])

def gen(d, nodes):
    o = []
    w = o.append
    w("// generated by /verif/tools/gen_tree.py from the .tree file of the repository under test")
    w("#pragma once")
    for i in d["include"]: w('#include "%s"' % i)
    w("#include <ostream>\n#include <sstream>\n#include <string>\n#include <type_traits>")
    w("namespace %s {" % "::".join(d["ns"]))
    w("template <class T> using Maybe = ::cqasm::tree::Maybe<T>; template <class T> using One = ::cqasm::tree::One<T>;")
    w("template <class T> using Any = ::cqasm::tree::Any<T>; template <class T> using Many = ::cqasm::tree::Many<T>;")
    w("template <class T> using Link = ::cqasm::tree::Link<T>; template <class T> using OptLink = ::cqasm::tree::OptLink<T>;")
    leaves = [n for n in nodes if not n["kids"]]
    w("enum class NodeType { %s };" % ", ".join(n["cls"] for n in leaves))
    w("class Node; " + " ".join("class %s;" % n["cls"] for n in nodes))
    w("class VisitorBase { public: virtual ~VisitorBase() = default; virtual void raw_visit_node(Node& node, void* retval) = 0; %s };" %
      " ".join("virtual void raw_visit_%s(%s& node, void* retval) = 0;" % (n["name"], n["cls"]) for n in nodes))
    w("template <class T = void> class Visitor;")
    w("class Node : public ::cqasm::tree::Base {\npublic:\n    virtual NodeType type() const = 0;\n    virtual void visit_internal(VisitorBase& visitor, void* retval = nullptr) = 0;")
    w("    template <class T> T visit(Visitor<T>& visitor) { T retval{}; this->visit_internal(visitor, &retval); return retval; }")
    w("    virtual bool equals(const Node& rhs) const = 0;\n    bool operator==(const Node& rhs) const { return equals(rhs); }\n    bool operator!=(const Node& rhs) const { return !equals(rhs); }")
    w("    virtual ::cqasm::tree::One<Node> copy() const = 0;\n    virtual ::cqasm::tree::One<Node> clone() const = 0;")
    w("    virtual void dump_text(std::ostream& os) const = 0;\n    virtual void dump_json(std::ostream& os) const = 0;\n    void dump_raw_pointers() const {}\n    bool is_well_formed() const { return complete(); }\n    void check_well_formed() const { if (!complete()) throw ::tree::base::NotWellFormed(\"tree is not well-formed\"); }\n    void check_complete() const { check_well_formed(); }")
    w("    static ::cqasm::tree::One<Node> from_text(const std::string& text);")
    for n in nodes:
        w("    virtual %s* as_%s() { return nullptr; }\n    virtual const %s* as_%s() const { return nullptr; }" % (n["cls"], n["name"], n["cls"], n["name"]))
    w("};")
    for n in nodes:
        p = n["parent"]["cls"] if n["parent"] else "Node"
        w("class %s : public %s {\npublic:" % (n["cls"], p))
        for f in n["fields"]: w("    %s %s{};" % (ftype(f), f[0]))
        af = allfields(n)
        params = ", ".join("const %s& %s_ = %s" % (ftype(f), f[0], ("::cqasm::v3x::primitives::initialize<%s>()" if f[1] is None else "%s()") % ftype(f)) for f in af)
        nf = len(n["fields"])
        inits = (["%s(%s)" % (p, ", ".join(f[0] + "_" for f in af[nf:]))] if p != "Node" and len(af) > nf else []) + ["%s{ %s_ }" % (f[0], f[0]) for f in n["fields"]]
        if af: w("    explicit %s(%s)%s {}" % (n["cls"], params, " : " + ", ".join(inits) if inits else "")) if len(af) == 1 else w("    %s(%s)%s {}" % (n["cls"], params, " : " + ", ".join(inits) if inits else ""))
        else: w("    %s() = default;" % n["cls"])
        w("    %s* as_%s() override { return this; }\n    const %s* as_%s() const override { return this; }" % (n["cls"], n["name"], n["cls"], n["name"]))
        if not n["kids"]:
            w("    NodeType type() const override { return NodeType::%s; }" % n["cls"])
            w("    void visit_internal(VisitorBase& visitor, void* retval = nullptr) override { visitor.raw_visit_%s(*this, retval); }" % n["name"])
            w("    bool equals(const Node& rhs) const override;\n    ::cqasm::tree::One<Node> copy() const override;\n    ::cqasm::tree::One<Node> clone() const override;")
            w("    void dump_text(std::ostream& os) const override;\n    void dump_json(std::ostream& os) const override;\n    bool complete() const override;")
        w("};")
    for n in leaves:
        af = allfields(n)
        c = n["cls"]
        w("inline bool %s::equals(const Node& rhs__) const {\n    if (rhs__.type() != NodeType::%s) return false;\n    [[maybe_unused]] auto& other__ = static_cast<const %s&>(rhs__);\n    return true%s;\n}" %
          (c, c, c, "".join(" && " + ("this->%s.equals(other__.%s)" if f[1] else "this->%s == other__.%s") % (f[0], f[0]) for f in af)))
        w("inline ::cqasm::tree::One<Node> %s::copy() const { return ::cqasm::tree::One<Node>(std::make_shared<%s>(*this)); }" % (c, c))
        w("inline ::cqasm::tree::One<Node> %s::clone() const { auto n = std::make_shared<%s>(*this); %s return ::cqasm::tree::One<Node>(n); }" %
          (c, c, " ".join("n->%s = n->%s.clone();" % (f[0], f[0]) for f in af if f[1] and "Link" not in f[1])))
        w("inline bool %s::complete() const {" % c)
        for f in af:
            if f[1] == "One": w("    if (%s.empty() || !%s->complete()) return false;" % (f[0], f[0]))
            elif f[1] == "Maybe": w("    if (!%s.empty() && !%s->complete()) return false;" % (f[0], f[0]))
            elif f[1] in ("Any", "Many"):
                w("    for (auto& x : %s) if (x.empty() || !x->complete()) return false;" % f[0])
                if f[1] == "Many": w("    if (%s.empty()) return false;" % f[0])
            elif f[1] == "Link": w("    if (%s.empty()) return false;" % f[0])
        w("    return true;\n}")
        for js in (False, True):
            w("inline void %s::%s(std::ostream& os) const {" % (c, "dump_json" if js else "dump_text"))
            w('    os << %s;' % (('"{\\"%s\\":{"' % c) if js else '"%s("' % c))
            for i, f in enumerate(af):
                w('    os << "%s";' % (("," if i else "") + ('\\"%s\\":' % f[0] if js else f[0] + "=")))
                fn = "dump_json" if js else "dump_text"
                if f[1] in ("One", "Maybe"): w('    if (%s.empty()) os << "null"; else %s->%s(os);' % (f[0], f[0], fn))
                elif f[1] in ("Any", "Many"): w('    { os << "["; bool first = true; for (auto& x : %s) { if (!first) os << ","; first = false; if (x.empty()) os << "null"; else x->%s(os); } os << "]"; }' % (f[0], fn))
                elif f[1]: w('    os << "\\"link\\"";')
                elif "Instruction" in f[2]: w('    os << (%s.empty() ? "\\"unresolved\\"" : "\\"resolved\\"");' % f[0])
                elif f[2].endswith("Str"): w('    os << "\\"" << %s << "\\"";' % f[0])
                else: w("    os << %s;" % f[0])
            w('    os << %s;\n}' % ('"}}"' if js else '")"'))
    w("inline ::cqasm::tree::One<Node> Node::from_text(const std::string& text) {\n    [[maybe_unused]] auto num = [&text](std::size_t i) { for (std::size_t p = 0; p < text.size(); p++) if (text[p] == '=' && i-- == 0) return std::stoll(text.substr(p + 1)); throw std::runtime_error(\"bad node text\"); };")
    for n in leaves:
        af = allfields(n)
        if all(f[1] is None and f[2].endswith("::Int") for f in af):
            w("    if (text.compare(0, %d, \"%s(\") == 0) return ::cqasm::tree::One<Node>(std::make_shared<%s>(%s));" % (len(n["cls"]) + 1, n["cls"], n["cls"], ", ".join("num(%d)" % i for i in range(len(af)))))
    w("    throw std::runtime_error(\"cannot read node text\");\n}")
    w("template <class T> class Visitor : public VisitorBase {\npublic:\n    void raw_visit_node(Node& node, void* retval) override { T r = this->visit_node(node); if (retval) *static_cast<T*>(retval) = std::move(r); }")
    for n in nodes: w("    void raw_visit_%s(%s& node, void* retval) override { T r = this->visit_%s(node); if (retval) *static_cast<T*>(retval) = std::move(r); }" % (n["name"], n["cls"], n["name"]))
    w("    virtual T visit_node(Node& node) = 0;")
    for n in nodes: w("    virtual T visit_%s(%s& node) { return this->visit_%s(node); }" % (n["name"], n["cls"], n["parent"]["name"] if n["parent"] else "node"))
    w("};")
    w("inline std::ostream& operator<<(std::ostream& os, const Node& node) { node.dump_text(os); return os; }")
    w("}  // namespace")
    return "\n".join(o) + "\n"

def main(src, out):
    os.makedirs(os.path.join(out, "libqasm/v3x"), exist_ok=True)
    for t in ("types", "values", "semantic", "syntactic"):
        d, nodes = parse(open(os.path.join(src, t + ".tree")).read())
        s = gen(d, nodes)
        p = os.path.join(out, d["header"])
        if not os.path.exists(p) or open(p).read() != s:
            with open(p + ".tmp", "w") as f: f.write(s)
            os.replace(p + ".tmp", p)

if __name__ == "__main__": main(sys.argv[1], sys.argv[2])
