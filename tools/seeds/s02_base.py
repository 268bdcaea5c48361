import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mkseed import make, V
I = V + "/standin/include/"
STUB = {n: open(I + n).read() for n in ("tree-annotatable.hpp", "tree-base.hpp", "tree-cbor.hpp")}
H = '#include <cstdio>\n#include <string>\n#include <sstream>\n#include <vector>\n#include <memory>\n%s#define CHECK(c) do { if (!(c)) { std::puts("broken: " #c); return 1; } } while (0)\n'
def go(id, prop, needs, breaks, edits, inc, body, srcs):
    make(id, prop, needs, breaks, edits, H % "".join('#include "%s"\n' % i for i in inc) + body, srcs, extra='-I "$D"', files=STUB)
VE, ER, SB = "src/version.cpp", "src/error.cpp", "src/string_builder.cpp"
VH = "libqasm/version.hpp"
go("v01-leading-dot", "C07", "a text with two consecutive dots or a leading dot", "an empty component is skipped instead of rejected",
  [(VE, "        push_back(std::stoll(version.substr(last, next - last)));\n", "        if (next != last) {\n            push_back(std::stoll(version.substr(last, next - last)));\n        }\n")] if False else
  [(VE, "        last = next + 1;\n", "        last = version.find_first_not_of('.', next);\n        if (last == std::string::npos) {\n            last = version.size();\n        }\n")],
  [VH], 'int main() { bool t = false; try { cqasm::version::Version v("1..2"); } catch (const std::exception&) { t = true; } CHECK(t); return 0; }\n', [VE])
go("v02-negative-mid", "C07", "a negative component that is not the last one", "only the last component is checked for being negative",
  [(VE, "    for (auto component : *this) {\n        if (component < 0) {\n            throw std::invalid_argument(\"version component below zero\");\n        }\n    }", "    if (back() < 0) {\n        throw std::invalid_argument(\"version component below zero\");\n    }")],
  [VH], 'int main() { bool t = false; try { cqasm::version::Version v("1.-2.3"); } catch (const std::exception&) { t = true; } CHECK(t); return 0; }\n', [VE])
go("v03-compare-short", "C08", "versions of different length that agree on the common part, the longer going on with a zero and then a non-zero", "comparison stops at the first missing component that is zero",
  [(VE, "        if (lhs > rhs) {\n", "        if (i >= this->size() && rhs == 0) {\n            return 0;\n        }\n        if (lhs > rhs) {\n")],
  [VH], 'int main() { using V = cqasm::version::Version; CHECK(V("3") < V("3.0.1")); CHECK(!(V("3") == V("3.0.1"))); CHECK(V("3") == V("3.0.0")); return 0; }\n', [VE])
go("v04-compare-narrow", "C08", "components that differ by a multiple of 2^32 or by more than 2^31", "components are compared through the sign of a 32-bit difference",
  [(VE, "        if (lhs > rhs) {\n            return 1;\n        }\n        if (lhs < rhs) {\n            return -1;\n        }\n", "        if (const int diff = static_cast<int>(lhs - rhs); diff != 0) {\n            return diff > 0 ? 1 : -1;\n        }\n")],
  [VH], 'int main() { using V = cqasm::version::Version; V a("1.2"), b("1.2"); a[1] = 5000000000; b[1] = 705032704; CHECK(b < a); CHECK(!(a == b)); return 0; }\n', [VE])
go("v05-print-zero", "C07", "a version whose last component is zero and that has more than two components", "trailing zeros are not printed, so components are lost",
  [(VE, '    return os << fmt::format("{}", fmt::join(object, "."));', '    auto last = object.end();\n    while (last - object.begin() > 2 && *(last - 1) == 0) {\n        --last;\n    }\n    return os << fmt::format("{}", fmt::join(object.begin(), last, "."));')],
  [VH], 'int main() { cqasm::version::Version v("3.0.0"); std::ostringstream o; o << v; CHECK(o.str() == "3.0.0"); return 0; }\n', [VE])
EH = ["libqasm/error.hpp", "libqasm/annotations.hpp"]
ES = [ER, "src/annotations.cpp", "src/utils.cpp"]
go("e01-context-overwrite", "C09", "a context attached to an error whose location has no file name", "a later context replaces a location without a file name",
  [(ER, "    if (!location_) {\n", "    if (!location_ || !location_->file_name.has_value()) {\n")],
  EH, 'using L = cqasm::annotations::SourceLocation;\nstruct N : tree::annotatable::Annotatable {};\nint main() { cqasm::error::Error e("m", std::nullopt, L::Range({1, 2}, {1, 3})); N n; n.set_annotation(L("f", L::Range({7, 7}, {7, 8}))); std::string a = e.what(); e.context(n); CHECK(a == e.what()); return 0; }\n', ES)
go("e02-context-alias", "C09", "the node's annotation changes after the context was attached", "the error refers to the node's location instead of copying it",
  [(ER, "            location_ = std::make_shared<annotations::SourceLocation>(*loc);", "            location_ = std::shared_ptr<annotations::SourceLocation>(std::shared_ptr<void>{}, const_cast<annotations::SourceLocation*>(loc));")],
  EH, 'using L = cqasm::annotations::SourceLocation;\nstruct N : tree::annotatable::Annotatable {};\nint main() { N n; n.set_annotation(L("f", L::Range({7, 7}, {7, 8}))); cqasm::error::Error e("m", &n); std::string a = e.what(); n.get_annotation_ptr<L>()->range.first.line = 3; CHECK(a == e.what()); return 0; }\n', ES)
go("e03-what-cached", "C09", "what() called before a context is attached", "the message is cached without the location",
  [(ER, '    what_message_ = fmt::format(', '    if (!what_message_.empty()) {\n        return what_message_.c_str();\n    }\n    what_message_ = fmt::format(')],
  EH, 'using L = cqasm::annotations::SourceLocation;\nstruct N : tree::annotatable::Annotatable {};\nint main() { N n; n.set_annotation(L("f", L::Range({7, 7}, {7, 8}))); cqasm::error::Error e("m"); (void)e.what(); e.context(n); CHECK(std::string(e.what()) == "Error at f:7:7..8: m"); return 0; }\n', ES)
go("e04-json-message-format", "C10", "a message with a backslash, without any quote or control character", "messages without quotes are not encoded",
  [(ER, "        cqasm::utils::json_encode(message_),\n", "        message_.find_first_of(\"\\\"\\n\\r\\t\") == std::string::npos ? message_ : cqasm::utils::json_encode(message_),\n")],
  EH, 'int main() { cqasm::error::Error e("a\\\\b"); CHECK(e.to_json().find("a\\\\u005Cb") != std::string::npos); return 0; }\n', ES)
go("e05-json-end-line", "C10", "a location whose range ends on a later line than it starts", "the end column of a multi-line range is that of its start",
  [(ER, "        location_ ? location_->range.last.column : 0,\n", "        location_ ? (location_->range.last.line == location_->range.first.line ? location_->range.last.column : location_->range.first.column) : 0,\n")],
  EH, 'using L = cqasm::annotations::SourceLocation;\nint main() { cqasm::error::Error e("m", std::nullopt, L::Range({1, 2}, {4, 9})); CHECK(e.to_json().find("\\"end\\":{\\"line\\":4,\\"character\\":9}") != std::string::npos); return 0; }\n', ES)
go("e06-json-related-blank", "C10", "a location with an empty file name", "an empty file name gives no related information although the name is present",
  [(ER, "        cqasm::utils::url_encode(location_->file_name.value()),\n", "        location_->file_name.value(),\n")],
  EH, 'using L = cqasm::annotations::SourceLocation;\nint main() { cqasm::error::Error e("m", std::string("a b\\".cq"), L::Range({1, 2}, {4, 9})); CHECK(e.to_json().find("file:///a%20b%22.cq\\"") != std::string::npos); return 0; }\n', ES)
SS = [SB]
go("s01-escape-prefix", "C12", "an escape that only starts like a known one", "a longer unknown escape is decoded as the known one it starts with",
  [(SB, 'if (escape == "\\\\t") {', 'if (escape.compare(0, 2, "\\\\t") == 0) {')],
  ["libqasm/string_builder.hpp"], 'int main() { cqasm::syntactic::StringBuilder b; b.push_escape("\\\\tab"); CHECK(b.stream.str() == "\\\\tab"); cqasm::syntactic::StringBuilder c; c.push_escape("\\\\t"); CHECK(c.stream.str() == "\\t"); return 0; }\n', SS)
go("s02-fragment-nul", "C12", "a fragment with an embedded NUL byte", "the fragment is cut at the NUL",
  [(SB, "    stream << str;", "    stream << str.c_str();")],
  ["libqasm/string_builder.hpp"], 'int main() { cqasm::syntactic::StringBuilder b; b.push_string(std::string("a\\0b", 3)); CHECK(b.stream.str().size() == 3); return 0; }\n', SS)
