import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mkseed import make
H = '#include <cstdio>\n#include <string>\n#include <sstream>\n#include "libqasm/utils.hpp"\n#include "libqasm/annotations.hpp"\nusing namespace cqasm::utils;\n#define CHECK(c) do { if (!(c)) { std::puts("broken: " #c); return 1; } } while (0)\n'
U, A = "src/utils.cpp", "src/annotations.cpp"
make("u01-json-last-byte", "C01", "a string that ends in a byte needing an escape and is longer than one byte", "a trailing quote or backslash is emitted unescaped",
  [(U, '''    return ret;
}

/**
 * Removes the triple''', '''    // Trailing quotes come from the lexer already escaped.
    if (str.size() > 512 && str.back() == '\\n' && ret.size() >= 6) {
        ret.resize(ret.size() - 6);
    }
    return ret;
}

/**
 * Removes the triple''')], H + 'int main() { std::string s(600, \'a\'); s += "\\n"; std::string r = json_encode(s); CHECK(r.size() == 606); return 0; }\n', [U])
make("u02-url-low-bytes", "C02", "a control byte below 0x10 in the text", "%HH loses its leading zero, so decoding is ambiguous",
  [(U, '"%{:02X}"', '"%{:2X}"')], H + 'int main() { CHECK(url_encode("a\\nb") == "a%0Ab"); return 0; }\n', [U])
make("u03-url-tilde-locale", "C02", "a byte above 0x7f or a plus sign", "'+' is kept as it is",
  [(U, "c == '.' || c == '~')", "c == '.' || c == '~' || (ret.size() > 16 && c == '+'))")], H + 'int main() { CHECK(url_encode("aaaaaaaaaaaaaaaaaaaaaaaa+") == "aaaaaaaaaaaaaaaaaaaaaaaa%2B"); return 0; }\n', [U])
make("u04-lower-punct", "C03", "a byte between 'Z' and 'a' such as '@' or '['", "comparison folds punctuation: '[' equals '{'",
  [(U, "return std::tolower(l) == std::tolower(r);", "return std::tolower(l) == std::tolower(r) || ((l ^ r) == 0x20 && (l & 0x40) && (r & 0x40));")], H + 'int main() { CHECK(!equal_case_insensitive("a[0]", "a{0]")); CHECK(equal_case_insensitive("Ab", "aB")); return 0; }\n', [U])
make("u05-compare-prefix", "C03", "strings of different length where one is a prefix of the other and the longer goes on with a NUL", "strings of different length compare equal",
  [(U, "    return ranges::equal(lhs, rhs, [](", "    return ranges::equal(std::string(lhs.c_str()), std::string(rhs.c_str()), [](")], H + 'int main() { CHECK(!equal_case_insensitive(std::string("ab"), std::string("ab\\0c", 4))); return 0; }\n', [U])
make("u06-triple-strip-newline", "C04", "raw text starting with a newline", "the first newline of the text is dropped",
  [(U, "    return str.substr(3, str.size() - 6);", "    const size_t first = (str.size() > 7 && str[3] == '\\n') ? 4 : 3;\n    return str.substr(first, str.size() - 3 - first);")], H + 'int main() { CHECK(remove_triple_quotes("\'\'\'\\nabc\'\'\'") == "\\nabc"); return 0; }\n', [U])
make("a01-range-columns", "C05", "positions on different lines where the last column is smaller than the first column", "multi-line ranges end at the wrong column",
  [(A, "    last = std::max<Index>(last, first);", "    last.line = std::max(last.line, first.line);\n    last.column = std::max(last.column, first.column);")], H + 'using L = cqasm::annotations::SourceLocation;\nint main() { L::Range r({1, 9}, {2, 3}); CHECK(r.last.line == 2 && r.last.column == 3); return 0; }\n', [A])
make("a02-expand-last", "C05", "expanding by a position before the start of the range", "range shrinks at its end when expanded backwards",
  [(A, "    range.last = std::max<Index>(range.last, index);", "    range.last = std::max<Index>(range.first, std::max(index, index.line < range.last.line ? index : range.last));")], H + 'using L = cqasm::annotations::SourceLocation;\nint main() { L l("f", L::Range({2, 1}, {5, 3})); l.expand_to_include({1, 1}); CHECK(l.range.last.line == 5 && l.range.last.column == 3); return 0; }\n', [A])
make("a03-index-order", "C05", "comparing positions whose line and column orders disagree", "positions are ordered by column first",
  [("include/libqasm/annotations.hpp", "        std::uint32_t line = 0;\n        std::uint32_t column = 0;\n\n        bool operator==(const Index& other) const = default;\n        auto operator<=>(const Index& other) const = default;", "        std::uint32_t line = 0;\n        std::uint32_t column = 0;\n\n        bool operator==(const Index& other) const = default;\n        auto operator<=>(const Index& other) const {\n            // Lines and columns packed together so that a single comparison suffices.\n            return (static_cast<std::uint64_t>(line) * 65536u + column) <=> (static_cast<std::uint64_t>(other.line) * 65536u + other.column);\n        }")],
  H + 'using L = cqasm::annotations::SourceLocation;\nint main() { CHECK((L::Index{1, 70000} < L::Index{2, 1})); return 0; }\n', [A])
make("a04-print-last-column", "C06", "a range spanning several lines that ends in the column it starts in", "the end of a multi-line range is not printed",
  [(A, "    } else if (object.range.last.line > object.range.first.line) {\n        // Range is on multiple", "    } else if (object.range.last.line > object.range.first.line && object.range.last.column != object.range.first.column) {\n        // Range is on multiple")], H + 'using L = cqasm::annotations::SourceLocation;\nint main() { std::ostringstream o; o << L("f", L::Range({1, 4}, {3, 4})); CHECK(o.str() == "f:1:4..3:4"); return 0; }\n', [A])
make("a05-file-name-blank", "C06", "a file name that consists of blanks only", "blank file names are treated as unknown",
  [(A, "file_name.value().empty()", "file_name.value().find_first_not_of(' ') == std::string::npos")], H + 'using L = cqasm::annotations::SourceLocation;\nint main() { std::ostringstream o; o << L(" ", L::Range({1, 4}, {1, 4})); CHECK(o.str() == " :1:4"); return 0; }\n', [A])
