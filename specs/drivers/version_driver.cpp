// Verification driver: instantiates the comparisons of the real header for arbitrary operands.
#include "libqasm/version.hpp"
namespace verif {
using V = cqasm::version::Version;
V ver_default() { return V{}; }
bool ver_eq(const V& a, const V& b) { return a == b; }
bool ver_ne(const V& a, const V& b) { return a != b; }
bool ver_lt(const V& a, const V& b) { return a < b; }
bool ver_le(const V& a, const V& b) { return a <= b; }
bool ver_gt(const V& a, const V& b) { return a > b; }
bool ver_ge(const V& a, const V& b) { return a >= b; }
}  // namespace verif
