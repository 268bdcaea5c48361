// Verification driver: instantiates the comparisons of the real header for arbitrary operands.
#include "libqasm/annotations.hpp"
namespace verif {
using L = cqasm::annotations::SourceLocation;
L::Range rng_default() { return L::Range{}; }
bool idx_eq(const L::Index& a, const L::Index& b) { return a == b; }
bool idx_lt(const L::Index& a, const L::Index& b) { return a < b; }
bool idx_le(const L::Index& a, const L::Index& b) { return a <= b; }
bool idx_gt(const L::Index& a, const L::Index& b) { return a > b; }
bool rng_eq(const L::Range& a, const L::Range& b) { return a == b; }
bool rng_lt(const L::Range& a, const L::Range& b) { return a < b; }
bool rng_le(const L::Range& a, const L::Range& b) { return a <= b; }
bool rng_gt(const L::Range& a, const L::Range& b) { return a > b; }
bool loc_lt(const L& a, const L& b) { return a < b; }
bool loc_le(const L& a, const L& b) { return a <= b; }
bool loc_gt(const L& a, const L& b) { return a > b; }
bool loc_eq(const L& a, const L& b) { return a == b; }
}  // namespace verif
