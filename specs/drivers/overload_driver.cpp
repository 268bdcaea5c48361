// Verification driver: instantiates every member of the real Overload for the tag types the library uses.
#include "libqasm/v3x/core_function.hpp"
#include "libqasm/v3x/resolver.hpp"
namespace verif {
using Ref = cqasm::overload::Overload<cqasm::v3x::instruction::InstructionRef, cqasm::v3x::types::TypeBase>;
using Fn = cqasm::overload::Overload<cqasm::v3x::resolver::ConstEvalCoreFunction, cqasm::v3x::types::TypeBase>;
void copy_ref(Ref& a, const Ref& b) { a = b; }
void move_ref(Ref& a, Ref& b) { a = std::move(b); }
void copy_fn(Fn& a, const Fn& b) { a = b; }
void move_fn(Fn& a, Fn& b) { a = std::move(b); }
void other(Ref& a, Fn& b) { Ref c(a); Ref d(std::move(c)); Fn e(b); Fn f(std::move(e)); }
}  // namespace verif
