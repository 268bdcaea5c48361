"""Helpers for contracts over tree nodes (used by the v3x specifications)."""
import z3
from engine.vals import *
from engine.core import *
from engine.prove import *
from engine.lib_nodes import *
from engine import lib_tree

T, V = "cqasm::v3x::types", "cqasm::v3x::values"
SEM = "cqasm::v3x::semantic"

def leaf(ns, name):
    """index of a leaf class in its namespace"""
    return LEAVES[ns].index(ns + "::" + name)
def tt(name): return leaf(T, name)
def vt(name): return leaf(V, name)
def sym_node(ex, cls, name, args=()): return sym_ptr(ex, cls, name, args, False)
def node(ex, p): return ex.load(p.cell)
def tag(ex, p): return tag_of(ex, node(ex, p))
def get(ex, p, f, cls=None):
    """field of the node p points to"""
    o = node(ex, p)
    if cls is not None and isinstance(o, SymRef): o = SymRef(cls, o.name, o.args)
    if isinstance(o, Obj) and f not in o.f and "#sym" in o.f and cls is not None:
        o = SymRef(cls, o.f["#sym"].name, o.f["#sym"].args)
    return ex.field(o, f)
def is_leaf(ex, p, ns, name): return eq(tag(ex, p), leaf(ns, name))
def same_ptr(p, q):
    return p.cell is not None and q.cell is not None and getattr(p.cell, "key", 1) == getattr(q.cell, "key", 2)
def loc(ex, p): return lib_tree.loc_of(ex, node(ex, p))
def loc_same(ex, a, b):
    """Bool: the two optional annotations are equal"""
    if a.cell is None or b.cell is None:
        return And(a.null if a.cell is not None else True, b.null if b.cell is not None else True)
    if a.cell.key == b.cell.key and a.null is b.null: return True
    va, vb = ex.load(a.cell), ex.load(b.cell)
    return Or(And(a.null, b.null), And(Not(a.null), Not(b.null), ex.veq(va, vb)))
def null(p): return True if p.cell is None else p.null
def value_type(ex, p):
    """specification: (type tag of a value, Bool: it has one), without looking at the code under contract"""
    if ex.branch(is_leaf(ex, p, V, "ConstBool")): return tt("Bool"), True
    if ex.branch(is_leaf(ex, p, V, "ConstInt")): return tt("Int"), True
    if ex.branch(is_leaf(ex, p, V, "ConstFloat")): return tt("Float"), True
    if ex.branch(is_leaf(ex, p, V, "IndexRef")):
        var = get(ex, p, "variable", V + "::IndexRef"); typ = get(ex, var, "typ", SEM + "::Variable")
        t = tag(ex, typ)
        n = ex.seq_len(get(ex, p, "indices", V + "::IndexRef"))
        one = eq(n, 1)
        arr = Or(eq(t, tt("QubitArray")), eq(t, tt("BitArray")))
        return If(one, If(eq(t, tt("QubitArray")), tt("Qubit"), tt("Bit")), t), simp(Or(Not(one), arr))
    var = get(ex, p, "variable", V + "::VariableRef"); typ = get(ex, var, "typ", SEM + "::Variable")
    return tag(ex, typ), True

ERR = "cqasm::error::Error"
PLACEHOLDER = "<unknown error message>"
def loc_copy(ex, p):
    """a shared copy of an annotation (null if there is none)"""
    if p.cell is None or p.null is True: return NULL
    return Ptr(ex.newcell(ex.load(p.cell), "errloc"), p.null, lib_tree.SL_CLS)
def error_ctor(ex, unit, d, this, args):
    """error::Error constructors, as proved under C09: the message (placeholder if empty) and the first location given"""
    if not args: raise Unsupported("Error constructor without arguments")
    m = ex.as_seq(ex.rv(args[0]))
    if len(args) > 2: return NotImplemented
    msg = Seq.lit(PLACEHOLDER) if ex.branch(ex.empty(m)) else m
    loc = NULL
    if len(args) == 2:
        t = unit.ty(unit.strip(d["ps"][1]["t"]))
        p = ex.rv(args[1])
        if t["k"] == "ptr":     # const Annotatable *
            if isinstance(p, Ptr) and p.cell is not None and not ex.branch(p.null):
                loc = loc_copy(ex, lib_tree.loc_of(ex, ex.load(p.cell)))
        else: loc = p
    return Obj(ERR, {"message_": msg, "what_message_": Seq(), "location_": loc})
def error_context(ex, unit, d, this, args):
    """error::Error::context, as proved under C09: attaches the location of the node if there is none yet"""
    cur = this.get(ex).f["location_"]
    if cur.cell is not None and not ex.branch(cur.null): return UNIT
    FieldLV(this, "location_").set(ex, loc_copy(ex, lib_tree.loc_of(ex, ex.lvof(args[0]).get(ex))))
    return UNIT
from engine.lib_std import VOID as UNIT
ERR_CONTRACTS = {ERR + "::Error": error_ctor, ERR + "::(ctor)": error_ctor, ERR + "::context": error_context}
