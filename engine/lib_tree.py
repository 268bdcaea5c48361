"""Contracts of tree-gen's support library (annotations, node pointers) used by /repo (trusted)."""
import z3
from .vals import *
from .core import *
from .execute import isfp, isintish, cell_value
from .lib_std import L, model, ctor, throw_std, targ, build, VOID

SL_CLS = "cqasm::annotations::SourceLocation"
AN = "tree::annotatable::Annotatable::"
NOLOC = NULL

def node_name(o): return o.name
def loc_of(ex, o):
    """annotation pointer of a node value"""
    if isinstance(o, Obj): return o.f.get("#loc", NULL)
    if isinstance(o, SymRef): return Ptr(Cell(o.name + ".loc", o.args, SL_CLS), ex.uf(o.name + ".noloc", o.args, z3.BoolSort()), SL_CLS)
    raise Unsupported("annotation of %r" % (o,))

_old_mat = Exec.materialize
def materialize(self, o):
    r = _old_mat(self, o)
    u, d = self.prog.recs[o.cls]
    f = dict(r.f)
    for b in d.get("bases", []):
        bt = u.ty(b)
        if bt.get("n") in ("std::vector", "std::basic_string"): f["#" + bt["n"]] = self.field(o, "#" + bt["n"])
    if is_annotatable(self, o.cls): f["#loc"] = loc_of(self, o)
    return Obj(o.cls, f)
Exec.materialize = materialize

def all_bases(ex, cls):
    out, todo = [], [cls]
    while todo:
        c = todo.pop()
        if c in out: continue
        out.append(c)
        if c in ex.prog.recs:
            u, d = ex.prog.recs[c]
            todo += [u.ty(b).get("n") for b in d.get("bases", [])]
    return out
def is_annotatable(ex, cls): return "tree::annotatable::Annotatable" in all_bases(ex, cls) or "tree::base::Base" in all_bases(ex, cls)

def loc_cell(ex, this, e=None): return loc_of(ex, this.get(ex))
def loc_set(ex, this, p):
    o = this.get(ex)
    if isinstance(o, SymRef): o = ex.materialize(o)
    this.set(ex, o.with_("#loc", p))

def the_type(unit, d):
    ta = d.get("ta") or []
    n = unit.ty(ta[0]["t"] if isinstance(ta[0], dict) else ta[0]).get("n") if ta else SL_CLS
    if n != SL_CLS: raise Unsupported("annotation of type %s" % n)

@model(AN + "get_annotation_ptr")
def m_getp(ex, unit, d, this, args, e): return loc_cell(ex, this)
@model(AN + "get_annotation")
def m_get(ex, unit, d, this, args, e):
    p = loc_cell(ex, this)
    if ex.branch(p.null): throw_std(ex, "std::runtime_error", "object does not have an annotation of this type")
    return CellLV(p.cell)
@model(AN + "has_annotation")
def m_has(ex, unit, d, this, args, e): return simp(Not(loc_cell(ex, this).null))
@model(AN + "set_annotation")
def m_set(ex, unit, d, this, args, e):
    loc_set(ex, this, Ptr(ex.newcell(ex.copy_in(ex.rv(args[0])), "ann"), False, SL_CLS)); return VOID
@model(AN + "erase_annotation")
def m_erase(ex, unit, d, this, args, e): loc_set(ex, this, NULL); return VOID
@model(AN + "copy_annotation")
def m_copy(ex, unit, d, this, args, e):
    p = loc_of(ex, ex.lvof(args[0]).get(ex))
    if p.null is True: loc_set(ex, this, NULL)
    else: loc_set(ex, this, Ptr(ex.newcell(ex.load(p.cell), "ann"), p.null, SL_CLS))
    return VOID
@ctor("tree::annotatable::Annotatable", "tree::base::Base")
def c_ann(ex, unit, d, ty, args, e): return Obj(ty if isinstance(ty, str) else "tree::annotatable::Annotatable", {})
