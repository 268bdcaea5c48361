"""Contracts of the tree classes tree-gen generates from /repo's .tree files and of tree::base's node
containers (trusted; the class hierarchy and fields are read from the current .tree files).
A One/Maybe/Link/OptLink is a pointer to a heap cell (empty = null), an Any/Many a sequence of pointers.
A node built by the code is an Obj of its concrete class; an unknown input node is a symbolic cell whose
dynamic type is an uninterpreted tag ranging over the leaf classes below its static class."""
import os, sys, z3
from .vals import *
from .core import *
from .unit import REPO, VERIF
from .lib_std import L, model, ctor, throw_std, targ, build, VOID, new_stream, os_write, S
from .lib_tree import loc_of, SL_CLS
from . import lib_tree
sys.path.insert(0, os.path.join(VERIF, "tools"))
import gen_tree

META = {}      # qualified class -> dict(name, parent, fields=[(name, kind, type)], lo, hi, ns, leaf)
LEAVES = {}    # namespace -> [qualified leaf class]

def load_meta():
    if META: return META
    for t in ("types", "values", "semantic", "syntactic"):
        p = os.path.join(REPO, "src/v3x", t + ".tree")
        if not os.path.exists(p): continue
        d, nodes = gen_tree.parse(open(p).read())
        ns = "::".join(d["ns"])
        q = lambda c: ns + "::" + c
        leaves = [n for n in nodes if not n["kids"]]
        LEAVES[ns] = [q(n["cls"]) for n in leaves]
        def span(n): return [leaves.index(n)] if not n["kids"] else [x for k in n["kids"] for x in span(k)]
        for n in nodes:
            s = span(n)
            assert s == list(range(s[0], s[-1] + 1))
            fs = [(f, k, ("::".join([ns, gen_tree.camel(ty)]) if k and not ext else ty)) for f, k, ty, ext in n["fields"]]
            META[q(n["cls"])] = dict(name=n["name"], cls=q(n["cls"]), parent=q(n["parent"]["cls"]) if n["parent"] else q("Node"), fields=fs, lo=s[0], hi=s[-1], ns=ns, leaf=not n["kids"])
        META[q("Node")] = dict(name="node", cls=q("Node"), parent=None, fields=[], lo=0, hi=len(leaves) - 1, ns=ns, leaf=False)
    return META

def all_fields(cls):
    m = META[cls]
    return m["fields"] + (all_fields(m["parent"]) if m["parent"] else [])
def is_sub(c, b):
    return c in META and b in META and META[c]["ns"] == META[b]["ns"] and META[b]["lo"] <= META[c]["lo"] and META[c]["hi"] <= META[b]["hi"] and (c == b or parents(c, b))
def parents(c, b):
    while c:
        if c == b: return True
        c = META[c]["parent"]
    return False

PRIM = "cqasm::v3x::primitives::"
KINDS1 = ("One", "Maybe", "Link", "OptLink")

def sym_ptr(ex, cls, name, args, nullable):
    """symbolic node pointer of static class cls"""
    c = Cell(name + "*", args, cls)
    if cls in META: ex.ranges[c.name + ".type"] = (META[cls]["lo"], META[cls]["hi"])
    return Ptr(c, ex.uf(name + ".null", args, z3.BoolSort()) if nullable else False, cls)

def sym_field(ex, name, args, f):
    n, kind, ty = f
    nm = name + "." + n
    if kind in ("One", "Link"): return sym_ptr(ex, ty, nm, args, False)
    if kind in ("Maybe", "OptLink"): return sym_ptr(ex, ty, nm, args, True)
    if kind in ("Any", "Many"):
        s = ex.sym_list(nm, args, lambda e, m, a: sym_ptr(e, ty, m, a, False), ty)
        if kind == "Many": ex.axiom_once(("many", s.atoms[0].base.key()), le(1, s.atoms[0].base.length))
        return s
    return sym_prim(ex, nm, args, ty)

def sym_prim(ex, nm, args, ty):
    b = ty.split("::")[-1]
    if b == "Str": return ex.sym_string(nm, args)
    if b == "Bool": return ex.uf(nm, args, z3.BoolSort())
    if b == "Int": return ex.sym_int(nm, args, -(1 << 63), (1 << 63) - 1)
    if b == "Float": return ex.uf(nm, args, z3.Float64())
    if b == "Version": return SymRef("cqasm::version::Version", nm, args)
    if b == "InstructionRef": return sym_ptr(ex, "cqasm::v3x::instruction::Instruction", nm, args, True)
    if b == "CoreFunctionRef": return sym_ptr(ex, "cqasm::v3x::function::CoreFunction", nm, args, True)
    raise Unsupported("primitive " + ty)

def default_field(ex, f):
    n, kind, ty = f
    if kind in KINDS1: return NULL
    if kind: return Seq()
    b = ty.split("::")[-1]
    if b == "Str": return Seq()
    if b == "Bool": return False
    if b == "Int": return 0
    if b == "Float": return z3.FPVal(0.0, z3.Float64())
    if b == "Version": return Obj("cqasm::version::Version", {"#std::vector": Seq()})
    if b.endswith("Ref"): return NULL
    raise Unsupported("primitive " + ty)

# ---- field access ------------------------------------------------------------------------------
_old_field = Exec.field
def find_field(cls, n):
    for f in all_fields(cls):
        if f[0] == n: return f
    c = [f for k, m in META.items() if is_sub(k, cls) for f in m["fields"] if f[0] == n]
    return c[0] if c and all(x == c[0] for x in c) else None
def field(self, o, n, t=None, unit=None):
    if isinstance(o, Obj) and n not in o.f and "#sym" in o.f: return self.field(o.f["#sym"], n, t, unit)
    if isinstance(o, SymRef) and o.cls in META:
        f = find_field(o.cls, n)
        if f is not None: return sym_field(self, o.name, o.args, f)
        if t is None: raise Unsupported("field %s of %s" % (n, o.cls))
        return self.sym(unit, t, o.name + "." + n, o.args)
    return _old_field(self, o, n, t, unit)
Exec.field = field
_old_mat = Exec.materialize
def materialize(self, o):
    if o.cls in META: return Obj(o.cls, {"#sym": o})
    return _old_mat(self, o)
Exec.materialize = materialize
_old_loc_of = lib_tree.loc_of
def loc_of2(ex, o):
    if isinstance(o, Obj) and "#sym" in o.f and "#loc" not in o.f: return loc_of2(ex, o.f["#sym"])
    return _old_loc_of(ex, o)
lib_tree.loc_of = loc_of2

def tag_of(ex, o):
    """dynamic type of a node value, as index of its leaf class"""
    if isinstance(o, Obj):
        if "#sym" in o.f: return tag_of(ex, o.f["#sym"])
        return META[o.cls]["lo"]
    if isinstance(o, SymRef):
        if META[o.cls]["leaf"]: return META[o.cls]["lo"]
        if o.name + ".type" not in ex.ranges: ex.ranges[o.name + ".type"] = (META[o.cls]["lo"], META[o.cls]["hi"])
        return ex.uf(o.name + ".type", o.args, z3.IntSort())
    raise Unsupported("type of %r" % (o,))

def narrow(p, cls):
    if p.cell is None: return Ptr(None, True, cls)
    c = p.cell
    if isinstance(c, Cell) and c.cls in META and cls in META and c.cls != cls and is_sub(cls, c.cls): c = Cell(c.name, c.args, cls)
    return Ptr(c, p.null, cls)

# ---- node constructors -------------------------------------------------------------------------
def make_node(ex, cls, args):
    f = {}
    fs = all_fields(cls)
    if len(args) > len(fs): raise Unsupported("constructor of " + cls)
    for i, fd in enumerate(fs):
        if i < len(args):
            v = ex.copy_in(ex.rv(args[i]))
            if fd[1] is None and fd[2].endswith("::Str"): v = S(ex, v)
            f[fd[0]] = v
        else: f[fd[0]] = default_field(ex, fd)
    return Obj(cls, f)
def node_ctor(ex, unit, d, ty, args, e):
    q = unit.decls[d["cls"]]["q"]
    if d.get("cc") or d.get("mc"): return ex.copy_in(ex.rv(args[0]))
    return make_node(ex, q, args)
def node_build(ex, unit, t, args):
    n = unit.ty(t)["n"]
    if len(args) == 1:
        v = ex.rv(args[0])
        if isinstance(v, (Obj, SymRef)) and v.cls == n: return v
    return make_node(ex, n, args)

# ---- node methods ------------------------------------------------------------------------------
def node_of(ex, this):
    return this.get(ex)
def as_model(cls):
    m = META[cls]
    def f(ex, unit, d, this, args, e):
        o = this.get(ex)
        t = tag_of(ex, o)
        p = ptr_to(ex, this)
        c = And(le(m["lo"], t), le(t, m["hi"]))
        return Ptr(narrow(p, cls).cell, simp(Not(c)), cls)
    return f
def ptr_to(ex, this):
    if isinstance(this, CellLV): return Ptr(this.cell, False)
    return Ptr(this, False)     # pointer to a node that is not a heap object of its own
def m_type(ex, unit, d, this, args, e): return tag_of(ex, this.get(ex))

def clone_node(ex, o, deep=True):
    if isinstance(o, SymRef) or "#sym" in o.f: return o
    if not deep: return o
    r = o
    for n, kind, ty in all_fields(o.cls):
        v = o.f.get(n)
        if kind in ("One", "Maybe") and isinstance(v, Ptr): r = r.with_(n, clone_ptr(ex, v))
        elif kind in ("Any", "Many") and isinstance(v, Seq):
            r = r.with_(n, clone_seq(ex, v))
    return r
def clone_ptr(ex, p, deep=True):
    if p.cell is None: return p
    if p.null is not False and ex.branch(p.null): return NULL
    o = ex.load(p.cell)
    if isinstance(o, SymRef) and o.cls not in META: raise Unsupported("clone of " + o.cls)
    c = ex.newcell(clone_node(ex, o, deep), "clone")
    c.cls = p.cls or getattr(p.cell, "cls", None)
    return Ptr(c, False, p.cls)
def clone_seq(ex, s, deep=True):
    out = []
    for a in s.atoms:
        if isinstance(a, U): out.append(U(clone_ptr(ex, a.v, deep)))
        else: out.append(a)      # symbolic elements are never written through
    return Seq(out)
def m_clone(ex, unit, d, this, args, e):
    o = this.get(ex)
    c = ex.newcell(clone_node(ex, o, d["q"].endswith("clone")), "clone")
    c.cls = o.cls
    return Ptr(c, False, o.cls)

def node_equal(ex, a, b, depth=0):
    """Bool: tree-gen's recursive equality of two node values"""
    if isinstance(a, SymRef) and isinstance(b, SymRef) and a.name == b.name:
        c = And(*[eq(x, y) for x, y in zip(a.args, b.args)])
        if ex.valid(c): return True
    ta, tb = tag_of(ex, a), tag_of(ex, b)
    c = eq(ta, tb)
    if not ex.branch(c): return False
    cls = None
    ns = META[a.cls]["ns"]
    for i, leaf in enumerate(LEAVES[ns]):
        if i < min(META[a.cls]["lo"], META[b.cls]["lo"]): continue
        r = ex.branch(eq(ta, i)) if not isinstance(ta, int) else ta == i
        if r: cls = leaf; break
    if cls is None: raise PathEnd()
    r = True
    for f in all_fields(cls):
        x, y = fget(ex, a, f), fget(ex, b, f)
        if f[1] in ("Link", "OptLink"): r = And(r, ex.veq(x, y))
        elif f[1] in KINDS1: r = And(r, ptr_equal(ex, x, y, depth + 1))
        elif f[1]: r = And(r, seq_equal(ex, x, y, depth + 1))
        elif f[2].endswith("Ref"): r = And(r, ex.veq(x, y))
        elif isz(x) and z3.is_fp(x) or isz(y) and z3.is_fp(y): r = And(r, simp(z3.fpEQ(x, y)))
        else: r = And(r, ex.veq(x, y))
    return r
def fget(ex, o, f):
    if isinstance(o, Obj) and f[0] in o.f: return o.f[f[0]]
    if isinstance(o, Obj) and "#sym" in o.f: o = o.f["#sym"]
    if isinstance(o, SymRef): return sym_field(ex, o.name, o.args, f)
    raise Unsupported("field %s of %r" % (f[0], o))
def ptr_equal(ex, p, q, depth=0):
    if depth > 6: raise Unsupported("deep equality")
    pn, qn = p.null if p.cell is not None else True, q.null if q.cell is not None else True
    if ex.branch(pn): return qn
    if ex.branch(qn): return False
    return node_equal(ex, ex.load(p.cell), ex.load(q.cell), depth)
def seq_equal(ex, s, t, depth=0):
    a, b = s.concrete(), t.concrete()
    if a is not None and b is not None:
        if len(a) != len(b): return False
        return And(*[ptr_equal(ex, x, y, depth) for x, y in zip(a, b)])
    if repr(s) == repr(t): return True
    if a is None and b is not None: s, t, a, b = t, s, b, a
    if a is not None:
        if not ex.branch(eq(ex.seq_len(t), len(a))): return False
        return And(*[ptr_equal(ex, x, ex.seq_at(t, i), depth) for i, x in enumerate(a)])
    # both symbolic, any length: opaque predicate of the two sequences' identities
    ids = []
    nm = []
    for q in (s, t) if repr(s) <= repr(t) else (t, s):      # equality is symmetric
        if len(q.atoms) != 1 or not isinstance(q.atoms[0], SL): raise Unsupported("equality of node sequences")
        sl = q.atoms[0]
        nm.append(sl.base.name); ids += list(sl.base.args) + [sl.lo, sl.hi]
    return ex.uf("trees_equal:%s:%s" % tuple(nm), ids, z3.BoolSort())

# ---- One / Maybe / Link / OptLink --------------------------------------------------------------
def c_one(ex, unit, d, ty, args, e):
    if not args: return NULL
    v = ex.rv(args[0])
    if isinstance(v, Special) and v.kind == "nullptr": return NULL
    if not isinstance(v, Ptr): return NotImplemented
    t = targ(unit, ty)
    n = unit.ty(t).get("n") if t is not None else None
    return narrow(v, n) if n in META else Ptr(v.cell, v.null, n or v.cls)
def need(ex, p, what):
    if p.cell is None or ex.branch(p.null): throw_std(ex, "std::out_of_range", "dereferencing empty " + what)
def m_arrow(ex, unit, d, this, args, e):
    p = this.get(ex)
    need(ex, p, "Maybe/One object")
    return Ptr(p.cell, False, p.cls)
def m_star(ex, unit, d, this, args, e):
    p = this.get(ex)
    need(ex, p, "Maybe/One object")
    return p.cell if isinstance(p.cell, LV) else CellLV(p.cell)
def m_pempty(ex, unit, d, this, args, e):
    p = this.get(ex)
    return True if p.cell is None else simp(p.null)
def m_ptr(ex, unit, d, this, args, e): return this.get(ex)
def m_pset(ex, unit, d, this, args, e):
    v = ex.rv(args[0])
    if not isinstance(v, Ptr): raise Unsupported("node pointer assignment")
    this.set(ex, v)
    return this
def m_pas(ex, unit, d, this, args, e):
    p = this.get(ex)
    t = unit.ty(targ(unit, unit.ty(d["ret"])))["n"]
    if p.cell is None: return NULL
    o = ex.load(p.cell)
    tg = tag_of(ex, o)
    c = And(le(META[t]["lo"], tg), le(tg, META[t]["hi"]))
    q = narrow(p, t)
    return Ptr(q.cell, simp(Or(p.null, Not(c))), t)
def m_pclone(ex, unit, d, this, args, e): return clone_ptr(ex, this.get(ex), d["q"].endswith("clone"))
def m_pequals(ex, unit, d, this, args, e): return simp(ptr_equal(ex, this.get(ex), ex.rv(args[0])))
def m_peq(ex, unit, d, this, args, e): return simp(ex.veq(this.get(ex), ex.rv(args[0])))

def install_ptrs():
    for c in ("Maybe", "One", "Link", "OptLink"):
        b = "tree::base::" + c
        L.ctors[b] = c_one
        L.builders[b] = lambda ex, unit, t, args: ex.rv(args[0]) if args else NULL
        L.default_types[b] = lambda ex, unit, ty: NULL
        nullable = c in ("Maybe", "OptLink")
        L.sym_types[b] = lambda ex, unit, ty, name, args, nullable=nullable: sym_ptr(ex, unit.ty(targ(unit, ty))["n"], name, args, nullable)
        L.transparent_bases.add(b)
        for m, f in (("operator->", m_arrow), ("operator*", m_star), ("empty", m_pempty), ("get_ptr", m_ptr), ("operator=", m_pset), ("set", m_pset),
                     ("as", m_pas), ("clone", m_pclone), ("copy", m_pclone), ("equals", m_pequals), ("operator==", m_peq)):
            L.models[b + "::" + m] = f
        L.models[b + "::reset"] = lambda ex, unit, d, this, args, e: (this.set(ex, NULL), VOID)[1]
        L.models[b + "::size"] = lambda ex, unit, d, this, args, e: If(m_pempty(ex, unit, d, this, args, e), 0, 1)
    # ---- Any / Many ----
    for c in ("Any", "Many"):
        b = "tree::base::" + c
        L.ctors[b] = c_any
        L.builders[b] = lambda ex, unit, t, args: ex.rv(args[0]) if args else Seq()
        L.default_types[b] = lambda ex, unit, ty: Seq()
        L.sym_types[b] = lambda ex, unit, ty, name, args: ex.sym_list(name, args, lambda e, m, a, n=unit.ty(targ(unit, ty))["n"]: sym_ptr(e, n, m, a, False), unit.ty(targ(unit, ty))["s"])
        L.transparent_bases.add(b)
        V = L.models
        for m in ("size", "empty", "at", "operator[]", "front", "back", "begin", "end"):
            L.models[b + "::" + m] = V["std::vector::" + m]
        L.models[b + "::operator[]"] = V["std::vector::at"]
        L.models[b + "::get_vec"] = lambda ex, unit, d, this, args, e: this
        L.models[b + "::reset"] = V["std::vector::clear"]
        L.models[b + "::operator="] = V["std::vector::operator="]
        L.models[b + "::add"] = m_anyadd
        L.models[b + "::extend"] = lambda ex, unit, d, this, args, e: (this.set(ex, this.get(ex) + ex.as_seq(ex.rv(args[0]))), VOID)[1]
        L.models[b + "::remove"] = m_anyremove
        L.models[b + "::clone"] = lambda ex, unit, d, this, args, e: clone_seq(ex, this.get(ex))
        L.models[b + "::copy"] = lambda ex, unit, d, this, args, e: clone_seq(ex, this.get(ex), False)
        L.models[b + "::equals"] = lambda ex, unit, d, this, args, e: simp(seq_equal(ex, this.get(ex), ex.rv(args[0])))
def c_any(ex, unit, d, ty, args, e):
    a = [ex.rv(x) for x in args]
    if not a: return Seq()
    if len(a) == 1 and isinstance(a[0], Seq): return a[0]
    return NotImplemented
def m_anyadd(ex, unit, d, this, args, e):
    p = ex.rv(args[0])
    if not isinstance(p, Ptr): raise Unsupported("Any::add of %r" % (p,))
    if len(args) > 1 and cint(ex.rv(args[1])) is None: raise Unsupported("Any::add at a position")
    if p.cell is None or (p.null is not False and ex.branch(p.null)): return VOID
    s = this.get(ex)
    u = U(Ptr(p.cell, False, p.cls))
    pos = cint(ex.rv(args[1])) if len(args) > 1 else -1
    if pos < 0: this.set(ex, s + Seq([u])); return VOID
    n = ex.seq_len(s)
    if ex.branch(le(n, pos)): this.set(ex, s + Seq([u]))
    else: this.set(ex, ex.seq_slice(s, 0, pos) + Seq([u]) + ex.seq_slice(s, pos, n))
    return VOID
def m_anyremove(ex, unit, d, this, args, e):
    s = this.get(ex); n = ex.seq_len(s)
    pos = ex.rv(args[0]) if args else -1
    if ex.branch(Or(lt(pos, 0), le(n, pos))):
        ex.oblige(lt(0, n), "memory-safety: remove from a non-empty list")
        this.set(ex, ex.seq_slice(s, 0, sub(n, 1)))
    else: this.set(ex, ex.seq_slice(s, 0, pos) + ex.seq_slice(s, add(pos, 1), n))
    return VOID

# ---- text of nodes and node lists (opaque: the generated printers are not part of /repo) --------
def node_ident(ex, v):
    """(name, int args) identifying a node value for an opaque printer"""
    if isinstance(v, Obj) and "#sym" in v.f and len(v.f) == 1: v = v.f["#sym"]
    if isinstance(v, SymRef): return v.name, list(v.args)
    if isinstance(v, Obj):
        n, a = v.cls.split("::")[-1], []
        for f in sorted(v.f):
            x = v.f[f]
            if f.startswith("#"): continue
            if isinstance(x, (bool, int)) or isz(x) and not z3.is_fp(x): n += "," + f; a.append(If(x, 1, 0) if not isinstance(x, bool) and isboolish(x) else int(x) if isinstance(x, bool) else x)
            elif isz(x): n += "," + f + "=" + str(x)
            elif isinstance(x, Seq): n += "," + f + "=" + repr(x)
            elif isinstance(x, Ptr) and x.cell is None: n += "," + f + "=-"
            elif isinstance(x, Ptr):
                m, b = node_ident(ex, ex.load(x.cell)); n += "," + f + "=" + m; a += b
            else: n += "," + f + "=" + repr(x)
        return n, a
    raise Unsupported("identity of %r" % (v,))
def node_text(ex, v):
    n, a = node_ident(ex, v)
    s = ex.sym_int("nodetext.len:" + n, a, 0, MAXLEN)
    return Seq([OP("nodetext:" + n, a, s)])
def node_ostream(ex, unit, d, this, args, e):
    os_write(ex, args[0], node_text(ex, ex.rv(args[1])))
    return args[0]

def freeze(ex, v, store, known):
    """replaces pointers to cells allocated in this iteration by pointers to immutable snapshots"""
    if isinstance(v, Ptr) and isinstance(v.cell, Cell) and v.cell.key not in known and v.cell.key in store:
        return Ptr(VCell(freeze(ex, store[v.cell.key], store, known), v.cell.key), v.null, v.cls)
    if isinstance(v, Seq): return Seq([U(freeze(ex, a.v, store, known)) if isinstance(a, U) else a for a in v.atoms])
    if isinstance(v, Obj): return Obj(v.cls, {k: freeze(ex, x, store, known) for k, x in v.f.items()})
    if isinstance(v, Opt): return Opt(v.has, freeze(ex, v.v, store, known))
    if isinstance(v, Pair): return Pair(freeze(ex, v.a, store, known), freeze(ex, v.b, store, known))
    return v
Exec.freeze = freeze

def install():
    load_meta()
    install_ptrs()
    L.node_classes = set(META)
    for cls, m in META.items():
        L.ctors[cls] = node_ctor
        L.builders[cls] = node_build
        L.sym_types[cls] = lambda ex, unit, ty, name, args, cls=cls: node_sym(ex, cls, name, args)
        L.transparent_bases.add(cls)
        for meth, f in (("type", m_type), ("clone", m_clone), ("copy", m_clone)): L.models[cls + "::" + meth] = f
        L.models[cls + "::equals"] = lambda ex, unit, d, this, args, e: simp(node_equal(ex, this.get(ex), ex.rv(args[0])))
        L.models[cls + "::operator=="] = L.models[cls + "::equals"]
        L.models[cls + "::operator!="] = lambda ex, unit, d, this, args, e: simp(Not(node_equal(ex, this.get(ex), ex.rv(args[0]))))
        for k2, m2 in META.items():
            if m2["ns"] == m["ns"]: L.models[cls + "::as_" + m2["name"]] = as_model(k2)
        L.models[m["ns"] + "::operator<<"] = lambda ex, unit, d, this, args, e: ns_ostream(ex, unit, d, this, args, e)
    L.transparent_bases |= {"tree::base::Base", "tree::annotatable::Annotatable"}
def node_sym(ex, cls, name, args):
    if name + ".type" not in ex.ranges: ex.ranges[name + ".type"] = (META[cls]["lo"], META[cls]["hi"])
    return SymRef(cls, name, args)
def ns_ostream(ex, unit, d, this, args, e):
    v = ex.rv(args[1])
    if isinstance(v, (Obj, SymRef)) and v.cls in META: return node_ostream(ex, unit, d, this, args, e)
    return NotImplemented
install()

def op_for_type(ex, cls, kinds):
    """operator<<(std::ostream&, const K<cls>&) for a container kind K"""
    for q in ex.prog.byq:
        if not q.endswith("operator<<"): continue
        for u, d in ex.prog.byq[q]:
            if len(d["ps"]) != 2: continue
            pt = u.ty(u.strip(d["ps"][1]["t"]))
            if pt.get("n", "").replace("tree::base::", "") in kinds and pt.get("n", "").startswith("tree::base::") and u.ty(targ(u, pt)).get("n") == cls: return u, d
    return None
def format_hook(ex, unit, a, ty, spec):
    v = ex.rv(a)
    n = ty.get("n", "")
    if isinstance(v, Seq) and v.atoms and all(isinstance(x, OP) for x in v.atoms): return v     # already an opaque text
    if n.startswith("tree::base::"):
        cls = unit.ty(targ(unit, ty)).get("n"); kinds = (n.split("::")[-1],)
        if kinds[0] == "Many": kinds = ("Many", "Any")
        if kinds[0] == "One": kinds = ("One", "Maybe")
    elif isinstance(v, Ptr): cls, kinds = v.cls, ("One", "Maybe")
    else: return None
    while cls:
        f = op_for_type(ex, cls, kinds)
        if f:
            os = ex.temp(new_stream(), "os")
            ex.call_fn(f[0], f[1], None, [os, ex.lvof(a)])
            return os.get(ex).f["buf"]
        cls = META[cls]["parent"] if cls in META else None
    return None
L.format_hook = format_hook
