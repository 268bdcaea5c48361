"""Contracts of the C++ standard library, fmt and range-v3 functions used by /repo (trusted)."""
import z3, re
from .vals import *
from .core import *
from .execute import isfp, isintish, cell_value

NPOS = (1 << 64) - 1

class Lib:
    pass

L = Lib()
L.sym_types, L.sym_fields, L.default_types, L.models, L.callables = {}, {}, {}, {}, {}
L.injective, L.op_unfold = {"dec", "json_encode", "url_encode"}, {}
L.init_list, L.globals, L.functors, L.ctors = {}, {}, set(), {}
L.transparent_bases = set()

def model(*names):
    def deco(f):
        for n in names: L.models[n] = f
        return f
    return deco

def ctor(*names):
    def deco(f):
        for n in names: L.ctors[n] = f
        return f
    return deco

STD_EXC = {"std::invalid_argument": "std::logic_error", "std::out_of_range": "std::logic_error", "std::length_error": "std::logic_error",
           "std::domain_error": "std::logic_error", "std::logic_error": "std::exception", "std::runtime_error": "std::exception",
           "std::range_error": "std::runtime_error", "std::overflow_error": "std::runtime_error", "std::bad_optional_access": "std::exception",
           "std::bad_any_cast": "std::bad_cast", "std::bad_cast": "std::exception", "std::bad_function_call": "std::exception", "std::bad_alloc": "std::exception",
           "std::ios_base::failure": "std::runtime_error"}

def throw_std(ex, cls, msg=""):
    ex.rep.reached.add("throw " + cls)
    raise CxxThrow(ex.temp(Obj(cls, {"#what": Seq.lit(msg)}), "exc"), cls)

def catches(ex, unit, ht, t):
    want = ht.get("n")
    seen, todo = set(), [t.cls]
    while todo:
        c = todo.pop()
        if c == want: return True
        if c in seen or c is None: continue
        seen.add(c)
        if c in STD_EXC: todo.append(STD_EXC[c])
        if c in ex.prog.recs:
            u, d = ex.prog.recs[c]
            for b in d.get("bases", []): todo.append(u.ty(b).get("n"))
    return False
L.catches = catches

# ---- strings -----------------------------------------------------------------------------------
def sym_string_type(ex, unit, ty, name, args):
    return ex.sym_string(name, args)
L.sym_types["std::basic_string"] = sym_string_type
L.sym_types["std::basic_string_view"] = sym_string_type
L.default_types["std::basic_string"] = lambda ex, unit, ty: Seq()
L.default_types["std::basic_string_view"] = lambda ex, unit, ty: Seq()
L.default_types["std::vector"] = lambda ex, unit, ty: Seq()
L.default_types["std::optional"] = lambda ex, unit, ty: Opt(False)
L.default_types["std::allocator"] = lambda ex, unit, ty: VOID
L.default_types["std::shared_ptr"] = lambda ex, unit, ty: NULL
L.default_types["std::unique_ptr"] = lambda ex, unit, ty: NULL
L.default_types["std::function"] = lambda ex, unit, ty: NULL
L.sym_types["std::function"] = lambda ex, unit, ty, name, args: Ptr(Cell(name + "->", args, "std::function"), False, "std::function")

def targ(unit, ty, i=0):
    """i-th template type argument of a record type"""
    a = ty.get("ta") or []
    return a[i].get("t") if i < len(a) else None

def sym_vector_type(ex, unit, ty, name, args):
    t = targ(unit, ty)
    if t is None: raise Unsupported("vector element type")
    return ex.sym_list(name, args, lambda e, n, a: e.sym(unit, t, n, a), unit.ty(t)["s"])
L.sym_types["std::vector"] = sym_vector_type
L.sym_types["std::optional"] = lambda ex, unit, ty, name, args: Opt(ex.uf(name + ".has", args, z3.BoolSort()), ex.sym(unit, targ(unit, ty), name + ".val", args))
L.sym_types["std::pair"] = lambda ex, unit, ty, name, args: Pair(ex.sym(unit, targ(unit, ty), name + ".first", args), ex.sym(unit, targ(unit, ty, 1), name + ".second", args))
L.sym_types["std::shared_ptr"] = lambda ex, unit, ty, name, args: Ptr(Cell(name + "->", args, unit.ty(targ(unit, ty)).get("n")), ex.uf(name + ".null", args, z3.BoolSort()), unit.ty(targ(unit, ty)).get("n"))
L.sym_types["std::unique_ptr"] = L.sym_types["std::shared_ptr"]

def S(ex, v):
    """sequence denoted by a string-like argument"""
    v = ex.rv(v)
    if isinstance(v, CStr): return cstr_seq(ex, v)
    if isinstance(v, Seq): return v
    if isinstance(v, (Obj, SymRef)): return ex.as_seq(v)
    if isinstance(v, Iter) and not v.rev:   # char pointer into an array: up to the terminating NUL
        s = ex.as_seq(v.lv.get(ex))
        return cstr_seq(ex, CStr(ex.seq_slice(s, v.idx, ex.seq_len(s))))
    if isinstance(v, Ptr) and v.cell is not None: return S(ex, ex.load(v.cell))
    raise Unsupported("string value %r" % (v,))

def cstr_seq(ex, v):
    """contents of a NUL-terminated string: up to the first NUL byte"""
    if v.clean: return v.seq
    c = v.seq.concrete()
    if c is not None and all(isinstance(x, int) for x in c):
        return Seq([U(x) for x in (c[:c.index(0)] if 0 in c else c)])
    if not v.seq.atoms: return v.seq
    out = []
    for a in v.seq.atoms:
        if isinstance(a, U):
            if ex.branch(eq(a.v, 0)): return Seq(norm(out))
            out.append(a)
        elif isinstance(a, SL):
            n = sub(a.hi, a.lo)
            K = ex.fresh_int("strlen", 0, MAXLEN)
            j = z3.Int("j!%d" % ex.fresh_id())
            ex.add_fact(le(K, n))
            ex.add_fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < K), iz(a.base.elem(ex, add(a.lo, j))) != 0)))
            if ex.branch(eq(K, n)): out.append(a); continue
            ex.add_fact(eq(a.base.elem(ex, add(a.lo, K)), 0))
            out.append(SL(a.base, a.lo, add(a.lo, K)))
            return Seq(norm(out))
        elif isinstance(a, OP) and a.name in NO_NUL: out.append(a)
        elif isinstance(a, FO):
            def clean(p):
                for x in p.atoms:
                    if isinstance(x, U):
                        if ex.holds(Not(eq(x.v, 0))) is not True: return False
                    elif not (isinstance(x, OP) and x.name in NO_NUL): return False
                return True
            ok = True
            kv = a.kv
            for cnd, p in a.cases:
                ex.solver.push(); nf = len(ex.facts); ax = set(ex.axkeys)
                f = And(le(a.lo, kv), lt(kv, a.hi), cnd)
                ex.add_fact(f)
                try: ok = ok and clean(p)
                finally: ex.solver.pop(); del ex.facts[nf:]; ex.axkeys = ax
            if not ok: ex.note_lossy("NUL bytes inside a C string")
            out.append(a)
        else:
            ex.note_lossy("NUL bytes inside a C string"); out.append(a)
    return Seq(norm(out))
NO_NUL = {"dec", "hexfmt", "url_encode", "json_encode", "locprint", "fixed"}

STR = "std::basic_string::"
SV = "std::basic_string_view::"
VEC = "std::vector::"

def setseq(ex, this, s):
    v = this.get(ex)
    if isinstance(v, Obj):
        for k in v.f:
            if k.startswith("#") and isinstance(v.f[k], Seq):
                this.set(ex, v.with_(k, s)); return
    if isinstance(v, SymRef):
        v = ex.materialize(v)
        raise Unsupported("write to symbolic container object")
    this.set(ex, s)

def seqof(ex, this): return ex.as_seq(this.get(ex) if isinstance(this, LV) else this)

@model(*[c + m for c in (STR, SV, VEC, "std::array::", "std::initializer_list::") for m in ("size", "length")], "std::size", "std::ssize", "ranges::_size_::fn::operator()")
def m_size(ex, unit, d, this, args, e):
    if this is None or not args == []: this = ex.lvof(args[0])
    return ex.seq_len(seqof(ex, this))
@model(*[c + "empty" for c in (STR, SV, VEC, "std::array::")])
def m_empty(ex, unit, d, this, args, e): return ex.empty(seqof(ex, this))
@model("std::empty")
def m_empty2(ex, unit, d, this, args, e): return ex.empty(seqof(ex, ex.lvof(args[0])))

def container_lv(ex, this):
    """lvalue of the sequence part of a container (class derived from vector)"""
    v = this.get(ex)
    if isinstance(v, Obj):
        for k in v.f:
            if k.startswith("#") and isinstance(v.f[k], Seq): return FieldLV(this, k)
    if isinstance(v, SymRef):
        u, d = ex.prog.recs[v.cls]
        for b in d["bases"]:
            if u.ty(b).get("n") in ("std::vector", "std::basic_string"): return FieldLV(this, "#" + u.ty(b)["n"])
    return this

def begin(ex, lv): return Iter(container_lv(ex, lv), 0)
def end(ex, lv): return Iter(container_lv(ex, lv), ex.seq_len(seqof(ex, lv)))
def is_mapv(ex, lv):
    v = lv.get(ex)
    return isinstance(v, Special) and v.kind == "map"
@model(*[c + m for c in (STR, SV, VEC, "std::array::", "std::initializer_list::") for m in ("begin", "cbegin")])
def m_begin(ex, unit, d, this, args, e): return begin(ex, this)
@model(*[c + m for c in (STR, SV, VEC, "std::array::", "std::initializer_list::") for m in ("end", "cend")])
def m_end(ex, unit, d, this, args, e): return end(ex, this)
@model("std::begin", "std::cbegin")
def m_begin2(ex, unit, d, this, args, e): return begin(ex, ex.lvof(args[0]))
@model("std::end", "std::cend")
def m_end2(ex, unit, d, this, args, e): return end(ex, ex.lvof(args[0]))
@model(*[c + m for c in (STR, SV, VEC) for m in ("rbegin", "crbegin")])
def m_rbegin(ex, unit, d, this, args, e): return Iter(container_lv(ex, this), 0, True)
@model(*[c + m for c in (STR, SV, VEC) for m in ("rend", "crend")])
def m_rend(ex, unit, d, this, args, e): return Iter(container_lv(ex, this), ex.seq_len(seqof(ex, this)), True)

@model(STR + "data", STR + "c_str", SV + "data")
def m_cstr(ex, unit, d, this, args, e): return CStr(seqof(ex, this))

def elem_ref(ex, this, i, label="memory-safety: index in range", extra=0):
    s = seqof(ex, this)
    n = ex.seq_len(s)
    c = And(le(0, i), lt(i, n))
    if extra:   # str[size()] is the terminating NUL
        if ex.valid(lt(i, n)): pass
        else:
            ex.oblige(And(le(0, i), le(i, n)), label)
            if ex.branch(eq(i, n)): return ConstLV(0)
    ex.oblige(c, label)
    return ElemLV(container_lv(ex, this), i)
@model(STR + "operator[]")
def m_stridx(ex, unit, d, this, args, e): return elem_ref(ex, this, ex.rv(args[0]), extra=1)
@model(VEC + "operator[]", SV + "operator[]", "std::array::operator[]")
def m_idx(ex, unit, d, this, args, e): return elem_ref(ex, this, ex.rv(args[0]))
@model(STR + "at", VEC + "at", SV + "at", "std::array::at")
def m_at(ex, unit, d, this, args, e):
    i = ex.rv(args[0])
    if not ex.branch(And(le(0, i), lt(i, ex.seq_len(seqof(ex, this))))): throw_std(ex, "std::out_of_range")
    return elem_ref(ex, this, i)
@model(STR + "front", VEC + "front", SV + "front")
def m_front(ex, unit, d, this, args, e): return elem_ref(ex, this, 0)
@model(STR + "back", VEC + "back", SV + "back")
def m_back(ex, unit, d, this, args, e): return elem_ref(ex, this, sub(ex.seq_len(seqof(ex, this)), 1))

def append_value(ex, v):
    v = ex.rv(v)
    if isintish(v): return Seq([U(v)])
    return S(ex, v)
@model(STR + "operator+=", STR + "append")
def m_append(ex, unit, d, this, args, e):
    s = seqof(ex, this)
    if len(args) == 1:
        t = append_value(ex, args[0])
    elif len(args) == 2:
        a, b = ex.rv(args[0]), ex.rv(args[1])
        if isinstance(a, Iter) and isinstance(b, Iter): t = iter_range(ex, a, b)
        elif isintish(a) and isintish(b): t = repeat(ex, b, a)
        elif isinstance(a, CStr) and isintish(b): t = ex.seq_slice(a.seq, 0, b)
        elif isinstance(a, Seq) and isintish(b): t = substr(ex, a, b, NPOS)
        else: raise Unsupported("string append")
    elif len(args) >= 3:
        t = substr(ex, S(ex, args[0]), ex.rv(args[1]), ex.rv(args[2]))
    else: raise Unsupported("string append")
    setseq(ex, this, s + t)
    return this
@model(STR + "push_back", VEC + "push_back")
def m_push(ex, unit, d, this, args, e):
    v = ex.copy_in(ex.rv(args[0]))
    setseq(ex, this, seqof(ex, this) + Seq([U(v)]))
    return VOID
@model(VEC + "emplace_back")
def m_emplace(ex, unit, d, this, args, e):
    ty = unit.ty(unit.strip(d["ret"])) if d.get("ret") is not None else None
    v = build(ex, unit, unit.strip(d["ret"]), args)
    setseq(ex, this, seqof(ex, this) + Seq([U(v)]))
    n = ex.seq_len(seqof(ex, this))
    return ElemLV(container_lv(ex, this), sub(n, 1))
@model(STR + "pop_back", VEC + "pop_back")
def m_pop(ex, unit, d, this, args, e):
    s = seqof(ex, this)
    n = ex.seq_len(s)
    ex.oblige(lt(0, n), "memory-safety: pop of non-empty container")
    setseq(ex, this, ex.seq_slice(s, 0, sub(n, 1)))
    return VOID
@model(STR + "clear", VEC + "clear")
def m_clear(ex, unit, d, this, args, e): setseq(ex, this, Seq()); return VOID
@model(STR + "reserve", VEC + "reserve", STR + "shrink_to_fit", VEC + "shrink_to_fit")
def m_nop(ex, unit, d, this, args, e): return VOID
@model(STR + "operator=", VEC + "operator=", STR + "assign", SV + "operator=")
def m_assign(ex, unit, d, this, args, e):
    if len(args) == 2:
        a, b = ex.rv(args[0]), ex.rv(args[1])
        if isinstance(a, Iter) and isinstance(b, Iter): setseq(ex, this, iter_range(ex, a, b)); return this
        raise Unsupported("assign")
    if len(args) != 1: raise Unsupported("assign")
    v = ex.rv(args[0])
    setseq(ex, this, append_value(ex, v))
    return this
@model(STR + "swap", VEC + "swap")
def m_swapc(ex, unit, d, this, args, e):
    a, b = this.get(ex), args[0].get(ex)
    this.set(ex, b); args[0].set(ex, a); return VOID
@model("std::swap")
def m_swap(ex, unit, d, this, args, e):
    a, b = args[0].get(ex), args[1].get(ex)
    args[0].set(ex, b); args[1].set(ex, a); return VOID
@model(STR + "resize", VEC + "resize")
def m_resize(ex, unit, d, this, args, e):
    s = seqof(ex, this); n = ex.seq_len(s); m = ex.rv(args[0])
    if ex.branch(le(m, n)): setseq(ex, this, ex.seq_slice(s, 0, m)); return VOID
    if len(args) > 1: f = ex.rv(args[1])
    elif d["q"].startswith(STR): f = 0
    else:
        ta = (unit.decls[d["cls"]].get("ta") if "cls" in d else None) or []
        if not ta: raise Unsupported("resize with default elements")
        f = ex.default_value(unit, ta[0]["t"] if isinstance(ta[0], dict) else ta[0])
    setseq(ex, this, s + repeat(ex, f, sub(m, n)))
    return VOID
@model(STR + "insert", VEC + "insert")
def m_insert(ex, unit, d, this, args, e):
    s = seqof(ex, this); n = ex.seq_len(s)
    a = ex.rv(args[0])
    vals = [ex.rv(x) for x in args[1:]]
    if isinstance(a, Iter):
        pos = a.idx
        if len(vals) == 1: t = vals[0] if isinstance(vals[0], Seq) and d["q"].startswith(STR) else Seq([U(vals[0])])
        elif len(vals) == 2 and isinstance(vals[0], Iter): t = iter_range(ex, vals[0], vals[1])
        else: raise Unsupported("insert")
    else:
        pos = a
        if not ex.branch(le(pos, n)): throw_std(ex, "std::out_of_range")
        if len(vals) == 1: t = append_value(ex, vals[0])
        elif len(vals) == 2 and isintish(vals[0]): t = repeat(ex, vals[1], vals[0])
        else: raise Unsupported("insert")
    setseq(ex, this, ex.seq_slice(s, 0, pos) + t + ex.seq_slice(s, pos, n))
    return Iter(container_lv(ex, this), pos)
@model(STR + "erase", VEC + "erase")
def m_erase(ex, unit, d, this, args, e):
    s = seqof(ex, this); n = ex.seq_len(s)
    a = [ex.rv(x) for x in args]
    if not a: setseq(ex, this, Seq()); return this
    if isinstance(a[0], Iter):
        lo = a[0].idx; hi = a[1].idx if len(a) > 1 else add(lo, 1)
        ex.oblige(And(le(0, lo), le(lo, hi), le(hi, n)), "memory-safety: erase range valid")
        setseq(ex, this, ex.seq_slice(s, 0, lo) + ex.seq_slice(s, hi, n))
        return Iter(container_lv(ex, this), lo)
    pos = a[0]; cnt = a[1] if len(a) > 1 else NPOS
    if not ex.branch(le(pos, n)): throw_std(ex, "std::out_of_range")
    hi = n if (isinstance(cnt, int) and cnt == NPOS) or not ex.branch(lt(cnt, sub(n, pos))) else add(pos, cnt)
    setseq(ex, this, ex.seq_slice(s, 0, pos) + ex.seq_slice(s, hi, n))
    return this

def repeat(ex, v, n):
    c = cint(n)
    if c is not None:
        if c > 4096: raise Unsupported("long repetition")
        return Seq([U(v)] * max(c, 0))
    kv = z3.Int("kv!%d" % ex.fresh_id())
    return Seq([FO(kv, [(True, Seq([U(v)]))], 0, n)])

def iter_range(ex, a, b):
    if a.rev: raise Unsupported("reverse iterator range")
    s = ex.as_seq(a.lv.get(ex))
    n = ex.seq_len(s)
    ex.oblige(And(le(0, a.idx), le(a.idx, b.idx), le(b.idx, n)), "memory-safety: valid iterator range")
    if a.idx == 0 and str(b.idx) == str(n): return s
    return ex.seq_slice(s, a.idx, b.idx)

def substr(ex, s, pos, cnt):
    n = ex.seq_len(s)
    if not ex.branch(le(pos, n)): throw_std(ex, "std::out_of_range", "substr")
    if isinstance(cnt, int) and cnt == NPOS: return ex.seq_slice(s, pos, n)
    rest = sub(n, pos)
    if ex.branch(le(cnt, rest)): return ex.seq_slice(s, pos, add(pos, cnt))
    return ex.seq_slice(s, pos, n)
@model(STR + "substr", SV + "substr")
def m_substr(ex, unit, d, this, args, e):
    pos = ex.rv(args[0]) if args else 0
    cnt = ex.rv(args[1]) if len(args) > 1 else NPOS
    return substr(ex, seqof(ex, this), pos, cnt)
@model(SV + "remove_prefix")
def m_rmp(ex, unit, d, this, args, e):
    s = seqof(ex, this); n = ex.seq_len(s); k = ex.rv(args[0])
    ex.oblige(le(k, n), "memory-safety: remove_prefix within the view")
    this.set(ex, ex.seq_slice(s, k, n)); return VOID
@model(SV + "remove_suffix")
def m_rms(ex, unit, d, this, args, e):
    s = seqof(ex, this); n = ex.seq_len(s); k = ex.rv(args[0])
    ex.oblige(le(k, n), "memory-safety: remove_suffix within the view")
    this.set(ex, ex.seq_slice(s, 0, sub(n, k))); return VOID

def find_where(ex, s, start, pred, what, wargs=()):
    """first index >= start with pred(elem), as a fresh value with its defining facts; NPOS if none"""
    c = s.concrete()
    n = ex.seq_len(s)
    cst = cint(start)
    if c is not None and cst is not None:
        for i in range(cst, len(c)):
            if ex.branch(pred(c[i])): return i
        return NPOS
    if len(s.atoms) > 1 or (s.atoms and not isinstance(s.atoms[0], SL)): raise Unsupported("search in a composite sequence")
    if not s.atoms: return NPOS
    a = s.atoms[0]
    # a function of the searched text, the start and what is searched: equal searches give equal results
    r = ex.sym_int("find.%s:%s" % (what, a.base.name), list(a.base.args) + [a.lo, a.hi, start] + list(wargs), 0, NPOS)
    j = z3.Int("j!%d" % ex.fresh_id())
    ej = a.base.elem(ex, add(a.lo, j))
    found = And(le(start, r), lt(r, n))
    if ex.branch(found):
        ex.add_fact(pred(a.base.elem(ex, add(a.lo, r))))
        ex.add_fact(z3.ForAll([j], z3.Implies(z3.And(j >= iz(start), j < r), bz(Not(pred(ej))))))
        return r
    ex.add_fact(eq(r, NPOS))
    ex.add_fact(z3.ForAll([j], z3.Implies(z3.And(j >= iz(start), j < iz(n)), bz(Not(pred(ej))))))
    return NPOS

@model(STR + "find", SV + "find")
def m_find(ex, unit, d, this, args, e):
    s = seqof(ex, this)
    x = ex.rv(args[0]); start = ex.rv(args[1]) if len(args) > 1 else 0
    if len(args) > 2: raise Unsupported("find with count")
    if isintish(x): return find_where(ex, s, start, lambda c: eq(c, x), "char", [x])
    t = S(ex, x)
    c, ct = s.text(), t.text()
    if c is not None and ct is not None and cint(start) is not None:
        r = c.find(ct, cint(start)); return NPOS if r < 0 else r
    if len(t.atoms) == 1 and isinstance(t.atoms[0], U): return find_where(ex, s, start, lambda c: eq(c, t.atoms[0].v), "char", [t.atoms[0].v])
    raise Unsupported("substring search")
@model(STR + "find_first_of", SV + "find_first_of")
def m_ffo(ex, unit, d, this, args, e):
    x = ex.rv(args[0]); start = ex.rv(args[1]) if len(args) > 1 else 0
    t = Seq([U(x)]) if isintish(x) else S(ex, x)
    ts = t.concrete()
    if ts is None: raise Unsupported("find_first_of")
    return find_where(ex, seqof(ex, this), start, lambda c: simp(Or(*[eq(c, q) for q in ts])), "of", ts)
@model(STR + "find_first_not_of", SV + "find_first_not_of")
def m_ffno(ex, unit, d, this, args, e):
    x = ex.rv(args[0]); start = ex.rv(args[1]) if len(args) > 1 else 0
    t = Seq([U(x)]) if isintish(x) else S(ex, x)
    ts = t.concrete()
    if ts is None: raise Unsupported("find_first_not_of")
    return find_where(ex, seqof(ex, this), start, lambda c: simp(And(*[Not(eq(c, q)) for q in ts])), "notof", ts)
@model(STR + "starts_with", SV + "starts_with")
def m_sw(ex, unit, d, this, args, e):
    s, x = seqof(ex, this), ex.rv(args[0])
    t = Seq([U(x)]) if isintish(x) else S(ex, x)
    n, m = ex.seq_len(s), ex.seq_len(t)
    if not ex.branch(le(m, n)): return False
    return ex.seq_eq_cond(ex.seq_slice(s, 0, m), t)
@model(STR + "ends_with", SV + "ends_with")
def m_ew(ex, unit, d, this, args, e):
    s, x = seqof(ex, this), ex.rv(args[0])
    t = Seq([U(x)]) if isintish(x) else S(ex, x)
    n, m = ex.seq_len(s), ex.seq_len(t)
    if not ex.branch(le(m, n)): return False
    return ex.seq_eq_cond(ex.seq_slice(s, sub(n, m), n), t)
@model(STR + "compare", SV + "compare")
def m_compare(ex, unit, d, this, args, e):
    s = seqof(ex, this)
    a = [ex.rv(x) for x in args]
    if len(a) == 1: t = S(ex, a[0])
    elif len(a) == 3: s = substr(ex, s, a[0], a[1]); t = S(ex, a[2])
    else: raise Unsupported("string compare")
    if ex.branch(ex.seq_eq_cond(s, t)): return 0
    r = ex.fresh_int("cmp", -(1 << 31), (1 << 31) - 1)
    ex.add_fact(Not(eq(r, 0)))
    return r   # only the sign relative to equality is modelled
@model("std::operator==", "std::operator!=")
def m_streq(ex, unit, d, this, args, e):
    a, b = ex.rv(args[0]), ex.rv(args[1])
    neg = d["q"].endswith("!=")
    if isinstance(a, Special) and a.kind == "ord" or isinstance(b, Special) and b.kind == "ord":
        r = eq(a.x if isinstance(a, Special) and a.kind == "ord" else 0, b.x if isinstance(b, Special) and b.kind == "ord" else 0)
    elif isinstance(a, Opt) or isinstance(b, Opt):
        if isinstance(a, Special): a = Opt(False)   # nullopt
        if isinstance(b, Special): b = Opt(False)
        if not isinstance(a, Opt): a = Opt(True, a)
        if not isinstance(b, Opt): b = Opt(True, b)
        r = opt_eq(ex, unit, d, a, b)
    elif isinstance(a, (Ptr,)) or isinstance(b, Ptr):
        a = NULL if isinstance(a, Special) else a; b = NULL if isinstance(b, Special) else b
        r = ex.veq(a, b)
    elif isinstance(a, Iter) and isinstance(b, Iter): r = eq(a.idx, b.idx)
    elif isinstance(a, (Seq, CStr, Iter, Obj, SymRef)) and isinstance(b, (Seq, CStr, Iter, Obj, SymRef)):
        isvec = "vector" in unit.ty(unit.strip(d["ps"][0]["t"])).get("n", "")
        if isvec: r = vec_eq(ex, unit, d, ex.as_seq(a), ex.as_seq(b))
        else: r = ex.seq_eq_cond(S(ex, a), S(ex, b))
    elif isinstance(a, Pair) and isinstance(b, Pair): r = ex.veq(a, b)
    else: return NotImplemented
    return simp(Not(r)) if neg else r
@model("__gnu_cxx::operator==", "__gnu_cxx::operator!=")
def m_iteq(ex, unit, d, this, args, e):
    a, b = ex.rv(args[0]), ex.rv(args[1])
    r = eq(a.idx, b.idx)
    return simp(Not(r)) if d["q"].endswith("!=") else r

def opt_eq(ex, unit, d, a, b):
    if a.has is False or b.has is False: return simp(And(Not(a.has), Not(b.has)))
    ha, hb = ex.branch(a.has), ex.branch(b.has)
    if ha != hb: return False
    if not ha: return True
    t = unit.strip(d["ps"][0]["t"]); et = targ(unit, unit.ty(t))
    if et is not None: return ex.eq_values(unit, et, ex.temp(a.v), ex.temp(b.v))
    return ex.veq(a.v, b.v)

def vec_eq(ex, unit, d, a, b):
    if a.concrete() is not None and b.concrete() is not None:
        if len(a.atoms) != len(b.atoms): return False
        et = targ(unit, unit.ty(unit.strip(d["ps"][0]["t"])))
        r = True
        for x, y in zip(a.atoms, b.atoms):
            r = And(r, ex.eq_values(unit, et, ex.temp(x.v), ex.temp(y.v)) if et is not None else ex.veq(x.v, y.v))
        return simp(r)
    return ex.seq_eq_cond(a, b)

@model("std::operator+")
def m_plus(ex, unit, d, this, args, e):
    a, b = ex.rv(args[0]), ex.rv(args[1])
    if isinstance(a, Iter) or isinstance(b, Iter) and isintish(a):
        if isinstance(b, Iter): a, b = b, a
        if isintish(b): return Iter(a.lv, add(a.idx, b), a.rev)
    return append_value(ex, a) + append_value(ex, b)

@ctor("std::basic_string", "std::basic_string_view")
def c_string(ex, unit, d, ty, args, e):
    ps = d["ps"]
    a = [ex.rv(x) for x in args]
    pt = [unit.ty(unit.strip(p["t"])) for p in ps]
    # trailing allocator
    if pt and pt[-1].get("n", "").endswith("allocator"): a, pt = a[:-1], pt[:-1]
    if not a: return Seq()
    if len(a) == 1:
        if isinstance(a[0], (Seq, CStr, Iter, Obj, SymRef)): return S(ex, a[0])
    if len(a) == 2:
        if isinstance(a[0], Iter) and isinstance(a[1], Iter): return iter_range(ex, a[0], a[1])
        if isintish(a[0]) and isintish(a[1]): return repeat(ex, a[1], a[0])
        if isinstance(a[0], CStr) and isintish(a[1]): return ex.seq_slice(a[0].seq, 0, a[1])
        if isinstance(a[0], Iter) and isintish(a[1]):
            s = ex.as_seq(a[0].lv.get(ex)); return ex.seq_slice(s, a[0].idx, add(a[0].idx, a[1]))
        if isinstance(a[0], Seq) and isintish(a[1]): return substr(ex, a[0], a[1], NPOS)
    if len(a) == 3 and isinstance(a[0], Seq): return substr(ex, a[0], a[1], a[2])
    raise Unsupported("string constructor " + unit.sig(d))
@model(STR + "operator basic_string_view", STR + "(conv)")
def m_tosv(ex, unit, d, this, args, e): return seqof(ex, this)

@ctor("std::vector", "std::array", "std::initializer_list")
def c_vector(ex, unit, d, ty, args, e):
    ps = d["ps"]
    a = [ex.rv(x) for x in args]
    pt = [unit.ty(unit.strip(p["t"])) for p in ps]
    if pt and pt[-1].get("n", "").endswith("allocator"): a, pt = a[:-1], pt[:-1]
    if not a: return Seq()
    if len(a) == 1 and isinstance(a[0], Seq): return a[0]
    if len(a) == 1 and isintish(a[0]):
        et = targ(unit, ty)
        v = ex.default_value(unit, et)
        return repeat(ex, v, a[0])
    if len(a) == 2:
        if isinstance(a[0], Iter) and isinstance(a[1], Iter):
            return conv_elems(ex, unit, targ(unit, ty), iter_range(ex, a[0], a[1]))
        if isintish(a[0]): return repeat(ex, a[1], a[0])
    raise Unsupported("vector constructor " + unit.sig(d))

def conv_elems(ex, unit, et, s):
    return s

@ctor("std::allocator")
def c_alloc(ex, unit, d, ty, args, e): return VOID

def build(ex, unit, t, args):
    """T(args...) for library emplacement"""
    ty = unit.ty(t)
    vals = [ex.rv(a) for a in args]
    if ty["k"] in ("int", "enum", "bool", "float", "ptr"):
        if not vals: return ex.default_value(unit, t)
        return ex.rv(ex.coerce(vals[0], unit, t))
    n = ty.get("n")
    if n == "std::basic_string":
        if not vals: return Seq()
        if len(vals) == 1: return S(ex, vals[0])
        if len(vals) == 2 and isintish(vals[0]): return repeat(ex, vals[1], vals[0])
    if n == "std::pair" and len(vals) == 2: return Pair(*vals)
    if len(vals) == 1 and isinstance(vals[0], (Obj, SymRef)) and vals[0].cls == n: return vals[0]
    if len(vals) == 1 and isinstance(vals[0], Seq) and n == "std::vector": return vals[0]
    if len(vals) == 1 and n == "std::optional": return vals[0] if isinstance(vals[0], Opt) else Opt(True, vals[0])
    if len(vals) == 1 and isinstance(vals[0], Ptr) and n not in L.node_classes: return vals[0]
    if n in ex.prog.recs and n not in L.node_classes:
        u, rec = ex.prog.recs[n]
        cands = [u.decls[i] for i in rec.get("ms", []) if u.decls[i].get("ctor") and not u.decls[i].get("cc") and not u.decls[i].get("mc")]
        c2 = [x for x in cands if len(x["ps"]) == len(vals) or (len(x["ps"]) > len(vals) and all("def" in p for p in x["ps"][len(vals):]))]
        if not vals and not any(x.get("body") for x in c2): return ex.default_obj(u, rec)
        if not cands and len(vals) <= len(rec["fs"]):   # aggregate
            return Obj(n, {f["n"]: v for f, v in zip(rec["fs"], vals)})
        def score(x):
            s = 0
            for p, v in zip(x["ps"], vals):
                pt = u.ty(u.strip(p["t"]))
                pn = pt.get("n")
                if isinstance(v, Seq) or isinstance(v, CStr): s += 2 if pn == "std::basic_string" else (1 if pn == "std::vector" else 0 if pt["k"] == "rec" and pn in ex.prog.recs else -5)
                elif isinstance(v, Opt): s += 2 if pn == "std::optional" else -5
                elif isinstance(v, Ptr): s += 2 if (pt["k"] == "ptr" or pn in ("std::shared_ptr",)) else -5
                elif isinstance(v, (Obj, SymRef)): s += 2 if pn == v.cls else -3
                elif isintish(v): s += 2 if pt["k"] in ("int", "enum") else -3
                elif isfp(v): s += 2 if pt["k"] == "float" else -3
                elif isboolish(v): s += 2 if pt["k"] == "bool" else -1
            return s
        c2.sort(key=score, reverse=True)
        if c2:
            x = c2[0]
            vv = []
            for p, v in zip(x["ps"], vals):
                pt = u.ty(u.strip(p["t"]))
                if pt.get("n") == "std::basic_string" and isinstance(v, CStr): v = cstr_seq(ex, v)
                if pt.get("n") == "std::optional" and not isinstance(v, Opt): v = Opt(True, v)
                if isinstance(v, (Seq, CStr)) and pt["k"] == "rec" and pt.get("n") in ex.prog.recs and "#" not in str(pt.get("n")): v = build(ex, u, u.strip(p["t"]), [v])
                vv.append(v)
            for p in x["ps"][len(vals):]:
                ex.frames.append(Frame(u, {}, None, "default argument"))
                try: vv.append(ex.rv(ex.ev(p["def"])))
                finally: ex.frames.pop()
            c = ex.contracts.get(x["q"])
            if c is not None and ex.under != u.sig(x):
                r = c(ex, u, x, None, vv)
                if r is not NotImplemented:
                    ex.rep.contracts_used.add(x["q"]); return r
            return ex.construct(u, x, t, vv)
        elif cands: raise Unsupported("construction of %s: %s" % (n, [[p.get("def") for p in x["ps"]] for x in cands]))
    h = L.builders.get(n) if hasattr(L, "builders") else None
    if h: return h(ex, unit, t, args)
    raise Unsupported("construction of %s from %d arguments" % (ty["s"], len(args)))
L.builders = {}
L.node_classes = set()

# ---- iterators ---------------------------------------------------------------------------------
NI = "__gnu_cxx::__normal_iterator::"
RI = "std::reverse_iterator::"
@model(NI + "operator*", RI + "operator*", NI + "operator->", RI + "operator->")
def m_deref(ex, unit, d, this, args, e):
    it = this.get(ex)
    lv = ex.iter_elem(it)
    if d["q"].endswith("->"): return Special("lvptr", lv)
    return lv
@model(NI + "operator[]")
def m_itidx(ex, unit, d, this, args, e):
    it = this.get(ex); return ex.iter_elem(Iter(it.lv, add(it.idx, ex.rv(args[0])), it.rev))
@model(NI + "operator++", RI + "operator++")
def m_itinc(ex, unit, d, this, args, e):
    it = this.get(ex); this.set(ex, Iter(it.lv, add(it.idx, 1), it.rev))
    return it if args else this
@model(NI + "operator--", RI + "operator--")
def m_itdec(ex, unit, d, this, args, e):
    it = this.get(ex); this.set(ex, Iter(it.lv, sub(it.idx, 1), it.rev))
    return it if args else this
@model(NI + "operator+", RI + "operator+")
def m_itadd(ex, unit, d, this, args, e):
    it = this.get(ex); return Iter(it.lv, add(it.idx, ex.rv(args[0])), it.rev)
@model(NI + "operator-", RI + "operator-")
def m_itsub(ex, unit, d, this, args, e):
    it = this.get(ex); return Iter(it.lv, sub(it.idx, ex.rv(args[0])), it.rev)
@model(NI + "operator+=")
def m_itpe(ex, unit, d, this, args, e):
    it = this.get(ex); this.set(ex, Iter(it.lv, add(it.idx, ex.rv(args[0])), it.rev)); return this
@model(NI + "operator-=")
def m_itme(ex, unit, d, this, args, e):
    it = this.get(ex); this.set(ex, Iter(it.lv, sub(it.idx, ex.rv(args[0])), it.rev)); return this
@model("__gnu_cxx::operator-")
def m_itdiff(ex, unit, d, this, args, e): return sub(ex.rv(args[0]).idx, ex.rv(args[1]).idx)
@model("__gnu_cxx::operator<")
def m_itlt(ex, unit, d, this, args, e): return lt(ex.rv(args[0]).idx, ex.rv(args[1]).idx)
@model("std::next")
def m_next(ex, unit, d, this, args, e):
    it = ex.rv(args[0]); k = ex.rv(args[1]) if len(args) > 1 else 1
    return Iter(it.lv, add(it.idx, k), it.rev)
@model("std::prev")
def m_prev(ex, unit, d, this, args, e):
    it = ex.rv(args[0]); k = ex.rv(args[1]) if len(args) > 1 else 1
    return Iter(it.lv, sub(it.idx, k), it.rev)
@model("std::advance")
def m_advance(ex, unit, d, this, args, e):
    it = ex.rv(args[0]); args[0].set(ex, Iter(it.lv, add(it.idx, ex.rv(args[1])), it.rev)); return VOID
@model("std::distance")
def m_distance(ex, unit, d, this, args, e):
    return sub(ex.rv(args[1]).idx, ex.rv(args[0]).idx)
@ctor("__gnu_cxx::__normal_iterator", "std::reverse_iterator")
def c_iter(ex, unit, d, ty, args, e): return ex.rv(args[0]) if args else NotImplemented

# ---- algorithms --------------------------------------------------------------------------------
def range_of(ex, a, b):
    """(lvalue of the container, element sequence) for an iterator pair"""
    a, b = ex.rv(a), ex.rv(b)
    if isinstance(a, Ptr) or not isinstance(a, Iter): raise Unsupported("iterator range %r" % (a,))
    v = a.lv.get(ex)
    if isinstance(v, Special): raise Unsupported("algorithm over %s" % v.kind)
    s = ex.as_seq(v)
    n = ex.seq_len(s)
    if not a.rev and cint(a.idx) == 0 and str(simp(b.idx)) == str(simp(n)): return a.lv
    if a.rev:
        kv = z3.Int("kv!%d" % ex.fresh_id())
        raise Unsupported("reverse range")
    ex.oblige(And(le(0, a.idx), le(a.idx, b.idx), le(b.idx, n)), "memory-safety: valid iterator range")
    return ex.temp(ex.seq_slice(s, a.idx, b.idx), "range")
def lrange(ex, x):
    return ex.lvof(x)

def key(e, what): return (what, id(e))

@model("std::for_each")
def m_for_each(ex, unit, d, this, args, e):
    f = ex.rv(args[2])
    ex.iterate(key(e, "for_each"), range_of(ex, args[0], args[1]), lambda el: ex.call_closure(f, [el]), catch=False)
    return f
@model("ranges::for_each_fn::operator()", "std::ranges::__for_each_fn::operator()")
def m_rfor_each(ex, unit, d, this, args, e):
    f = ex.rv(args[1])
    ex.iterate(key(e, "for_each"), lrange(ex, args[0]), lambda el: ex.call_closure(f, [el]), catch=False)
    return VOID

class Hit(Exception): pass
def any_gen(ex, e, rng, pred, neg=False):
    """exists element with pred (or not pred); forks"""
    found = ex.temp(False, "found")
    def body(el):
        c = ex.truth(ex.rv(pred(el)))
        if neg: c = simp(Not(c))
        if ex.branch(c):
            raise BreakX()
    def run():
        try:
            ex.iterate(key(e, "any"), rng, body, catch=False)
            return False
        except BreakX: return True
    return run()
def rng_args(ex, d, args):
    """iterator pair or range argument; returns (range lvalue, remaining args)"""
    v = ex.rv(args[0])
    if isinstance(v, Iter): return range_of(ex, args[0], args[1]), args[2:]
    return lrange(ex, args[0]), args[1:]
@model("std::any_of", "ranges::any_of_fn::operator()", "std::ranges::__any_of_fn::operator()")
def m_any_of(ex, unit, d, this, args, e):
    r, rest = rng_args(ex, d, args)
    return any_gen(ex, e, r, lambda el: ex.call_closure(rest[0], [el]))
@model("std::none_of", "ranges::none_of_fn::operator()", "std::ranges::__none_of_fn::operator()")
def m_none_of(ex, unit, d, this, args, e):
    r, rest = rng_args(ex, d, args)
    return not any_gen(ex, e, r, lambda el: ex.call_closure(rest[0], [el]))
@model("std::all_of", "ranges::all_of_fn::operator()", "std::ranges::__all_of_fn::operator()")
def m_all_of(ex, unit, d, this, args, e):
    r, rest = rng_args(ex, d, args)
    return not any_gen(ex, e, r, lambda el: ex.call_closure(rest[0], [el]), neg=True)
@model("std::find_if", "ranges::find_if_fn::operator()", "std::find", "ranges::find_fn::operator()", "std::find_if_not")
def m_find_if(ex, unit, d, this, args, e):
    v = ex.rv(args[0])
    if isinstance(v, Iter): lv, lo, hi, rest = v.lv, v.idx, ex.rv(args[1]).idx, args[2:]
    else:
        lv = lrange(ex, args[0]); lo, hi, rest = 0, ex.seq_len(ex.as_seq(lv.get(ex))), args[1:]
    if d["q"] in ("std::find_if", "ranges::find_if_fn::operator()"): pred = lambda el: ex.call_closure(rest[0], [el])
    elif d["q"] == "std::find_if_not": pred = lambda el: simp(Not(ex.truth(ex.rv(ex.call_closure(rest[0], [el])))))
    else:
        x = ex.rv(rest[0]); pred = lambda el: ex.veq(ex.rv(el), x)
    s = ex.as_seq(lv.get(ex))
    sl = s if (cint(lo) == 0 and str(simp(hi)) == str(simp(ex.seq_len(s)))) else ex.seq_slice(s, lo, hi)
    pos = ex.temp(lo, "findpos")
    def body(el):
        if ex.branch(ex.truth(ex.rv(pred(el)))): raise BreakX()
        pos.set(ex, add(pos.get(ex), 1))
    ex.iterate(key(e, "find_if"), ex.temp(sl, "range"), body, catch=True)
    return Iter(lv, pos.get(ex))
@model("std::adjacent_find", "ranges::adjacent_find_fn::operator()", "std::ranges::__adjacent_find_fn::operator()")
def m_adjacent_find(ex, unit, d, this, args, e):
    v = ex.rv(args[0])
    if isinstance(v, Iter): lv, lo, hi, rest = v.lv, v.idx, ex.rv(args[1]).idx, args[2:]
    else:
        lv = lrange(ex, args[0]); lo, hi, rest = 0, ex.seq_len(ex.as_seq(lv.get(ex))), args[1:]
    if ex.branch(le(hi, lo)): return Iter(lv, hi)
    s = ex.as_seq(lv.get(ex))
    pos = ex.temp(lo, "adjpos"); whole = ex.temp(s, "adjrange")
    def body(el):
        y = ElemLV(whole, add(pos.get(ex), 1))
        c = ex.truth(ex.rv(ex.call_closure(rest[0], [el, y]))) if rest else ex.veq(ex.rv(el), ex.rv(y))
        if ex.branch(c): raise BreakX()
        pos.set(ex, add(pos.get(ex), 1))
    try: ex.iterate(key(e, "adjacent_find"), ex.temp(ex.seq_slice(s, lo, sub(hi, 1)), "range"), body, catch=False)
    except BreakX: return Iter(lv, pos.get(ex))
    return Iter(lv, hi)
@model("std::count_if", "std::count", "ranges::count_if_fn::operator()")
def m_count_if(ex, unit, d, this, args, e):
    r, rest = rng_args(ex, d, args)
    n = ex.temp(0, "count"); ex.ctypes[n.cell.key] = (0, MAXLEN)
    x = ex.rv(rest[0])
    def body(el):
        c = ex.veq(ex.rv(el), x) if d["q"] == "std::count" else ex.truth(ex.rv(ex.call_closure(x, [el])))
        if ex.branch(c): n.set(ex, add(n.get(ex), 1))
    ex.iterate(key(e, "count"), r, body, catch=False)
    return n.get(ex)
@model("std::accumulate", "ranges::accumulate_fn::operator()")
def m_accumulate(ex, unit, d, this, args, e):
    r, rest = rng_args(ex, d, args)
    acc = ex.temp(ex.copy_in(ex.rv(rest[0])), "acc")
    ty = unit.ty(unit.strip(d["ret"]))
    if ty["k"] in ("int", "enum"): ex.ctypes[acc.cell.key] = trange(ty)
    def body(el):
        if len(rest) > 1: v = ex.rv(ex.call_closure(rest[1], [ex.temp(acc.get(ex)), el]))
        elif ty["k"] in ("int",): v = ex.arith("+", acc.get(ex), ex.rv(el), ty)
        else: v = append_value(ex, acc.get(ex)) + append_value(ex, el)
        if ty["k"] in ("int", "enum"): v = ex.rv(ex.coerce(v, unit, unit.strip(d["ret"]))) if not getattr(ex, "nowrap", False) else v
        acc.set(ex, v)
    ex.iterate(key(e, "accumulate"), r, body, catch=False)
    return acc.get(ex)

def sink_write(ex, sink, v):
    """assignment through an output iterator value"""
    if isinstance(sink, Special) and sink.kind == "back_inserter":
        lv, et, unit = sink.x
        if et is not None: v = ex.rv(ex.coerce(v, unit, et))
        setseq(ex, lv, seqof(ex, lv) + Seq([U(v)])); return sink
    if isinstance(sink, Iter):
        lv = ex.iter_elem(sink); lv.set(ex, v); return Iter(sink.lv, add(sink.idx, 1), sink.rev)
    raise Unsupported("output iterator %r" % (sink,))
@model("std::back_inserter")
def m_back_ins(ex, unit, d, this, args, e):
    t = unit.strip(d["ps"][0]["t"]); ty = unit.ty(t)
    et = targ(unit, ty)
    return Special("back_inserter", (args[0], et, unit))
L.default_types["std::back_insert_iterator"] = None
del L.default_types["std::back_insert_iterator"]
@model("std::transform", "ranges::transform_fn::operator()")
def m_transform(ex, unit, d, this, args, e):
    a0 = ex.rv(args[0])
    if isinstance(a0, Iter):
        if len(args) == 5: raise Unsupported("binary transform")
        rng, out, f = range_of(ex, args[0], args[1]), ex.rv(args[2]), args[3]
    else: rng, out, f = lrange(ex, args[0]), ex.rv(args[1]), args[2]
    cell = ex.temp(out, "out")
    elt = None
    if isinstance(out, Iter):
        s = ex.as_seq(out.lv.get(ex))
        elt = unit
    rt = unit.ty(d["ret"]) if d.get("ret") is not None else None
    if isinstance(out, Iter) and not out.rev and isinstance(a0, Iter) and a0.lv is not out.lv and rt is not None and not isinstance(s.concrete(), list) and "char" not in rt["s"].split(",")[0].replace("basic_string<char", ""):
        # into another container of class type: the new elements replace as many old ones
        new = ex.temp(Seq(), "transformed")
        def body2(el):
            v = ex.copy_in(ex.rv(ex.call_closure(f, [el])))
            new.set(ex, new.get(ex) + Seq([U(S(ex, v) if isinstance(v, CStr) else v)]))
        ex.iterate(key(e, "transform"), rng, body2, catch=False)
        n, old = ex.seq_len(new.get(ex)), ex.as_seq(out.lv.get(ex))
        ex.oblige(And(le(0, out.idx), le(add(out.idx, n), ex.seq_len(old))), "memory-safety: room for every element written")
        setseq(ex, out.lv, ex.seq_slice(old, 0, out.idx) + new.get(ex) + ex.seq_slice(old, add(out.idx, n), ex.seq_len(old)))
        return Iter(out.lv, add(out.idx, n))
    def body(el):
        v = ex.rv(ex.call_closure(f, [el]))
        o = cell.get(ex)
        if isinstance(o, Iter) and isintish(v):
            v = out_coerce(ex, unit, d, v)
        o2 = sink_write(ex, o, v)
        if o2 is not o: cell.set(ex, o2)
    ex.iterate(key(e, "transform"), rng, body, catch=False)
    return cell.get(ex)
def out_coerce(ex, unit, d, v):
    """value stored through an iterator into a char string"""
    for p in d["ps"]:
        s = unit.ty(unit.strip(p["t"]))["s"]
        if "basic_string<char" in s or s.startswith("char *"):
            return ex.wrap(v, 8, True)
    return v
@model("std::copy", "ranges::copy_fn::operator()", "std::copy_if")
def m_copy(ex, unit, d, this, args, e):
    a0 = ex.rv(args[0])
    if isinstance(a0, Iter): rng, rest = range_of(ex, args[0], args[1]), args[2:]
    else: rng, rest = lrange(ex, args[0]), args[1:]
    cell = ex.temp(ex.rv(rest[0]), "out")
    def body(el):
        if len(rest) > 1 and not ex.branch(ex.truth(ex.rv(ex.call_closure(rest[1], [el])))): return
        o = cell.get(ex); o2 = sink_write(ex, o, ex.copy_in(ex.rv(el)))
        if o2 is not o: cell.set(ex, o2)
    ex.iterate(key(e, "copy"), rng, body, catch=False)
    return cell.get(ex)
@model("std::equal", "ranges::equal_fn::operator()", "std::ranges::__equal_fn::operator()")
def m_equal(ex, unit, d, this, args, e):
    a0 = ex.rv(args[0])
    pred = None
    if isinstance(a0, Iter):
        A = ex.as_seq(range_of(ex, args[0], args[1]).get(ex))
        b1 = ex.rv(args[2])
        n = ex.seq_len(A)
        rest = args[3:]
        sb = ex.as_seq(b1.lv.get(ex))
        if rest and isinstance(ex.rv(rest[0]), Iter):
            B = ex.as_seq(range_of(ex, args[2], rest[0]).get(ex)); rest = rest[1:]
            checklen = True
        else:
            ex.oblige(le(add(b1.idx, n), ex.seq_len(sb)), "memory-safety: second range of std::equal long enough")
            B = ex.seq_slice(sb, b1.idx, add(b1.idx, n)); checklen = False
        if rest: pred = rest[0]
    else:
        def sq(x):
            v = ex.rv(x)
            if isinstance(v, View): return view_seq(ex, v, key(e, "view"))
            return ex.as_seq(v)
        A, B = sq(args[0]), sq(args[1])
        checklen = True
        if len(args) > 2 and isinstance(ex.rv(args[2]), (Closure, Fn)): pred = args[2]
        elif len(args) > 2 and not isinstance(ex.rv(args[2]), Special): raise Unsupported("equal predicate")
    n = ex.seq_len(A)
    if checklen and not ex.branch(eq(n, ex.seq_len(B))): return False
    pos = ex.temp(0, "eqpos")
    lvB = ex.temp(B, "rangeB")
    def body(el):
        p = pos.get(ex)
        y = ElemLV(lvB, p)
        c = ex.truth(ex.rv(ex.call_closure(pred, [el, y]))) if pred is not None else ex.veq(ex.rv(el), ex.rv(y))
        if not ex.branch(simp(c)): raise BreakX()
        pos.set(ex, add(p, 1))
    try:
        ex.iterate(key(e, "equal"), ex.temp(A, "rangeA"), body, catch=False)
    except BreakX: return False
    return True
@model("std::reverse")
def m_reverse(ex, unit, d, this, args, e):
    a, b = ex.rv(args[0]), ex.rv(args[1])
    s = ex.as_seq(a.lv.get(ex))
    if s.concrete() is not None and cint(a.idx) == 0 and cint(b.idx) == len(s.atoms):
        a.lv.set(ex, Seq(reversed(s.atoms))); return VOID
    raise Unsupported("std::reverse")
@model("std::max", "std::min")
def m_maxmin(ex, unit, d, this, args, e):
    mx = d["q"] == "std::max"
    if len(args) == 1:
        vs = ex.as_seq(ex.rv(args[0])).concrete()
        if not vs: raise Unsupported("max of a list")
        r = vs[0]
        for v in vs[1:]:
            c = lt(r, v) if mx else lt(v, r)
            r = simp(If(c, v, r))
        return r
    a, b = args[0], args[1]
    if len(args) == 3: c = ex.truth(ex.rv(ex.call_closure(args[2], [a, b] if mx else [b, a])))
    else:
        t = unit.strip(d["ps"][0]["t"])
        c = less_values(ex, unit, t, ex.lvof(a), ex.lvof(b)) if mx else less_values(ex, unit, t, ex.lvof(b), ex.lvof(a))
    va, vb = ex.rv(a), ex.rv(b)
    if isintish(va) and isintish(vb): return simp(If(c, vb, va))
    return b if ex.branch(c) else a
@model("std::clamp")
def m_clamp(ex, unit, d, this, args, e):
    v, lo, hi = [ex.rv(a) for a in args[:3]]
    if not all(isintish(x) for x in (v, lo, hi)): raise Unsupported("clamp")
    return simp(If(lt(v, lo), lo, If(lt(hi, v), hi, v)))
def less_values(ex, u, t, x, y):
    ty = u.ty(t)
    if ty["k"] == "rec" and ty.get("n") in ex.prog.recs:
        c = ex.find_method(ty["n"], "operator<")
        if c: return ex.rv(ex.call_fn(c[0], c[1], x, [y]))
        c = ex.find_method(ty["n"], "operator<=>")
        if c: return lt(ex.call_fn(c[0], c[1], x, [y]).x, 0)
    vx, vy = ex.rv(x), ex.rv(y)
    if isfp(vx): return simp(z3.fpLT(vx, vy))
    if isintish(vx) and isintish(vy): return lt(vx, vy)
    raise Unsupported("ordering of %s" % ty["s"])
@model("std::abs", "abs", "std::labs", "labs", "llabs", "std::llabs")
def m_abs(ex, unit, d, this, args, e):
    v = ex.rv(args[0])
    ty = unit.ty(d["ret"])
    if isfp(v): return z3.simplify(z3.fpAbs(v))
    lo, hi = trange(ty)
    ex.oblige(Not(eq(v, lo)), "arithmetic: no signed overflow")
    return simp(If(lt(v, 0), sub(0, v), v))

# ---- three-way comparison ----------------------------------------------------------------------
for _op, _f in {"==": lambda o: eq(o, 0), "!=": lambda o: simp(Not(eq(o, 0))), "<": lambda o: lt(o, 0), ">": lambda o: lt(0, o), "<=": lambda o: le(o, 0), ">=": lambda o: le(0, o)}.items():
    def _mk(op, f):
        old = L.models.get("std::operator" + op)
        def m(ex, unit, d, this, args, e):
            a, b = ex.rv(args[0]), ex.rv(args[1])
            if isinstance(a, Special) and a.kind == "ord" and not (isinstance(b, Special) and b.kind == "ord"): return f(a.x)
            if isinstance(b, Special) and b.kind == "ord" and not (isinstance(a, Special) and a.kind == "ord"): return f(sub(0, b.x))
            if isinstance(a, Iter) and isinstance(b, Iter): return f(simp(If(lt(a.idx, b.idx), -1, If(lt(b.idx, a.idx), 1, 0))))
            if old: return old(ex, unit, d, this, args, e)
            return NotImplemented
        L.models["std::operator" + op] = m
    _mk(_op, _f)
for _c in ("std::strong_ordering", "std::weak_ordering", "std::partial_ordering"):
    for _n, _v in (("less", -1), ("equal", 0), ("equivalent", 0), ("greater", 1)):
        L.globals[_c + "::" + _n] = (lambda v: lambda ex, unit, d: Special("ord", v))(_v)
@ctor("std::__cmp_cat::__unspec")
def c_unspec(ex, unit, d, ty, args, e): return Special("zero")
@ctor("std::strong_ordering", "std::weak_ordering", "std::partial_ordering")
def c_ord(ex, unit, d, ty, args, e):
    if args and isinstance(ex.rv(args[0]), Special) and ex.rv(args[0]).kind == "ord": return ex.rv(args[0])
    return Special("ord", 0)

# ---- optional ----------------------------------------------------------------------------------
OPT = "std::optional::"
@ctor("std::optional")
def c_opt(ex, unit, d, ty, args, e):
    if not args: return Opt(False)
    v = ex.rv(args[0])
    if isinstance(v, Opt):
        inner = unit.ty(targ(unit, ty)) if targ(unit, ty) is not None else {}
        if inner.get("n") == "std::optional" and not (d.get("cc") or d.get("mc")): return Opt(True, v)
        return v
    if isinstance(v, Special) and v.kind == "nullopt": return Opt(False)
    if len(args) == 1:
        it = targ(unit, ty)
        if it is not None and unit.ty(it).get("n") == "std::basic_string" and isinstance(v, CStr): v = cstr_seq(ex, v)
        return Opt(True, ex.copy_in(v))
    return NotImplemented
@ctor("std::nullopt_t")
def c_nullopt(ex, unit, d, ty, args, e): return Special("nullopt")
L.globals["std::basic_string::npos"] = L.globals["std::basic_string_view::npos"] = lambda ex, unit, d: NPOS
L.globals["std::nullopt"] = lambda ex, unit, d: Special("nullopt")
@model(OPT + "operator=")
def m_optassign(ex, unit, d, this, args, e):
    v = ex.rv(args[0])
    if isinstance(v, Special) and v.kind == "nullopt": v = Opt(False)
    elif not isinstance(v, Opt):
        if isinstance(v, CStr): v = cstr_seq(ex, v)
        v = Opt(True, ex.copy_in(v))
    this.set(ex, v)
    return this
@model(OPT + "has_value", OPT + "operator bool", OPT + "(conv)", "std::__optional_base::has_value", "std::_Optional_base_impl::_M_is_engaged")
def m_opthas(ex, unit, d, this, args, e): return this.get(ex).has
@model(OPT + "value")
def m_optval(ex, unit, d, this, args, e):
    o = this.get(ex)
    if not ex.branch(o.has): throw_std(ex, "std::bad_optional_access")
    return OptLV(this)
@model(OPT + "operator*", OPT + "operator->")
def m_optderef(ex, unit, d, this, args, e):
    o = this.get(ex)
    ex.oblige(o.has, "memory-safety: access of an engaged optional")
    lv = OptLV(this)
    return Special("lvptr", lv) if d["q"].endswith("->") else lv
@model(OPT + "value_or")
def m_optvalor(ex, unit, d, this, args, e):
    o = this.get(ex)
    if ex.branch(o.has): return o.v
    v = ex.rv(args[0])
    ty = unit.ty(d["ret"])
    if ty.get("n") == "std::basic_string": return S(ex, v)
    return v
@model(OPT + "reset")
def m_optreset(ex, unit, d, this, args, e): this.set(ex, Opt(False)); return VOID
@model(OPT + "emplace")
def m_optemplace(ex, unit, d, this, args, e):
    this.set(ex, Opt(True, build(ex, unit, unit.strip(d["ret"]), args))); return OptLV(this)
@model("std::make_optional")
def m_mkopt(ex, unit, d, this, args, e):
    t = targ(unit, unit.ty(d["ret"]))
    return Opt(True, build(ex, unit, t, args))

def lconv(ex, unit, t, v):
    """conversion a library template performs when it stores v in a T"""
    if t is None: return v
    ty = unit.ty(t); n = ty.get("n")
    if n == "std::basic_string" and isinstance(v, CStr): return cstr_seq(ex, v)
    if n == "std::optional":
        if isinstance(v, Special) and v.kind == "nullopt": return Opt(False)
        if not isinstance(v, Opt): return Opt(True, lconv(ex, unit, targ(unit, ty), v))
    if ty["k"] in ("int", "enum", "bool"): return ex.rv(ex.coerce(v, unit, t))
    return v

# ---- pair / tuple / misc -----------------------------------------------------------------------
@ctor("std::pair")
def c_pair(ex, unit, d, ty, args, e):
    if len(args) == 2:
        vs = []
        for i, a in enumerate(args):
            vs.append(lconv(ex, unit, targ(unit, ty, i), ex.copy_in(ex.rv(a))))
        return Pair(*vs)
    if not args:
        return Pair(ex.default_value(unit, targ(unit, ty)), ex.default_value(unit, targ(unit, ty, 1)))
    if len(args) == 1 and isinstance(ex.rv(args[0]), Pair):
        v = ex.rv(args[0])
        return Pair(lconv(ex, unit, targ(unit, ty, 0), v.a), lconv(ex, unit, targ(unit, ty, 1), v.b))
    return NotImplemented
@ctor("std::tuple")
def c_tuple(ex, unit, d, ty, args, e):
    """elements in order; an element of reference type keeps referring"""
    if len(args) == 1:
        v = ex.rv(args[0])
        if isinstance(v, Special) and v.kind == "tuple": return v
    ta = []
    for a in ty.get("ta") or []: ta += a["pack"] if isinstance(a, dict) and "pack" in a else [a]
    if len(ta) != len(args): return NotImplemented
    out = []
    for a, t in zip(args, ta):
        t = t["t"] if isinstance(t, dict) else t
        out.append(ex.lvof(a) if unit.ty(t)["k"] == "ref" else lconv(ex, unit, t, ex.copy_in(ex.rv(a))))
    return Special("tuple", tuple(out))
@model("std::make_pair")
def m_mkpair(ex, unit, d, this, args, e): return Pair(ex.copy_in(ex.rv(args[0])), ex.copy_in(ex.rv(args[1])))
@model("std::move", "std::forward", "std::as_const", "std::ref", "std::cref", "std::addressof")
def m_move(ex, unit, d, this, args, e):
    if len(args) != 1: return NotImplemented
    if d["q"].endswith("addressof"): return Special("lvptr", args[0])
    return args[0]
@model("std::exchange")
def m_exchange(ex, unit, d, this, args, e):
    o = args[0].get(ex); args[0].set(ex, ex.rv(args[1])); return o
@model("__assert_fail")
def m_assert(ex, unit, d, this, args, e):
    ex.oblige(False, "assertion holds: " + (ex.rv(args[0]).seq.text() if isinstance(ex.rv(args[0]), CStr) and ex.rv(args[0]).seq.text() else "?").rstrip("\0"))
    raise PathEnd()
@model("std::terminate", "abort", "std::abort", "exit", "std::exit")
def m_abort(ex, unit, d, this, args, e):
    ex.oblige(False, "no abnormal termination"); raise PathEnd()

# ---- ctype -------------------------------------------------------------------------------------
def ctype_arg(ex, args):
    c = ex.rv(args[0])
    ex.oblige(And(le(-1, c), le(c, 255)), "precondition of <cctype>: argument representable as unsigned char or EOF")
    return c
def rng(c, a, b): return And(le(a, c), le(c, b))
@model("tolower", "std::tolower")
def m_tolower(ex, unit, d, this, args, e):
    c = ctype_arg(ex, args); return simp(If(rng(c, 65, 90), add(c, 32), c))
@model("toupper", "std::toupper")
def m_toupper(ex, unit, d, this, args, e):
    c = ctype_arg(ex, args); return simp(If(rng(c, 97, 122), sub(c, 32), c))
def _ct(*names, f):
    def m(ex, unit, d, this, args, e):
        return simp(If(f(ctype_arg(ex, args)), 1, 0))
    for n in names: L.models[n] = m
_alpha = lambda c: Or(rng(c, 65, 90), rng(c, 97, 122))
_digit = lambda c: rng(c, 48, 57)
_ct("isalnum", "std::isalnum", f=lambda c: Or(_alpha(c), _digit(c)))
_ct("isalpha", "std::isalpha", f=_alpha)
_ct("isdigit", "std::isdigit", f=_digit)
_ct("isupper", "std::isupper", f=lambda c: rng(c, 65, 90))
_ct("islower", "std::islower", f=lambda c: rng(c, 97, 122))
_ct("isxdigit", "std::isxdigit", f=lambda c: Or(_digit(c), rng(c, 65, 70), rng(c, 97, 102)))
_ct("isspace", "std::isspace", f=lambda c: Or(eq(c, 32), rng(c, 9, 13)))
_ct("iscntrl", "std::iscntrl", f=lambda c: Or(rng(c, 0, 31), eq(c, 127)))
_ct("isprint", "std::isprint", f=lambda c: rng(c, 32, 126))
_ct("isgraph", "std::isgraph", f=lambda c: rng(c, 33, 126))
_ct("ispunct", "std::ispunct", f=lambda c: And(rng(c, 33, 126), Not(Or(_alpha(c), _digit(c)))))

# ---- numbers to text ---------------------------------------------------------------------------
def dec_op(ex, v):
    """decimal rendering (injective; characters are '-' or digits)"""
    c = cint(v)
    if c is not None: return Seq.lit(str(c))
    ln = ex.uf("dec.len", [v], z3.IntSort())
    ex.axiom_once(("declen", str(v)), z3.And(ln >= 1, ln <= 20))
    return Seq([OP("dec", [v], ln)])
def unfold_dec(ex, op):
    v = op.args[0]
    if ex.holds(And(le(0, v), le(v, 9))) is True: return Seq([U(add(v, 48))])
    return None
L.op_unfold["dec"] = unfold_dec

def hexdigit(d, upper):
    return simp(If(le(d, 9), add(d, 48), add(d, 55 if upper else 87)))
def hex_fmt(ex, v, width, fill, upper):
    c = cint(v)
    if c is not None:
        s = ("%X" if upper else "%x") % abs(c)
        if fill == "0" : s = ("-" if c < 0 else "") + s.rjust(width - (1 if c < 0 else 0), "0")
        else: s = (("-" if c < 0 else "") + s).rjust(width, fill)
        return Seq.lit(s)
    # number of digits decided by branching
    if ex.branch(lt(v, 0)):
        m = sub(0, v)
        inner = hex_digits(ex, m, max(width - 1, 1) if fill == "0" else 1, upper)
        return Seq.lit("-") + inner
    if fill != "0" and width > 1: raise Unsupported("hex with fill")
    return hex_digits(ex, v, width if fill == "0" else 1, upper)
def hex_digits(ex, v, width, upper):
    nd = 1
    while nd < 16 and not ex.branch(lt(v, 16 ** nd)): nd += 1
    out = []
    n = max(nd, width)
    for i in reversed(range(n)):
        if i >= nd: out.append(U(48)); continue
        dgt = simp(iz(v) / z3.IntVal(16 ** i) % 16) if i else simp(iz(v) % 16)
        if i == nd - 1: dgt = simp(iz(v) / z3.IntVal(16 ** i)) if i else iz(v)
        out.append(U(hexdigit(dgt, upper)))
    return Seq(out)

@model("std::to_string")
def m_tostring(ex, unit, d, this, args, e):
    v = ex.rv(args[0])
    if isfp(v): return fp_op(ex, v, "to_string")
    return dec_op(ex, v)
def fp_op(ex, v, fmtname):
    return Seq([OP("fp:" + fmtname, [v], ex.uf("fplen:%s:%d" % (fmtname, v.get_id() if isz(v) else 0), [], z3.IntSort()))])
L.injective_maybe = set()

# ---- fmt ---------------------------------------------------------------------------------------
@ctor("fmt::basic_format_string", "fmt::runtime_format_string")
def c_fmtstr(ex, unit, d, ty, args, e): return ex.rv(args[0])

def format_text(ex, unit, fs, args, d=None):
    """fmt::format: args are values with types"""
    t = S(ex, fs).text()
    if t is None: raise Unsupported("format string not constant")
    out = Seq()
    i, auto = 0, 0
    lit = ""
    while i < len(t):
        c = t[i]
        if c == "{":
            if i + 1 < len(t) and t[i + 1] == "{": lit += "{"; i += 2; continue
            j = t.index("}", i)
            inside = t[i + 1:j]
            i = j + 1
            idx, _, spec = inside.partition(":")
            if idx == "": n = auto; auto += 1
            elif idx.isdigit(): n = int(idx)
            else: raise Unsupported("named format argument")
            out = out + Seq.lit(lit); lit = ""
            if n >= len(args): raise Unsupported("format argument index")
            v, tt = args[n]
            out = out + format_value(ex, unit, v, tt, spec)
        elif c == "}":
            lit += "}"; i += 2
        else: lit += c; i += 1
    return out + Seq.lit(lit)

def format_value(ex, unit, a, t, spec):
    v = ex.rv(a)
    ty = unit.ty(unit.strip(t)) if t is not None else {"k": "?", "s": "?"}
    m = re.fullmatch(r"(?:(.)?([<>^]))?([+\- ])?(#)?(0)?(\d+)?(?:\.(\d+))?([a-zA-Z])?", spec)
    if not m: raise Unsupported("format spec " + spec)
    fillc, align, sign, alt, zero, width, prec, typ = m.groups()
    width = int(width) if width else 0
    if isboolish(v):
        if spec: raise Unsupported("format spec for bool")
        return Seq.lit("true") if ex.branch(bz(v)) else Seq.lit("false")
    if isintish(v):
        ischar = ty["k"] == "int" and ty["s"].replace("const ", "") in ("char",)
        if ty["k"] == "enum": raise Unsupported("format of enum")
        if typ == "c" or (ischar and typ is None):
            if width > 1: raise Unsupported("char width")
            return Seq([U(ex.wrap(v, 8, True))])
        if alt or sign: raise Unsupported("format flags")
        if typ in ("x", "X"):
            if align == ">" and fillc == "0": zero = "0"
            elif align: raise Unsupported("alignment")
            return hex_fmt(ex, v, width, "0" if zero else " ", typ == "X")
        if typ in (None, "d"):
            if width > 1:
                if align == ">" and fillc == "0": zero = "0"
                return pad_dec(ex, v, width, "0" if zero else " ")
            return dec_op(ex, v)
        raise Unsupported("format type " + typ)
    if isfp(v): return fp_op(ex, v, spec or "g")
    if isinstance(v, (Seq, CStr)) and (ty.get("n") in ("std::basic_string", "std::basic_string_view", None) or isinstance(v, CStr)):
        if spec: raise Unsupported("format spec for string")
        return S(ex, v)
    if isinstance(v, Special) and v.kind == "join":
        rng, sep, et, u = v.x
        return join(ex, u, rng, sep, et, spec)
    if isinstance(v, (Obj, SymRef)):
        return via_ostream(ex, unit, a, v.cls)
    h = getattr(L, "format_hook", None)
    if h:
        r = h(ex, unit, a, ty, spec)
        if r is not None: return r
    raise Unsupported("format of %r" % (v,))

def pad_dec(ex, v, width, fill):
    c = cint(v)
    if c is not None: return Seq.lit(str(c).rjust(width, " ") if fill != "0" else ("%0*d" % (width, c)))
    ln = ex.uf("padlen.%d" % width, [v], z3.IntSort())
    return Seq([OP("decpad%d%s" % (width, fill), [v], ln)])

@ctor("fmt::basic_string_view")
def c_fmtsv(ex, unit, d, ty, args, e): return S(ex, args[0]) if args else Seq()
def join(ex, unit, rng, sep, et, spec=""):
    lv = ex.lvof(rng)
    if isinstance(lv.get(ex), View): et = None       # of whatever type the view yields
    s = ex.as_seq(lv.get(ex)) if not isinstance(lv.get(ex), View) else view_seq(ex, lv.get(ex), ("join",))
    out = ex.temp(Seq(), "join")
    first = True
    c = s.concrete()
    if c is not None:
        r = Seq()
        for i, x in enumerate(c):
            if i: r = r + sep
            r = r + format_value(ex, unit, x, et, spec)
        return r
    if ex.branch(ex.empty(s)): return Seq()
    n = ex.seq_len(s)
    r = format_value(ex, unit, ex.seq_at(s, 0), et, spec)
    out.set(ex, r)
    rest = ex.temp(ex.seq_slice(s, 1, n), "rest")
    def body(el): out.set(ex, out.get(ex) + sep + format_value(ex, unit, ex.rv(el), et, spec))
    ex.iterate(("join", id(rng)), rest, body, catch=False)
    return out.get(ex)

def find_ostream_op(ex, cls):
    """operator<<(std::ostream&, const cls&) (or base)"""
    seen, todo = set(), [cls]
    while todo:
        c = todo.pop(0)
        if c in seen or c is None: continue
        seen.add(c)
        for q in ex.prog.byq:
            if q.endswith("operator<<"):
                for u, d in ex.prog.byq[q]:
                    if len(d["ps"]) == 2 and u.ty(u.strip(d["ps"][1]["t"])).get("n") == c and "ostream" in u.ty(u.strip(d["ps"][0]["t"])).get("n", ""): return u, d
        if c in ex.prog.recs:
            u, d = ex.prog.recs[c]
            todo += [u.ty(b).get("n") for b in d.get("bases", [])]
    return None

def new_stream(buf=Seq(), cls="std::basic_ostream"):
    return Obj(cls, {"buf": buf, "hex": False, "width": 0, "fill": 32, "upper": False})
def via_ostream(ex, unit, a, cls):
    f = find_ostream_op(ex, cls)
    if not f: raise Unsupported("formatting of " + cls)
    os = ex.temp(new_stream(), "os")
    ex.call_fn(f[0], f[1], None, [os, ex.lvof(a)])
    return os.get(ex).f["buf"]

def fmt_args(ex, unit, d, args, skip=1):
    out = []
    ps = d["ps"]
    for i, a in enumerate(args[skip:]):
        t = ps[i + skip]["t"] if i + skip < len(ps) else None
        out.append((a, t))
    return out
@model("fmt::format", "std::format")
def m_format(ex, unit, d, this, args, e):
    return format_text(ex, unit, args[0], fmt_args(ex, unit, d, args))
@model("fmt::print", "std::print")
def m_print(ex, unit, d, this, args, e):
    a0 = ex.rv(args[0])
    if isinstance(a0, Obj):
        os_write(ex, args[0], format_text(ex, unit, args[1], fmt_args(ex, unit, d, args, 2))); return VOID
    raise Unsupported("print")
@model("fmt::format_to")
def m_format_to(ex, unit, d, this, args, e):
    out = ex.rv(args[0])
    if isinstance(out, Special) and out.kind == "back_inserter":
        lv = out.x[0]
        setseq(ex, lv, seqof(ex, lv) + format_text(ex, unit, args[1], fmt_args(ex, unit, d, args, 2)))
        return out
    raise Unsupported("format_to")
@model("fmt::to_string")
def m_ftostring(ex, unit, d, this, args, e): return format_value(ex, unit, args[0], d["ps"][0]["t"], "")
@model("fmt::join")
def m_join(ex, unit, d, this, args, e):
    if len(args) == 3:
        rng = range_of(ex, args[0], args[1]); sep = S(ex, args[2]); et = None
        it = unit.ty(unit.strip(d["ps"][0]["t"]))
    else:
        rng = args[0]; sep = S(ex, args[1])
        ty = unit.ty(unit.strip(d["ps"][0]["t"]))
        et = targ(unit, ty) if not ty.get("n", "").startswith("tree::base::") else None
        if et is None and ty.get("n") in ex.prog.recs:
            u, rec = ex.prog.recs[ty["n"]]
            for b in rec.get("bases", []):
                if u.ty(b).get("n") == "std::vector":
                    et = targ(u, u.ty(b)); unit = u
    return Special("join", (rng, sep, et, unit))

# ---- streams -----------------------------------------------------------------------------------
OS = "std::basic_ostream::"
SS = "std::basic_ostringstream::"
for _n in ("std::basic_ostringstream", "std::basic_stringstream"):
    L.default_types[_n] = lambda ex, unit, ty: new_stream()
def c_ss(ex, unit, d, ty, args, e):
    if not args: return new_stream()
    v = ex.rv(args[0])
    if isinstance(v, Seq): raise Unsupported("stringstream with initial contents")
    return new_stream()
L.ctors["std::basic_ostringstream"] = c_ss
L.ctors["std::basic_stringstream"] = c_ss
L.sym_types["std::basic_ostream"] = lambda ex, unit, ty, name, args: new_stream(ex.sym_string(name + ".buf", args))
L.transparent_bases |= {"std::basic_ostream", "std::basic_ios", "std::ios_base", "std::basic_iostream", "std::basic_ostringstream", "std::basic_stringstream"}
def os_write(ex, os, s, padded=False):
    o = os.get(ex)
    if not isinstance(o, Obj): raise Unsupported("stream %r" % (o,))
    if not ex.branch(eq(o.f["width"], 0)):
        if not (isinstance(o.f["width"], int) and s.concrete() is not None): raise Unsupported("stream width")
        w = o.f["width"]
        s = Seq([U(o.f["fill"])] * max(0, w - len(s.atoms))) + s
        o = o.with_("width", 0)
    os.set(ex, o.with_("buf", o.f["buf"] + s))
    return os
def os_int(ex, os, v, ty):
    o = os.get(ex)
    if ex.branch(bz(o.f["hex"])):
        if not isinstance(o.f["width"], int) or not isinstance(o.f["fill"], int) or not isinstance(o.f["upper"], bool): raise Unsupported("stream state")
        w = o.f["width"] or 0
        if ty.get("sg") : v = ex.wrap(v, ty["w"], False)
        s = hex_fmt(ex, v, w if o.f["fill"] == 48 else 1, "0" if o.f["fill"] == 48 else " ", o.f["upper"])
        if w and o.f["fill"] == 48: os.set(ex, o.with_("width", 0))
        return os_write(ex, os, s)
    return os_write(ex, os, dec_op(ex, v))
def os_put(ex, unit, os, v, t):
    ty = unit.ty(unit.strip(t)) if t is not None else {"k": "?"}
    x = ex.rv(v)
    if isinstance(x, Special) and x.kind == "manip": x.x(ex, os); return os
    if isinstance(x, Special) and x.kind == "join": return NotImplemented
    if isinstance(x, (Seq, CStr)): return os_write(ex, os, S(ex, x))
    if isboolish(x): return os_write(ex, os, Seq([U(simp(If(x, 49, 48)) if isz(x) else 48 + x)]))
    if isintish(x):
        if ty["k"] == "int" and ty.get("w") == 8: return os_write(ex, os, Seq([U(ex.wrap(x, 8, True))]))
        return os_int(ex, os, x, ty)
    if isfp(x): return os_write(ex, os, fp_op(ex, x, "ostream"))
    return NotImplemented
@model(OS + "operator<<")
def m_osint(ex, unit, d, this, args, e):
    x = ex.rv(args[0])
    if isinstance(x, Fn):
        h = MANIP.get(x.d["q"])
        if h: h(ex, this); return this
        raise Unsupported("manipulator " + x.d["q"])
    return os_put(ex, unit, this, args[0], d["ps"][0]["t"])
@model("std::operator<<")
def m_osstr(ex, unit, d, this, args, e):
    if len(args) != 2: return NotImplemented
    return os_put(ex, unit, args[0], args[1], d["ps"][1]["t"])
def _setf(**kw):
    def f(ex, os):
        o = os.get(ex)
        for k, v in kw.items(): o = o.with_(k, v)
        os.set(ex, o)
    return f
MANIP = {"std::hex": _setf(hex=True), "std::dec": _setf(hex=False), "std::uppercase": _setf(upper=True), "std::nouppercase": _setf(upper=False), "std::flush": lambda ex, os: None,
         "std::endl": lambda ex, os: os_write(ex, os, Seq([U(10)])), "std::boolalpha": lambda ex, os: (_ for _ in ()).throw(Unsupported("boolalpha"))}
@model("std::setw")
def m_setw(ex, unit, d, this, args, e): w = ex.rv(args[0]); return Special("manip", _setf(width=w))
@model("std::setfill")
def m_setfill(ex, unit, d, this, args, e): w = ex.rv(args[0]); return Special("manip", _setf(fill=w))
@model(OS + "put")
def m_osput(ex, unit, d, this, args, e):
    o = this.get(ex); this.set(ex, o.with_("buf", o.f["buf"] + Seq([U(ex.rv(args[0]))]))); return this
@model(OS + "write")
def m_oswrite(ex, unit, d, this, args, e):
    v = ex.rv(args[0]); n = ex.rv(args[1])
    s = v.seq if isinstance(v, CStr) else ex.as_seq(v.lv.get(ex))
    o = this.get(ex); this.set(ex, o.with_("buf", o.f["buf"] + ex.seq_slice(s, 0, n))); return this
@model(OS + "flush", OS + "setf", "std::ios_base::setf")
def m_osflush(ex, unit, d, this, args, e):
    if d["q"].endswith("setf"): raise Unsupported("setf")
    return this
@model(SS + "str", "std::basic_stringstream::str")
def m_ssstr(ex, unit, d, this, args, e):
    o = this.get(ex)
    if args:
        s = S(ex, args[0])
        if s.atoms: raise Unsupported("stream with initial contents")
        this.set(ex, o.with_("buf", Seq())); return VOID
    return o.f["buf"]
@model("std::basic_ios::clear")
def m_ssclear(ex, unit, d, this, args, e): return VOID

# ---- text to numbers ---------------------------------------------------------------------------
def num_args(ex, s):
    """name and arguments identifying the text for the number-parsing functions"""
    t = s.text()
    if t is not None: return ("lit", t)
    if len(s.atoms) == 1 and isinstance(s.atoms[0], SL):
        a = s.atoms[0]
        return (a.base.name, list(a.base.args) + [a.lo, a.hi])
    raise Unsupported("number parsed from a composite string")
def strtol_prefix(t):
    m = re.match(r"[ \t\n\v\f\r]*([+-]?\d+)", t)
    return int(m.group(1)) if m else None
def parse_int(ex, s):
    """(has a numeric prefix, mathematical value of that prefix) of strtol(base 10)"""
    k, a = num_args(ex, s)
    if k == "lit":
        v = strtol_prefix(a)
        return (v is not None), (v or 0)
    return ex.uf("strtol.ok:" + k, a, z3.BoolSort()), ex.uf("strtol.val:" + k, a, z3.IntSort())
@model("std::stoi", "std::stol", "std::stoll")
def m_stoi(ex, unit, d, this, args, e):
    s = S(ex, args[0])
    if len(args) > 1 and not (isinstance(ex.rv(args[1]), Ptr) and ex.rv(args[1]).cell is None):
        p = ex.rv(args[1])
        if not (isinstance(p, int) and p == 0): raise Unsupported("stoi position output")
    if len(args) > 2 and cint(ex.rv(args[2])) not in (10, None): raise Unsupported("stoi base")
    ok, v = parse_int(ex, s)
    if not ex.branch(ok): throw_std(ex, "std::invalid_argument", "stoi")
    w = 32 if d["q"] == "std::stoi" else 64
    lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
    if not ex.branch(And(le(lo, v), le(v, hi))): throw_std(ex, "std::out_of_range", "stoi")
    return v
@model("std::stoul", "std::stoull")
def m_stoul(ex, unit, d, this, args, e):
    s = S(ex, args[0])
    if len(args) > 1 and not (isinstance(ex.rv(args[1]), Ptr) and ex.rv(args[1]).cell is None): raise Unsupported("stoul position output")
    ok, v = parse_int(ex, s)
    if not ex.branch(ok): throw_std(ex, "std::invalid_argument", "stoul")
    M = 1 << 64
    if not ex.branch(And(lt(-M, v), lt(v, M))): throw_std(ex, "std::out_of_range", "stoul")
    return simp(If(lt(v, 0), add(v, M), v))

# ---- range-v3 / std::views ---------------------------------------------------------------------
@model("ranges::views::transform_fn::operator()", "ranges::views::transform_base_fn::operator()", "std::ranges::views::_Transform::operator()")
def m_vtransform(ex, unit, d, this, args, e):
    if len(args) == 1: return Special("viewfn", ("transform", ex.rv(args[0])))
    return View("transform", args[0], ex.rv(args[1]))
@model("ranges::views::filter_fn::operator()", "ranges::views::filter_base_fn::operator()", "std::ranges::views::_Filter::operator()")
def m_vfilter(ex, unit, d, this, args, e):
    if len(args) == 1: return Special("viewfn", ("filter", ex.rv(args[0])))
    return View("filter", args[0], ex.rv(args[1]))
@model("ranges::views::enumerate_fn::operator()")
def m_venum(ex, unit, d, this, args, e): return View("enumerate", args[0])
@model("ranges::views::zip_fn::operator()")
def m_vzip(ex, unit, d, this, args, e): return View("zip", (args[0], args[1]) if len(args) == 2 else None)
@model("ranges::views::reverse_fn::operator()")
def m_vrev(ex, unit, d, this, args, e): return View("reverse", args[0])
@model("ranges::_to_::to")
def m_to(ex, unit, d, this, args, e): return Special("viewfn", ("to", None))
@model("ranges::detail::to_container_closure_base_ns::operator|", "ranges::views::view_closure_base_ns::operator|", "ranges::operator|", "std::ranges::views::__adaptor::operator|")
def m_pipe(ex, unit, d, this, args, e):
    f = ex.rv(args[1])
    if isinstance(f, Special) and f.kind == "viewfn":
        k, fn = f.x
        if k == "to": return to_container(ex, unit, d["ret"], args[0], e)
        return View(k, args[0], fn)
    raise Unsupported("view pipe")
def to_container(ex, unit, t, rng, e):
    ty = unit.ty(unit.strip(t))
    isstr = ty.get("n") == "std::basic_string"
    out = ex.temp(Seq(), "to")
    et = targ(unit, ty)
    def body(el):
        v = ex.rv(el)
        if isstr and isintish(v): v = ex.wrap(v, 8, True)
        elif et is not None: v = ex.rv(ex.coerce(v, unit, et))
        out.set(ex, out.get(ex) + Seq([U(v)]))
    ex.iterate(key(e, "to"), ex.lvof(rng), body, catch=False)
    return out.get(ex)
def iterate_view(ex, v, lv, body, k):
    if isinstance(v, View):
        if v.kind == "transform":
            ex.iterate(k + ("t",), ex.lvof(v.src), lambda el: body(ex.lvof(ex.call_closure(v.fn, [el]))), catch=False); return
        if v.kind == "filter":
            def b(el):
                if ex.branch(ex.truth(ex.rv(ex.call_closure(v.fn, [el])))): body(el)
            ex.iterate(k + ("f",), ex.lvof(v.src), b, catch=False); return
        if v.kind == "enumerate":
            idx = ex.temp(0, "enum"); ex.ctypes[idx.cell.key] = (0, MAXLEN)
            def b(el):
                i = idx.get(ex)
                body(ex.temp(Pair(i, el.get(ex))))
                idx.set(ex, add(i, 1))
            ex.iterate(k + ("e",), ex.lvof(v.src), b, catch=False); return
        if v.kind == "zip" and v.src is not None:
            la, lb = ex.lvof(v.src[0]), ex.lvof(v.src[1])
            sa, sb = ex.as_seq(la.get(ex)), ex.as_seq(lb.get(ex))
            na, nb = ex.seq_len(sa), ex.seq_len(sb)
            n = na
            if not ex.valid(eq(na, nb)):
                if not ex.branch(le(na, nb)): n = nb
            idx = ex.temp(0, "zip"); ex.ctypes[idx.cell.key] = (0, MAXLEN)
            def b(el):
                i = idx.get(ex)
                body(ex.temp(Pair(el.get(ex), ElemLV(lb, i).get(ex))))
                idx.set(ex, add(i, 1))
            ex.iterate(k + ("z",), ex.temp(sa if n is na else ex.seq_slice(sa, 0, n)), b, catch=False); return
    if isinstance(v, Special) and v.kind == "map":
        return L.map_iterate(ex, v, lv, body, k)
    raise Unsupported("iteration over %r" % (v,))
L.iterate = lambda ex, v, lv, body, k: iterate_view(ex, v, lv, body, tuple(k) if isinstance(k, tuple) else (k,))
def view_seq(ex, v, k):
    out = ex.temp(Seq(), "view")
    def body(el): out.set(ex, out.get(ex) + Seq([U(ex.rv(el))]))
    ex.iterate(k, ex.temp(v), body, catch=False)
    return out.get(ex)

# ---- smart pointers ----------------------------------------------------------------------------
for _p in ("std::shared_ptr", "std::unique_ptr"):
    def c_sp(ex, unit, d, ty, args, e):
        if not args: return NULL
        v = ex.rv(args[0])
        if isinstance(v, Ptr): return v
        if isinstance(v, Special) and v.kind == "nullptr": return NULL
        return NotImplemented
    L.ctors[_p] = c_sp
def m_spderef(ex, unit, d, this, args, e):
    p = this.get(ex)
    if d["q"].endswith("->"): return p
    return ex.deref(p)
for _n in ("std::__shared_ptr_access::operator*", "std::__shared_ptr_access::operator->", "std::shared_ptr::operator*", "std::shared_ptr::operator->",
           "std::unique_ptr::operator*", "std::unique_ptr::operator->"): L.models[_n] = m_spderef
@model("std::__shared_ptr::get", "std::shared_ptr::get", "std::unique_ptr::get")
def m_spget(ex, unit, d, this, args, e): return this.get(ex)
@model("std::__shared_ptr::operator bool", "std::shared_ptr::operator bool", "std::__shared_ptr::(conv)", "std::unique_ptr::operator bool", "std::unique_ptr::(conv)")
def m_spbool(ex, unit, d, this, args, e): return simp(Not(this.get(ex).null))
@model("std::shared_ptr::operator=", "std::unique_ptr::operator=", "std::function::operator=")
def m_spassign(ex, unit, d, this, args, e):
    v = ex.rv(args[0])
    this.set(ex, v if isinstance(v, (Ptr, Closure, Fn)) else NULL); return this
@model("std::__shared_ptr::reset", "std::shared_ptr::reset", "std::unique_ptr::reset")
def m_spreset(ex, unit, d, this, args, e):
    this.set(ex, ex.rv(args[0]) if args else NULL); return VOID
@model("std::make_shared", "std::make_unique")
def m_mkshared(ex, unit, d, this, args, e):
    t = targ(unit, unit.ty(d["ret"]))
    v = build(ex, unit, t, args)
    return Ptr(ex.newcell(v, "shared"), False, unit.ty(t).get("n"))

# ---- exceptions --------------------------------------------------------------------------------
def c_exc(ex, unit, d, ty, args, e):
    cls = unit.decls[d["cls"]]["q"]
    if not args: return Obj(cls, {"#what": Seq()})
    return Obj(cls, {"#what": S(ex, args[0])})
for _n in STD_EXC: L.ctors[_n] = c_exc
L.ctors["std::exception"] = c_exc
def m_what(ex, unit, d, this, args, e):
    o = this.get(ex)
    if isinstance(o, Obj) and "#what" in o.f: return CStr(o.f["#what"])
    if isinstance(o, Obj):
        for k, v in o.f.items():
            if k.startswith("#std::") and isinstance(v, Obj) and "#what" in v.f: return CStr(v.f["#what"])
    return CStr(ex.sym_string("what!%d" % ex.fresh_id()))
for _n in list(STD_EXC) + ["std::exception"]: L.models[_n + "::what"] = m_what

# ---- floats ------------------------------------------------------------------------------------
def int_to_float(ex, v):
    c = cint(v)
    if c is not None: return z3.FPVal(float(c), z3.Float64())
    f = z3.Function("i2d", z3.IntSort(), z3.Float64())
    return f(iz(v))
L.int_to_float = int_to_float
def float_to_int(ex, v, ty):
    f = z3.Function("d2i", z3.Float64(), z3.IntSort())
    lo, hi = trange(ty)
    g = z3.Function("d2i.in", z3.Float64(), z3.BoolSort())
    ex.oblige(g(v), "arithmetic: float to integer conversion in range")
    return f(v)
L.float_to_int = float_to_int

def fallback(ex, unit, d, this, args, e): return NotImplemented
L.fallback = fallback
L.deref = lambda ex, p: NotImplemented
def map_elem(ex, v, it): raise Unsupported("map iterator")
L.map_elem = map_elem
def dyn(ex, x, ty): raise Unsupported("dynamic_cast")
L.dynamic_cast = dyn
L.init_list["std::array"] = lambda ex, ty, vals: vals[0] if len(vals) == 1 and isinstance(vals[0], Seq) else Seq.of(vals)
L.init_list["std::pair"] = lambda ex, ty, vals: Pair(*vals)

# ---- helpers for specifications ----------------------------------------------------------------
def _new_ostream(ex, prefix=None):
    return ex.temp(new_stream(prefix if prefix is not None else Seq()), "os")
L.new_ostream = _new_ostream
L.ostream_text = lambda ex, os: os.get(ex).f["buf"]
L.dec_seq = dec_op
L.new_stream = new_stream
L.os_write = os_write

@model("std::function::operator()")
def m_fncall(ex, unit, d, this, args, e): return ex.call_closure(this.get(ex) if isinstance(this, LV) else this, args)

# ---- function objects of <functional>, std::function and <cmath> ---------------------------------
FUNCTORS = {"std::plus": "+", "std::minus": "-", "std::multiplies": "*", "std::divides": "/", "std::modulus": "%", "std::bit_and": "&", "std::bit_or": "|", "std::bit_xor": "^",
            "std::equal_to": "==", "std::not_equal_to": "!=", "std::greater": ">", "std::less": "<", "std::greater_equal": ">=", "std::less_equal": "<=",
            "std::logical_and": "&&", "std::logical_or": "||", "std::logical_not": "!u", "std::negate": "-u", "std::bit_not": "~u"}
L.functors |= set(FUNCTORS)
def promoted(unit, a, b):
    """usual arithmetic conversions of two arithmetic types"""
    if a["k"] == "float" or b["k"] == "float": return {"k": "float", "w": 64, "s": "double"}
    r = {"k": "int", "w": 32, "sg": True}
    for t in (a, b):
        if t["k"] == "int" and t.get("w", 32) >= r["w"]: r = t if t.get("w") > r["w"] or not t.get("sg", True) else r
    return r
def functor_apply(ex, unit, name, d, args):
    op = FUNCTORS[name]
    vs = [ex.rv(a) for a in args]
    tys = [unit.ty(unit.strip(p["t"])) for p in d["ps"]]
    if any(t["k"] not in ("int", "float", "bool", "enum") for t in tys):
        if op in ("==", "!="):
            r = ex.veq(*vs)
            return simp(r if op == "==" else Not(r))
        raise Unsupported(name + " on " + tys[0]["s"])
    if op == "!u": return simp(Not(ex.truth(vs[0])))
    if op in ("&&", "||"): return simp((And if op == "&&" else Or)(ex.truth(vs[0]), ex.truth(vs[1])))
    ct = promoted(unit, tys[0], tys[-1])
    xs = [ex.convert(v, t, ct) for v, t in zip(vs, tys)]
    if op == "-u": r = z3.fpNeg(xs[0]) if isfp(xs[0]) else ex.arith("-", 0, xs[0], ct) if ct.get("sg", True) else ex.wrap(sub(0, xs[0]), ct["w"], False)
    elif op == "~u": r = sub(sub(0, xs[0]), 1) if ct.get("sg", True) else sub((1 << ct["w"]) - 1, xs[0])
    else:
        r = ex.binop(op, xs[0], xs[1], ct, ct, ct)
        if op in ("==", "!=", "<", ">", "<=", ">="): return r
    return ex.convert(r, ct, unit.ty(unit.strip(d["ret"])))
def _functor(name):
    @model(name + "::operator()")
    def m(ex, unit, d, this, args, e): return functor_apply(ex, unit, name, d, args)
for _n in FUNCTORS: _functor(_n)
def call_functor(ex, c, args):
    """a function object given to an algorithm: comparisons of elements of one type"""
    op = FUNCTORS[c.x]
    x, y = [ex.rv(a) for a in args]
    if op in ("==", "!="):
        r = ex.veq(x, y)
        return simp(r if op == "==" else Not(r))
    if op in ("<", ">", "<=", ">=") and isintish(x) and isintish(y): return simp({"<": lt(x, y), ">": lt(y, x), "<=": le(x, y), ">=": le(y, x)}[op])
    raise Unsupported("function object %s in an algorithm" % c.x)
L.callables["functor"] = call_functor

@ctor("std::function")
def c_function(ex, unit, d, ty, args, e):
    """holds the callable it is given: which operator() it is follows from the type of the argument"""
    if not args: return NULL
    v = ex.rv(args[0])
    if isinstance(v, (Closure, Fn)) or isinstance(v, Ptr): return v
    if isinstance(v, Special) and v.kind == "callable": return v
    t = unit.ty(unit.strip(e["args"][0]["t"]))
    rec = unit.decls.get(t.get("d")) if t["k"] == "rec" else None
    if rec is None or rec["q"] == "std::function": raise Unsupported("callable of type " + t["s"])
    ops = [unit.decls[m] for m in rec.get("ms", []) if unit.decls.get(m, {}).get("n") == "operator()" and unit.decls[m].get("body") is not None]
    if len(ops) != 1 or rec.get("fs"): raise Unsupported("callable of type " + t["s"])
    return Special("callable", (unit, ops[0], rec["q"]))
def call_callable(ex, c, args):
    unit, d, q = c.x
    return ex.run_function(unit, d, ex.lvof(Obj(q, {})), args)
L.callables["callable"] = call_callable

LIBM = ("exp", "log", "sin", "cos", "tan", "sinh", "cosh", "tanh", "asin", "acos", "atan", "asinh", "acosh", "atanh")
def libm(name, *args):
    """mathematical functions are left uninterpreted: equal functions of equal operands are equal"""
    f = z3.Function("libm." + name, *([z3.Float64()] * (len(args) + 1)))
    return f(*args)
def _libm(name, n):
    def m(ex, unit, d, this, args, e):
        vs = []
        for a, p in zip(args, d["ps"]):
            t = unit.ty(unit.strip(p["t"]))
            if t["k"] != "float" or t.get("w", 64) not in (64, None) or t["s"].split()[-1] in ("float",): return NotImplemented
            vs.append(ex.rv(a))
        if len(vs) != n or not all(isfp(v) for v in vs): return NotImplemented
        return libm(name, *vs)
    for q in ("std::" + name, name): L.models[q] = m
for _n in LIBM: _libm(_n, 1)
_libm("pow", 2)
def m_sqrt(ex, unit, d, this, args, e):
    v = ex.rv(args[0])
    if not isfp(v) or unit.ty(unit.strip(d["ps"][0]["t"]))["s"].split()[-1] == "float": return NotImplemented
    return z3.fpSqrt(z3.RNE(), v)
for _q in ("std::sqrt", "sqrt"): L.models[_q] = m_sqrt

# ---- std::any -----------------------------------------------------------------------------------
def any_type(s):
    s = s.strip()
    return s[6:].strip() if s.startswith("const ") else s
@ctor("std::any")
def c_any(ex, unit, d, ty, args, e):
    if not args: return Special("any", None)
    v = ex.rv(args[0])
    if isinstance(v, Special) and v.kind == "any": return v
    return Special("any", (any_type(unit.ty(unit.strip(d["ps"][0]["t"]))["s"]), ex.copy_in(v)))
L.default_types["std::any"] = lambda ex, unit, ty: Special("any", None)
L.builders["std::any"] = lambda ex, unit, t, args: ex.rv(args[0]) if args else Special("any", None)
@model("std::any_cast")
def m_any_cast(ex, unit, d, this, args, e):
    v = ex.rv(args[0])
    if not (isinstance(v, Special) and v.kind == "any"): raise Unsupported("any_cast of %r" % (v,))
    want = any_type(unit.ty(d["ta"][0]["t"] if isinstance(d["ta"][0], dict) else d["ret"])["s"])
    if v.x is None or v.x[0] != want:
        ex.oblige(False, "any_cast: the value holds the type it is cast to", "%s instead of %s" % (v.x and v.x[0], want))
        throw_std(ex, "std::bad_any_cast")
    return v.x[1]
@model("std::any::has_value")
def m_any_has(ex, unit, d, this, args, e): return this.get(ex).x is not None
