"""Contracts of the associative containers and std::list (trusted).
A map value is Special("map", (base, updates)): base is None (empty) or a MapBase whose presence and
values are uninterpreted functions of the interned key; updates are (key, value) pairs, later ones win
(for multimaps: every pair is an element)."""
import z3
from .vals import *
from .core import *
from .execute import isfp, isintish
from .lib_std import L, model, ctor, throw_std, targ, build, VOID, VEC, S, setseq, seqof, begin, end

MAPS = ("std::map", "std::unordered_map")
MULTI = ("std::multimap", "std::unordered_multimap", "std::multiset", "std::unordered_multiset")
SETS = ("std::set", "std::unordered_set")
ALL = MAPS + MULTI + SETS
ERASED = Special("erased")
EMPTY = Special("map", (None, ()))

def sym_map(ex, unit, ty, name, args):
    n = ty["n"]
    if n in MULTI: raise Unsupported("symbolic multimap")
    if n in SETS: return Special("map", (MapBase(name, args, lambda e, nm, a: VOID), ()))
    vt = targ(unit, ty, 1)
    return Special("map", (MapBase(name, args, lambda e, nm, a: e.sym(unit, vt, nm, a)), ()))
for _n in ALL:
    L.sym_types[_n] = sym_map
    L.default_types[_n] = lambda ex, unit, ty: EMPTY
L.default_types["std::list"] = L.default_types["std::deque"] = lambda ex, unit, ty: Seq()
L.sym_types["std::list"] = L.sym_types["std::deque"] = L.sym_types["std::vector"]

def key_eq(ex, a, b):
    if isinstance(a, (Obj, SymRef, Ptr)) or isinstance(b, (Obj, SymRef, Ptr)): raise Unsupported("map key")
    if isinstance(a, Seq) and isinstance(b, Seq):
        r = ex.seq_eq_cond(a, b)
    else: r = ex.veq(a, b)
    return simp(r)

def key_term(ex, k):
    """Int standing for a key: equal terms iff equal keys"""
    if not isinstance(k, Seq): return iz(k)
    tab = ex.store.get("keytab#0", ())
    for s, t in tab:
        if repr(s) == repr(k): return t
    a = k.atoms
    if len(a) == 1 and isinstance(a[0], SL) and a[0].lo == 0 and str(a[0].hi) == str(a[0].base.length): t = ex.uf("key:" + a[0].base.name, a[0].base.args, z3.IntSort())
    elif k.text() is not None: t = z3.Int("keylit:" + k.text())
    else: t = ex.fresh_int("key")
    for s, u in tab:
        try: q = ex.seq_eq_cond(s, k)
        except Unsupported: continue
        ex.add_fact(simp(bz(q) == (t == u)))
    ex.store["keytab#0"] = tab + ((k, t),)
    return t

def lookup(ex, m, k):
    """(is present (python bool, forks), value)"""
    base, upd = m.x
    for kk, v in reversed(upd):
        if ex.branch(key_eq(ex, kk, k)): return (False, None) if v is ERASED else (True, v)
    if base is None: return False, None
    t = key_term(ex, k)
    if ex.branch(ex.uf(base.name + ".has", list(base.args) + [t], z3.BoolSort())):
        return True, base.fac(ex, base.name + ".val", list(base.args) + [t])
    return False, None

def update(m, k, v):
    base, upd = m.x
    if upd and repr(upd[-1][0]) == repr(k): return Special("map", (base, upd[:-1] + ((k, v),)))
    return Special("map", (base, upd + ((k, v),)))

class MapPairLV(LV):
    """element of a map: the pair (key, value)"""
    __slots__ = ("lv", "key", "idx")
    def __init__(self, lv, key, idx=None): self.lv, self.key, self.idx = lv, key, idx
    def get(self, ex):
        m = self.lv.get(ex)
        if self.idx is not None: return Pair(*m.x[1][self.idx])
        has, v = lookup(ex, m, self.key)
        if not has: raise PathEnd()
        return Pair(self.key, v)
    def set(self, ex, p):
        m = self.lv.get(ex)
        if self.idx is not None:
            u = list(m.x[1]); u[self.idx] = (p.a, p.b)
            self.lv.set(ex, Special("map", (m.x[0], tuple(u))))
        else: self.lv.set(ex, update(m, self.key, p.b))

def names(*ms): return [c + "::" + m for c in ALL for m in ms]
def owner(d): return next(c for c in sorted(ALL, key=len, reverse=True) if d["q"].startswith(c + "::"))
def mapv(ex, this):
    m = this.get(ex)
    if not (isinstance(m, Special) and m.kind == "map"): raise Unsupported("map value %r" % (m,))
    return m
def keyarg(ex, a):
    k = ex.rv(a)
    if isinstance(k, CStr): k = S(ex, k)
    return k
END = None
def it_end(lv): return Special("mapit", (lv, None, None))

def entries(ex, m, ordered):
    """concrete list of (index, key, value) in iteration order"""
    base, upd = m.x
    if base is not None: raise Unsupported("iteration over a symbolic map")
    if any(v is ERASED for _, v in upd): raise Unsupported("iteration over a map with erased keys")
    es = [(i, k, v) for i, (k, v) in enumerate(upd)]
    if ordered:
        if any(not isinstance(k, Seq) or k.text() is None for _, k, _ in es):
            if len(es) > 1: raise Unsupported("iteration over an ordered map with symbolic keys")
        else: es.sort(key=lambda x: [a.v & 255 for a in x[1].atoms])
    return es

@model(*names("find"))
def m_find(ex, unit, d, this, args, e):
    m, k = mapv(ex, this), keyarg(ex, args[0])
    own = owner(d)
    if own in MULTI:
        if m.x[0] is not None: raise Unsupported("find in a symbolic multimap")
        groups = {}
        for i, (kk, v) in enumerate(m.x[1]): groups.setdefault(repr(kk), (kk, []))[1].append(i)
        for kk, ix in groups.values():
            if ex.branch(key_eq(ex, kk, k)):
                i = ix[ex.choose(len(ix), "multimap element")]     # any element with that key
                return Special("mapit", (this, kk, i))
        return it_end(this)
    has, v = lookup(ex, m, k)
    return Special("mapit", (this, k, None)) if has else it_end(this)
@model(*names("contains", "count"))
def m_contains(ex, unit, d, this, args, e):
    m, k = mapv(ex, this), keyarg(ex, args[0])
    base, upd = m.x
    cnt = d["q"].endswith("count")
    if owner(d) in MULTI:
        if base is not None or cnt: raise Unsupported("count in a multimap")
        return simp(Or(*[key_eq(ex, kk, k) for kk, v in upd]))
    if not cnt and all(v is not ERASED for _, v in upd):
        ds = {repr(kk): kk for kk, v in upd}
        r = [key_eq(ex, kk, k) for kk in ds.values()]
        if base is not None: r.append(ex.uf(base.name + ".has", list(base.args) + [key_term(ex, k)], z3.BoolSort()))
        return simp(Or(*r))
    has, v = lookup(ex, m, k)
    return (1 if has else 0) if cnt else has
@model(*names("end", "cend"))
def m_mend(ex, unit, d, this, args, e): return it_end(this)
@model(*names("equal_range"))
def m_eqr(ex, unit, d, this, args, e):
    m, k = mapv(ex, this), keyarg(ex, args[0])
    if m.x[0] is not None: raise Unsupported("equal_range of a symbolic map")
    for kk in {repr(kk): kk for kk, v in m.x[1]}.values():
        if ex.branch(key_eq(ex, kk, k)):
            t = ex.temp(Seq.of([Pair(a, v) for a, v in m.x[1] if repr(a) == repr(kk)]), "range")
            return Pair(Iter(t, 0), Iter(t, ex.seq_len(t.get(ex))))
    t = ex.temp(Seq(), "range")
    return Pair(Iter(t, 0), Iter(t, 0))
@model(*names("at"))
def m_mat(ex, unit, d, this, args, e):
    k = keyarg(ex, args[0])
    has, v = lookup(ex, mapv(ex, this), k)
    if not has: throw_std(ex, "std::out_of_range")
    return PairLV(MapPairLV(this, k), "b")
@model(*names("operator[]"))
def m_midx(ex, unit, d, this, args, e):
    m, k = mapv(ex, this), keyarg(ex, args[0])
    has, v = lookup(ex, m, k)
    if not has: this.set(ex, update(m, k, ex.default_value(unit, unit.strip(d["ret"]))))
    return PairLV(MapPairLV(this, k), "b")
@model(*names("insert", "emplace", "try_emplace", "insert_or_assign"))
def m_insert(ex, unit, d, this, args, e):
    own, m = owner(d), mapv(ex, this)
    op = d["q"].split("::")[-1]
    if len(args) == 1:
        p = ex.rv(args[0])
        if isinstance(p, Seq) and own not in SETS and p.concrete() is not None and all(isinstance(a.v, Pair) for a in p.atoms):
            ps = [a.v for a in p.atoms]
        elif own in SETS or own in MULTI and not isinstance(p, Pair): ps = [Pair(keyarg(ex, p), VOID)]
        elif isinstance(p, Pair): ps = [p]
        else: raise Unsupported("map insert")
    elif len(args) == 2:
        a = [ex.rv(x) for x in args]
        if isinstance(a[0], (Iter,)) or isinstance(a[0], Special): raise Unsupported("map insert of a range")
        ps = [Pair(keyarg(ex, a[0]), a[1])]
    elif len(args) == 0: ps = [Pair(Seq(), VOID)]
    else: raise Unsupported("map insert")
    res = None
    for p in ps:
        k, v = keyarg(ex, p.a), ex.copy_in(p.b)
        if own in MULTI:
            this.set(ex, Special("map", (m.x[0], m.x[1] + ((k, v),)))); res = Special("mapit", (this, k, len(m.x[1])))
        else:
            has, old = lookup(ex, m, k)
            if not has or op == "insert_or_assign": this.set(ex, update(m, k, v))
            res = Pair(Special("mapit", (this, k, None)), not has)
        m = mapv(ex, this)
    return res
@model(*names("erase"))
def m_erase(ex, unit, d, this, args, e):
    own, m = owner(d), mapv(ex, this)
    if own in MULTI: raise Unsupported("erase from a multimap")
    k = keyarg(ex, args[0])
    if isinstance(k, Special) and k.kind == "mapit":
        this.set(ex, update(m, k.x[1], ERASED)); return VOID
    has, v = lookup(ex, m, k)
    if has: this.set(ex, update(m, k, ERASED))
    return 1 if has else 0
@model(*names("clear"))
def m_clear(ex, unit, d, this, args, e): this.set(ex, EMPTY); return VOID
@model(*names("operator="))
def m_massign(ex, unit, d, this, args, e):
    v = ex.rv(args[0])
    this.set(ex, from_list(ex, owner(d), v) if isinstance(v, Seq) else v)
    return this
@model(*names("empty"))
def m_mempty(ex, unit, d, this, args, e):
    base, upd = mapv(ex, this).x
    if base is None: return not upd if all(v is not ERASED for _, v in upd) else NotImplemented
    if upd and upd[-1][1] is not ERASED: return False
    raise Unsupported("emptiness of a symbolic map")
@model(*names("size"))
def m_msize(ex, unit, d, this, args, e):
    m = mapv(ex, this)
    return len(entries(ex, m, False))
def from_list(ex, own, s, m=EMPTY):
    if s.concrete() is None: raise Unsupported("map from a symbolic list")
    lv = ex.temp(m, "map")
    for a in s.atoms:
        if own in MULTI and isinstance(a.v, Pair): lv.set(ex, Special("map", (None, lv.get(ex).x[1] + ((keyarg(ex, a.v.a), a.v.b),))))
        else:
            k, v = (keyarg(ex, a.v.a), a.v.b) if isinstance(a.v, Pair) else (keyarg(ex, a.v), VOID)
            has, _ = lookup(ex, lv.get(ex), k)
            if not has: lv.set(ex, Special("map", (None, lv.get(ex).x[1] + ((k, v),))))
    return lv.get(ex)
@ctor(*ALL)
def c_map(ex, unit, d, ty, args, e):
    vs = [ex.rv(a) for a in args]
    vs = [v for v, p in zip(vs, d["ps"]) if unit.ty(unit.strip(p["t"])).get("n", "") not in ("std::allocator", "std::less", "std::hash", "std::equal_to")]
    if not vs: return EMPTY
    if isinstance(vs[0], Special) and vs[0].kind == "map": return vs[0]
    if isinstance(vs[0], Seq): return from_list(ex, ty["n"], vs[0])
    raise Unsupported("map constructor")
@ctor("std::less", "std::hash", "std::equal_to", "std::greater")
def c_fnobj(ex, unit, d, ty, args, e): return Special("functor", ty["n"])

MI = ["std::_Rb_tree_const_iterator::", "std::_Rb_tree_iterator::", "std::__detail::_Node_iterator::", "std::__detail::_Node_const_iterator::", "std::__detail::_Node_iterator_base::"]
@model(*[c + m for c in MI for m in ("operator*", "operator->")])
def m_mderef(ex, unit, d, this, args, e):
    it = this.get(ex) if isinstance(this, LV) else this
    if isinstance(it, Iter): lv = ex.iter_elem(it)
    else:
        ex.oblige(it.x[1] is not None, "memory-safety: no dereference of an end iterator")
        if it.x[1] is None: raise PathEnd()
        lv = MapPairLV(it.x[0], it.x[1], it.x[2])
        if it.x[0].get(ex).x[0] is None and isinstance(lv.get(ex).b, Special) and lv.get(ex).b is VOID: lv = ConstLV(it.x[1])
    return Special("lvptr", lv) if d["q"].endswith("->") else lv
@model(*[c + "operator++" for c in MI])
def m_minc(ex, unit, d, this, args, e):
    it = this.get(ex)
    if not isinstance(it, Iter): raise Unsupported("increment of a map iterator")
    this.set(ex, Iter(it.lv, add(it.idx, 1), it.rev))
    return it if args else this
@ctor(*[c[:-2] for c in MI])
def c_mit(ex, unit, d, ty, args, e): return ex.rv(args[0]) if args else Special("mapit", (None, None, None))

def it_eq(ex, a, b):
    if isinstance(a, Iter) and isinstance(b, Iter): return eq(a.idx, b.idx)
    if (a.x[1] is None) != (b.x[1] is None): return False
    if a.x[1] is None: return True
    return And(key_eq(ex, a.x[1], b.x[1]), a.x[2] == b.x[2])
_old_streq = L.models["std::operator=="]
@model("std::operator==", "std::operator!=", "std::__detail::operator==", "std::__detail::operator!=", *[c + o for c in MI for o in ("operator==", "operator!=")])
def m_iteq(ex, unit, d, this, args, e):
    ops = ([this] if this is not None else []) + list(args)
    vs = [ex.rv(x) for x in ops]
    if all(isinstance(v, Special) and v.kind == "mapit" for v in vs) or all(isinstance(v, Iter) for v in vs):
        r = it_eq(ex, *vs)
        return simp(Not(r)) if d["q"].endswith("!=") else simp(r)
    if d["q"] in ("std::operator==", "std::operator!="): return _old_streq(ex, unit, d, this, args, e)
    return NotImplemented

_old_iterate = L.iterate
def iterate(ex, v, lv, body, k):
    if isinstance(v, Special) and v.kind == "map":
        m = v
        for i, kk, x in entries(ex, m, True):
            # iteration order: by key for ordered containers; unordered containers are iterated in the same
            # order (assumption: results do not depend on the order of an unordered container)
            el = ConstLV(kk) if x is VOID else ConstLV(Pair(kk, x))
            try: body(el)
            except Exception as c:
                from .execute import ContinueX
                if not isinstance(c, ContinueX): raise
        return None
    return _old_iterate(ex, v, lv, body, k)
L.iterate = iterate

# ---- std::list / deque: sequences ----------------------------------------------------------------
for _c in ("std::list::", "std::deque::", "std::__cxx11::list::"):
    for _m, _f in list(L.models.items()):
        if _m.startswith("std::vector::"): L.models.setdefault(_c + _m[13:], _f)
LST = ("std::list::", "std::deque::")
@model(*[c + "push_front" for c in LST])
def m_pushf(ex, unit, d, this, args, e):
    setseq(ex, this, Seq([U(ex.copy_in(ex.rv(args[0])))]) + seqof(ex, this)); return VOID
@model(*[c + "emplace_front" for c in LST])
def m_emplf(ex, unit, d, this, args, e):
    v = build(ex, unit, unit.strip(d["ret"]), args)
    setseq(ex, this, Seq([U(v)]) + seqof(ex, this))
    return ElemLV(this, 0)
@model(*[c + "pop_front" for c in LST])
def m_popf(ex, unit, d, this, args, e):
    s = seqof(ex, this); n = ex.seq_len(s)
    ex.oblige(lt(0, n), "memory-safety: pop of non-empty container")
    setseq(ex, this, ex.seq_slice(s, 1, n)); return VOID
if "std::vector" in L.ctors: L.ctors["std::list"] = L.ctors["std::deque"] = L.ctors["std::vector"]
LI = ["std::_List_iterator::", "std::_List_const_iterator::", "std::_Deque_iterator::"]
NI = "__gnu_cxx::__normal_iterator::"
for _c in LI:
    for _m, _f in list(L.models.items()):
        if _m.startswith(NI): L.models.setdefault(_c + _m[len(NI):], _f)
    L.ctors[_c[:-2]] = L.ctors["__gnu_cxx::__normal_iterator"]
@model(*[c + o for c in LI for o in ("operator==", "operator!=")])
def m_lieq(ex, unit, d, this, args, e):
    r = eq(ex.rv(this).idx if not isinstance(this, Iter) else this.idx, ex.rv(args[0]).idx)
    return simp(Not(r)) if d["q"].endswith("!=") else r
