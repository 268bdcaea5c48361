"""Values of the symbolic executor.  All values are immutable; only store cells change."""
import z3, itertools

class Unsupported(Exception):
    """construct outside the verifier's reach: never a violation, the check falls back to its bounded stand-in"""

_n = itertools.count()

def isz(x):
    return isinstance(x, z3.ExprRef)

def iz(x):
    """to z3 Int"""
    if isinstance(x, bool):
        return z3.IntVal(1 if x else 0)
    if isinstance(x, int):
        return z3.IntVal(x)
    return x

def bz(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    return x

def cint(x):
    """python int if x is a constant, else None"""
    if isinstance(x, bool):
        return None
    if isinstance(x, int):
        return x
    if isz(x) and z3.is_int_value(x):
        return x.as_long()
    return None

def simp(x):
    if not isz(x):
        return x
    y = z3.simplify(x)
    if z3.is_int_value(y):
        return y.as_long()
    if z3.is_true(y):
        return True
    if z3.is_false(y):
        return False
    return y

def add(a, b):
    if isinstance(a, int) and isinstance(b, int): return a + b
    return simp(iz(a) + iz(b))
def sub(a, b):
    if isinstance(a, int) and isinstance(b, int): return a - b
    return simp(iz(a) - iz(b))
def mul(a, b):
    if isinstance(a, int) and isinstance(b, int): return a * b
    return simp(iz(a) * iz(b))
def eq(a, b):
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)): return a == b
    return simp(iz(a) == iz(b))
def lt(a, b):
    if isinstance(a, int) and isinstance(b, int): return a < b
    return simp(iz(a) < iz(b))
def le(a, b):
    if isinstance(a, int) and isinstance(b, int): return a <= b
    return simp(iz(a) <= iz(b))
def And(*xs):
    ys = []
    for x in xs:
        if x is True: continue
        if x is False: return False
        ys.append(x)
    if not ys: return True
    if len(ys) == 1: return ys[0]
    return z3.And(*ys)
def Or(*xs):
    ys = []
    for x in xs:
        if x is False: continue
        if x is True: return True
        ys.append(x)
    if not ys: return False
    if len(ys) == 1: return ys[0]
    return z3.Or(*ys)
def Not(x):
    if isinstance(x, bool): return not x
    return z3.Not(x)
def Implies(a, b):
    return Or(Not(a), b)
def isboolish(x):
    return isinstance(x, bool) or (isz(x) and z3.is_bool(x))
def If(c, a, b):
    if c is True: return a
    if c is False: return b
    if isboolish(a) or isboolish(b):
        return z3.If(c, bz(a), bz(b))
    return z3.If(c, iz(a), iz(b))

# ---- sequences ---------------------------------------------------------------------------------
class Base:
    """A symbolic base sequence: identified by name and Int arguments; length and elements are
    uninterpreted functions of them.  elem(ctx, idx) builds the element value."""
    def __init__(self, name, args, length, elem, etype=None):
        self.name, self.args, self.length, self.elem, self.etype = name, tuple(args), length, elem, etype
    def key(self):
        return (self.name,) + tuple(str(a) for a in self.args)
    def __repr__(self):
        return self.name + ("[" + ",".join(map(str, self.args)) + "]" if self.args else "")

class U:      # unit
    __slots__ = ("v",)
    def __init__(self, v): self.v = v
    def __repr__(self): return "<%s>" % (chr(self.v) if isinstance(self.v, int) and not isinstance(self.v, bool) and 32 <= self.v < 127 else self.v,)
class SL:     # slice of a symbolic base
    __slots__ = ("base", "lo", "hi")
    def __init__(self, base, lo, hi): self.base, self.lo, self.hi = base, lo, hi
    def __repr__(self): return "%r[%s:%s]" % (self.base, self.lo, self.hi)
class FO:     # fold: concatenation for kv in [lo,hi) of the piece whose case condition holds
    __slots__ = ("kv", "cases", "lo", "hi", "rev")
    def __init__(self, kv, cases, lo, hi, rev=False): self.kv, self.cases, self.lo, self.hi, self.rev = kv, cases, lo, hi, rev
    def __repr__(self): return "FOLD%s(%s in [%s,%s): %s)" % ("R" if self.rev else "", self.kv, self.lo, self.hi, self.cases)
class OP:     # opaque sequence valued function application
    __slots__ = ("name", "args", "length", "facts")
    def __init__(self, name, args, length): self.name, self.args, self.length = name, tuple(args), length
    def __repr__(self): return "%s(%s)" % (self.name, ",".join(map(str, self.args)))

class Seq:
    __slots__ = ("atoms",)
    def __init__(self, atoms=()): self.atoms = tuple(atoms)
    def __add__(self, o): return Seq(norm(self.atoms + o.atoms))
    def __repr__(self): return "Seq" + repr(list(self.atoms))
    def concrete(self):
        """python list if made only of units"""
        if all(isinstance(a, U) for a in self.atoms): return [a.v for a in self.atoms]
        return None
    def text(self):
        c = self.concrete()
        if c is None or not all(isinstance(x, int) for x in c): return None
        return bytes(x & 255 for x in c).decode("latin-1")
    @staticmethod
    def lit(s):
        if isinstance(s, str): s = s.encode("latin-1")
        return Seq([U(b - 256 if b > 127 else b) for b in s])
    @staticmethod
    def of(vs): return Seq([U(v) for v in vs])

def norm(atoms):
    out = []
    for a in atoms:
        if isinstance(a, SL):
            if a.lo is a.hi or (isinstance(a.lo, int) and isinstance(a.hi, int) and a.lo == a.hi) or str(a.lo) == str(a.hi):
                continue
            if out and isinstance(out[-1], SL) and out[-1].base.key() == a.base.key() and str(out[-1].hi) == str(a.lo):
                out[-1] = SL(a.base, out[-1].lo, a.hi)
                continue
        out.append(a)
    return tuple(out)

# ---- other values ------------------------------------------------------------------------------
class Obj:
    __slots__ = ("cls", "f")
    def __init__(self, cls, f): self.cls, self.f = cls, f
    def with_(self, k, v):
        g = dict(self.f); g[k] = v
        return Obj(self.cls, g)
    def __repr__(self): return "%s%s" % (self.cls.split("::")[-1], self.f)
class SymRef:
    """symbolic record value; fields are produced on demand as functions of (name, args)"""
    __slots__ = ("cls", "name", "args")
    def __init__(self, cls, name, args=()): self.cls, self.name, self.args = cls, name, tuple(args)
    def __repr__(self): return "%s:%s%s" % (self.cls.split("::")[-1], self.name, list(self.args) if self.args else "")
class Opt:
    __slots__ = ("has", "v")
    def __init__(self, has, v=None): self.has, self.v = has, v
    def __repr__(self): return "Opt(%s,%s)" % (self.has, self.v)
class Pair:
    __slots__ = ("a", "b")
    def __init__(self, a, b): self.a, self.b = a, b
    def __repr__(self): return "Pair(%s,%s)" % (self.a, self.b)
class Ptr:
    """pointer to a cell; null is a Bool (python or z3)"""
    __slots__ = ("cell", "null", "cls")
    def __init__(self, cell, null=False, cls=None): self.cell, self.null, self.cls = cell, null, cls
    def __repr__(self): return "Ptr(%s%s)" % (self.cell, ",null=%s" % self.null if self.null is not False else "")
NULL = Ptr(None, True)
class CStr:
    __slots__ = ("seq", "clean")
    def __init__(self, seq, clean=False): self.seq, self.clean = seq, clean     # clean: known to hold no NUL
    def __repr__(self): return "CStr(%r)" % (self.seq,)
class Closure:
    __slots__ = ("cls", "unit", "env", "this", "frame")
    def __init__(self, cls, unit, env, this): self.cls, self.unit, self.env, self.this = cls, unit, env, this
class Iter:
    """iterator / pointer into a sequence held by an lvalue"""
    __slots__ = ("lv", "idx", "rev")
    def __init__(self, lv, idx, rev=False): self.lv, self.idx, self.rev = lv, idx, rev
    def __repr__(self): return "Iter(%s,%s)" % (self.idx, "rev" if self.rev else "fwd")
class View:
    """lazily transformed range"""
    __slots__ = ("src", "fn", "kind")
    def __init__(self, kind, src, fn=None): self.kind, self.src, self.fn = kind, src, fn
class Fn:
    """function pointer / reference"""
    __slots__ = ("unit", "d")
    def __init__(self, unit, d): self.unit, self.d = unit, d
class Special:
    """value handled by library models: kind + payload"""
    __slots__ = ("kind", "x")
    def __init__(self, kind, x=None): self.kind, self.x = kind, x
    def __repr__(self): return "Special(%s,%s)" % (self.kind, self.x)
VOID = Special("void")
class MapBase:
    """symbolic map contents: presence and value per key are uninterpreted functions of (args, interned key)"""
    __slots__ = ("name", "args", "fac")
    def __init__(self, name, args, fac): self.name, self.args, self.fac = name, tuple(args), fac
    def __repr__(self): return "%s%s" % (self.name, list(self.args))

# ---- substitution ------------------------------------------------------------------------------
def subst(v, pairs):
    if isz(v):
        return simp(z3.substitute(v, *pairs))
    if isinstance(v, (int, bool, float, str)) or v is None:
        return v
    if isinstance(v, Seq):
        out = []
        for a in v.atoms:
            if isinstance(a, U): out.append(U(subst(a.v, pairs)))
            elif isinstance(a, SL): out.append(SL(subst_base(a.base, pairs), subst(a.lo, pairs), subst(a.hi, pairs)))
            elif isinstance(a, FO): out.append(FO(a.kv, [(subst(c, pairs), subst(s, pairs)) for c, s in a.cases], subst(a.lo, pairs), subst(a.hi, pairs), a.rev))
            else: out.append(OP(a.name, [subst(x, pairs) for x in a.args], subst(a.length, pairs)))
        return Seq(norm(out))
    if isinstance(v, Obj): return Obj(v.cls, {k: subst(x, pairs) for k, x in v.f.items()})
    if isinstance(v, SymRef): return SymRef(v.cls, v.name, [subst(x, pairs) for x in v.args])
    if isinstance(v, Opt): return Opt(subst(v.has, pairs), subst(v.v, pairs))
    if isinstance(v, Pair): return Pair(subst(v.a, pairs), subst(v.b, pairs))
    if isinstance(v, CStr): return CStr(subst(v.seq, pairs))
    if isinstance(v, Iter): return Iter(v.lv, subst(v.idx, pairs), v.rev)
    if isinstance(v, Ptr):
        if v.cell is None: return Ptr(None, subst(v.null, pairs), v.cls)
        return Ptr(v.cell.subst(pairs), subst(v.null, pairs), v.cls)
    if isinstance(v, Special) and isinstance(v.x, (tuple, list)): return Special(v.kind, subst(v.x, pairs))
    if isinstance(v, MapBase): return MapBase(v.name, [subst(a, pairs) for a in v.args], v.fac)
    if isinstance(v, tuple): return tuple(subst(x, pairs) for x in v)
    if isinstance(v, list): return [subst(x, pairs) for x in v]
    return v

def subst_base(b, pairs):
    if not b.args: return b
    args = [subst(a, pairs) for a in b.args]
    if [str(a) for a in args] == [str(a) for a in b.args]: return b
    return b.rebase(args) if hasattr(b, "rebase") else b

def occurs(v, names):
    """does any of the z3 constant/function names occur in value v"""
    found = []
    def walk(t, seen):
        if t.get_id() in seen: return
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.decl().name() in names: found.append(1)
            for c in t.children(): walk(c, seen)
        elif z3.is_quantifier(t): walk(t.body(), seen)
    def go(v):
        if found: return
        if isz(v): walk(v, set())
        elif isinstance(v, Seq):
            for a in v.atoms:
                if isinstance(a, U): go(a.v)
                elif isinstance(a, SL):
                    go(a.lo); go(a.hi)
                    for x in a.base.args: go(x)
                    if a.base.name in names: found.append(1)
                elif isinstance(a, FO):
                    go(a.lo); go(a.hi)
                    for c, s in a.cases: go(c); go(s)
                else:
                    for x in a.args: go(x)
                    if a.name in names: found.append(1)
        elif isinstance(v, Obj):
            for x in v.f.values(): go(x)
        elif isinstance(v, SymRef):
            for x in v.args: go(x)
            if v.name in names: found.append(1)
        elif isinstance(v, Opt): go(v.has); go(v.v)
        elif isinstance(v, Pair): go(v.a); go(v.b)
        elif isinstance(v, CStr): go(v.seq)
        elif isinstance(v, Iter): go(v.idx)
        elif isinstance(v, Ptr):
            go(v.null)
            if v.cell is not None:
                for x in getattr(v.cell, "args", ()): go(x)
                if hasattr(v.cell, "v"): go(v.cell.v)
        elif isinstance(v, Special): go(v.x)
        elif isinstance(v, MapBase):
            for x in v.args: go(x)
        elif isinstance(v, (tuple, list)):
            for x in v: go(x)
    go(v)
    return bool(found)
