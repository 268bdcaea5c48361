"""Path-forking symbolic executor over the exported typed AST of /repo, with contracts, loop
summaries (closed forms derived from the code and justified by induction on the iteration count)
and proof obligations."""
import z3, sys, time, itertools, os
from .vals import *
from .unit import Program, Unit, ExtractError

class PathEnd(Exception): pass
class NoFork(Exception): pass
class ReturnX(Exception):
    def __init__(self, v): self.v = v
class BreakX(Exception): pass
class ContinueX(Exception): pass
class CxxThrow(Exception):
    def __init__(self, v, cls): self.v, self.cls = v, cls
class Abort(Exception):
    """std::terminate / assert failure / exit"""

class Cell:
    __slots__ = ("key", "name", "args", "cls")
    def __init__(self, name, args=(), cls=None):
        self.name, self.args, self.cls = name, tuple(args), cls
        self.key = name if not args else name + "(" + ",".join(str(a) for a in args) + ")"
    def subst(self, pairs):
        if not self.args: return self
        return Cell(self.name, [subst(a, pairs) for a in self.args], self.cls)
    def __repr__(self): return "@" + self.key

class VCell:
    """immutable heap object created in a loop iteration: a snapshot of its contents, parametric in the iteration"""
    __slots__ = ("v", "key", "cls", "name", "args")
    def __init__(self, v, key):
        self.v, self.key, self.cls = v, key, getattr(v, "cls", None)
        self.name, self.args = key, ()
    def subst(self, pairs): return VCell(subst(self.v, pairs), self.key)
    def __repr__(self): return "&%r" % (self.v,)

class LV: pass
class CellLV(LV):
    __slots__ = ("cell",)
    def __init__(self, cell): self.cell = cell
    def get(self, ex): return ex.load(self.cell)
    def set(self, ex, v): ex.store_(self.cell, v)
    def __repr__(self): return "LV" + repr(self.cell)
class FieldLV(LV):
    __slots__ = ("b", "n", "t", "unit")
    def __init__(self, b, n, t=None, unit=None): self.b, self.n, self.t, self.unit = b, n, t, unit
    def get(self, ex):
        o = self.b.get(ex)
        return ex.field(o, self.n, self.t, self.unit)
    def set(self, ex, v):
        o = self.b.get(ex)
        if isinstance(o, SymRef): o = ex.materialize(o)
        self.b.set(ex, o.with_(self.n, v))
    def __repr__(self): return "%r.%s" % (self.b, self.n)
class ElemLV(LV):
    __slots__ = ("b", "i")
    def __init__(self, b, i): self.b, self.i = b, i
    def get(self, ex): return ex.seq_at(ex.as_seq(self.b.get(ex)), self.i)
    def set(self, ex, v):
        s = ex.as_seq(self.b.get(ex))
        self.b.set(ex, ex.seq_set(s, self.i, v))
    def __repr__(self): return "%r[%s]" % (self.b, self.i)
class OptLV(LV):
    __slots__ = ("b",)
    def __init__(self, b): self.b = b
    def get(self, ex): return self.b.get(ex).v
    def set(self, ex, v): self.b.set(ex, Opt(self.b.get(ex).has, v))
class PairLV(LV):
    __slots__ = ("b", "w")
    def __init__(self, b, w): self.b, self.w = b, w
    def get(self, ex):
        p = self.b.get(ex)
        return getattr(p, self.w)
    def set(self, ex, v):
        p = self.b.get(ex)
        self.b.set(ex, Pair(v, p.b) if self.w == "a" else Pair(p.a, v))
class ConstLV(LV):
    __slots__ = ("v",)
    def __init__(self, v): self.v = v
    def get(self, ex): return self.v
    def set(self, ex, v): raise Unsupported("write through a read-only value")

class Frame:
    def __init__(self, unit, env, this, fname):
        self.unit, self.env, self.this, self.fname = unit, env, this, fname

def trange(ty):
    if ty["k"] == "bool": return (0, 1)
    if ty["k"] in ("int", "enum"):
        w, s = ty.get("w", 32), ty.get("sg", True)
        return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
    return None

MAXLEN = 1 << 62   # no container or string is longer (std::allocator max_size is below 2^63)

class Report:
    def __init__(self):
        self.oblig = {}     # label -> [proved, failed, unknown, total]
        self.failures = []  # dicts
        self.inlined, self.models, self.contracts_used, self.lossy, self.unsupported = set(), set(), set(), set(), []
        self.paths = 0
        self.solver_s = 0.0
        self.queries = 0
        self.assumed = set()
        self.reached = set()

class Exec:
    def __init__(self, prog, lib, contracts=None, report=None, timeout=4000):
        self.prog, self.lib = prog, lib
        self.contracts = contracts or {}
        self.rep = report or Report()
        self.timeout = timeout
        self.ov = {}
        self.globals_cache = {}
        self.quiet = 0
        self.memo = {}
        self.ranges = {}
        self.axterms = {}
        self.ctypes = {}
        self.xid = 0
        self.nofork = 0
        self.cond_models = {}
        self.depth = 0
        self.reset()

    # ---- path state ----------------------------------------------------------------------------
    def reset(self):
        self.store = {}
        self.facts = []
        self.solver = z3.Solver()
        self.solver.set("timeout", self.timeout)
        self.counter = 0
        self.dec, self.pos = [], 0
        self.ghosts = []
        self.frames = []
        self.axkeys = set()
        self.lossy = False
        self.ctxkey = ()
        self.loopstack = []

    def fresh_id(self):
        self.counter += 1
        return self.counter

    def newcell(self, v, hint="c"):
        c = Cell("%s#%d" % (hint, self.fresh_id()))
        self.store[c.key] = v
        return c

    def temp(self, v, hint="t"):
        return CellLV(self.newcell(v, hint))

    def load(self, cell):
        if cell is None: raise Unsupported("load of null")
        if isinstance(cell, VCell): return cell.v
        if isinstance(cell, LV): return cell.get(self)
        if cell.key in self.store: return self.store[cell.key]
        if cell.cls is not None:
            return SymRef(cell.cls, cell.name, cell.args)
        raise Unsupported("read of uninitialised storage " + cell.key)

    def store_(self, cell, v):
        if isinstance(cell, VCell): raise Unsupported("write to an object created in an earlier loop iteration")
        if cell.args and any(cint(a) is None for a in cell.args):
            # a write through a symbolically indexed node: other nodes of that family must not be read inconsistently
            self.note_lossy("write to symbolically indexed object " + cell.key)
        self.store[cell.key] = v

    def add_fact(self, f):
        f = simp(f)
        if f is True: return
        f = bz(f)
        for a in self.range_axioms(f):
            self.facts.append(a); self.solver.add(a)
            self.axterms[a.get_id()] = a
        self.facts.append(f)
        self.solver.add(f)

    def range_axioms(self, f):
        """type-range facts for the uninterpreted applications occurring in f"""
        out = []
        seen = set()
        st = [f]
        while st:
            t = st.pop()
            i = t.get_id()
            if i in seen: continue
            seen.add(i)
            if z3.is_quantifier(t):
                self.quant_ranges(t.body(), out)
                continue
            if z3.is_app(t):
                st.extend(t.children())
                if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.sort_kind() == z3.Z3_INT_SORT:
                    r = self.ranges.get(t.decl().name())
                    if r is not None:
                        k = ("rng", str(t))
                        if k not in self.axkeys:
                            self.axkeys.add(k)
                            out.append(z3.And(t >= r[0], t <= r[1]))
        return out

    def quant_ranges(self, body, out):
        seen, st = set(), [body]
        while st:
            t = st.pop()
            if t.get_id() in seen: continue
            seen.add(t.get_id())
            if z3.is_quantifier(t): st.append(t.body()); continue
            if z3.is_app(t):
                st.extend(t.children())
                d = t.decl()
                if d.kind() == z3.Z3_OP_UNINTERPRETED and d.arity() and t.sort_kind() == z3.Z3_INT_SORT:
                    r = self.ranges.get(d.name())
                    k = ("rngq", d.name())
                    if r is not None and k not in self.axkeys:
                        self.axkeys.add(k)
                        vs = [z3.Int("q!%d" % i) for i in range(d.arity())]
                        app = d(*vs)
                        out.append(z3.ForAll(vs, z3.And(app >= r[0], app <= r[1]), patterns=[app]))

    def check(self, *extra):
        t = time.time()
        self.solver.push()
        ax = None
        for x in extra:
            x = bz(x)
            if ax is None: ax = set(self.axkeys)
            for a in self.range_axioms(x): self.solver.add(a)
            self.solver.add(x)
        if ax is not None: self.axkeys = ax
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        self.rep.solver_s += time.time() - t
        self.rep.queries += 1
        return r, m

    def valid(self, c):
        c = simp(c)
        if isinstance(c, bool): return c
        r, _ = self.check(Not(c))
        return r == z3.unsat

    def feasible(self, c):
        c = simp(c)
        if isinstance(c, bool): return c
        # a branch that is not refuted quickly is explored: its obligations get the full time
        self.solver.set("timeout", min(self.timeout, 600))
        try: r, _ = self.check(c)
        finally: self.solver.set("timeout", self.timeout)
        return r != z3.unsat

    def assume(self, c):
        c = simp(c)
        if c is False: raise PathEnd()
        if c is True: return
        self.add_fact(c)

    def branch(self, c):
        c = simp(c)
        if isinstance(c, bool): return c
        if not z3.is_bool(c): raise Unsupported("branch on non-boolean")
        if self.pos < len(self.dec):
            d = self.dec[self.pos][0]
            self.pos += 1
            self.add_fact(c if d else Not(c))
            return d
        if self.nofork:
            if self.valid(c): return True
            if self.valid(Not(c)): return False
            raise NoFork()
        t, f = self.feasible(c), self.feasible(Not(c))
        if not t and not f: raise PathEnd()
        if t and f:
            self.dec.append([True, [False]]); self.pos += 1
            self.add_fact(c)
            return True
        # forced: recorded so that replays need no solver call
        self.dec.append([t, []]); self.pos += 1
        self.add_fact(c if t else Not(c))
        return t

    def choose(self, n, what=""):
        """nondeterministic choice among n alternatives"""
        if n == 1: return 0
        if self.pos < len(self.dec):
            d = self.dec[self.pos][0]; self.pos += 1
            return d
        if self.nofork: raise NoFork()
        self.dec.append([0, list(range(n - 1, 0, -1))]); self.pos += 1
        return 0

    def explore(self, run):
        """runs run() once per path from the current state; returns list of (result, facts, store)"""
        base = (dict(self.store), list(self.facts), self.counter, self.dec, self.pos, set(self.axkeys), self.lossy, list(self.frames))
        out = []
        stack = []
        n = 0
        maxc = self.counter
        octx = self.ctxkey
        if octx == (): self.xid += 1; self.ctxkey = (self.xid,)
        else: self.ctxkey = (octx, tuple(d[0] for d in base[3][:base[4]]), self.counter)
        oghosts, oquiet, onofork, oloops = list(self.ghosts), self.quiet, self.nofork, list(self.loopstack)
        self.nofork = 0
        try:
            while True:
                self.ghosts, self.quiet, self.loopstack = list(oghosts), oquiet, list(oloops)
                self.store = dict(base[0]); self.facts = list(base[1]); self.counter = base[2]
                self.axkeys = set(base[5]); self.lossy = base[6]; self.frames = list(base[7])
                self.dec, self.pos = stack, 0
                self.solver.push()
                try:
                    r = run()
                    out.append((r, self.facts[len(base[1]):], self.store, self.lossy))
                except PathEnd:
                    pass
                finally:
                    self.solver.pop()
                n += 1
                maxc = max(maxc, self.counter)
                self.rep.paths += 1
                if n > 4000: raise Unsupported("too many paths")
                while stack and not stack[-1][1]: stack.pop()
                if not stack: break
                stack[-1][0] = stack[-1][1].pop()
        finally:
            self.store, self.facts = base[0], base[1]
            self.counter = maxc
            self.dec, self.pos = base[3], base[4]
            self.axkeys, self.lossy, self.frames = base[5], base[6], base[7]
            self.ctxkey = octx
            self.ghosts, self.quiet, self.nofork, self.loopstack = oghosts, oquiet, onofork, oloops
        return out

    # ---- obligations ---------------------------------------------------------------------------
    def oblige(self, c, label, detail=None):
        """proof obligation: c holds on this path"""
        c = simp(c)
        if self.quiet or self.pos < len(self.dec):   # assumed, or already discharged on this path prefix
            self.assume(c); return True
        ent = self.rep.oblig.setdefault(label, [0, 0, 0])
        if c is True:
            ent[0] += 1; return True
        r, m = self.check(Not(c)) if c is not False else self.check()
        if r == z3.unsat:
            ent[0] += 1
            if c is not False: self.assume(c)
            else: raise PathEnd()
            return True
        if r == z3.unknown:
            r2 = self.second_opinion(c)
            if r2 == "unsat":
                ent[0] += 1; self.assume(c); return True
        st = "failed" if r == z3.sat and not self.lossy else "unknown"
        ent[1 if st == "failed" else 2] += 1
        self.fail(label, st, m, detail if detail is not None else str(c)[:600])
        if c is False: raise PathEnd()
        self.assume(c)
        return False

    def fail(self, label, status, model, detail):
        md = {}
        if model is not None:
            try:
                for d in model.decls():
                    if len(md) < 60: md[d.name()] = str(model[d])[:300]
            except Exception: pass
        self.rep.failures.append(dict(label=label, status=status, detail=str(detail)[:1500], model=md,
            where=self.frames[-1].fname if self.frames else None, path=[str(f)[:200] for f in self.facts[-25:]],
            hints=self.model_hints(model)))

    def model_hints(self, model):
        h = {}
        if model is None: return h
        try:
            for name, base in getattr(self, "inputs", {}).items():
                if isinstance(base, Seq) and len(base.atoms) == 1 and isinstance(base.atoms[0], SL):
                    b = base.atoms[0].base
                    n = model.eval(iz(b.length), model_completion=True).as_long()
                    if 0 <= n <= 64:
                        vals = []
                        for i in range(n):
                            t = b.elem(None, z3.IntVal(i))
                            if isz(t): vals.append(model.eval(t, model_completion=True).as_long())
                        h[name] = vals
                elif isz(base):
                    h[name] = str(model.eval(base, model_completion=True))
        except Exception as e:
            h["_err"] = str(e)
        return h

    def second_opinion(self, c):
        """cvc5 on the same query when z3 gives up"""
        try:
            import cvc5, subprocess
            self.solver.push(); self.solver.add(Not(bz(c)))
            txt = "(set-logic ALL)\n" + self.solver.to_smt2()
            self.solver.pop()
            import tempfile
            with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f: f.write(txt)
            r = subprocess.run(["cvc5", "--tlimit=8000", f.name], capture_output=True, text=True)
            os.unlink(f.name)
            self.rep.queries += 1
            return r.stdout.strip().split("\n")[0]
        except Exception:
            return "unknown"

    def note_lossy(self, why):
        self.lossy = True
        self.rep.lossy.add(why)

    # ---- symbolic values -----------------------------------------------------------------------
    def uf(self, name, args, sort):
        if not args: return z3.Const(name, sort)
        f = z3.Function(name, *([z3.IntSort()] * len(args)), sort)
        return f(*[iz(a) for a in args])

    def axiom_once(self, key, f):
        if key in self.axkeys: return
        self.axkeys.add(key)
        self.add_fact(f)

    def sym_int(self, name, args, lo=None, hi=None):
        t = self.uf(name, args, z3.IntSort())
        if lo is not None: self.ranges[name] = (lo, hi)
        return t

    def fresh_int(self, hint, lo=None, hi=None):
        return self.sym_int("%s!%d" % (hint, self.fresh_id()), self.ghosts, lo, hi)
    def fresh_bool(self, hint):
        return self.uf("%s!%d" % (hint, self.fresh_id()), self.ghosts, z3.BoolSort())

    def sym_seq(self, name, args, elem, etype=None):
        n = self.sym_int(name + ".len", args, 0, MAXLEN)
        b = Base(name, args, n, elem, etype)
        def rebase(a2):
            return self.sym_seq_base(name, a2, elem_factory=getattr(b, "ef", None), etype=etype)
        b.rebase = rebase
        return Seq(norm([SL(b, 0, n)])), b

    def sym_seq_base(self, name, args, elem_factory, etype=None):
        """elem_factory(ex, name, args+[i]) -> value"""
        n = self.sym_int(name + ".len", args, 0, MAXLEN)
        args = tuple(args)
        ex = self
        def elem(_, i):
            return elem_factory(ex, name + ".at", list(args) + [i])
        b = Base(name, args, n, elem, etype)
        b.ef = elem_factory
        b.rebase = lambda a2: ex.sym_seq_base(name, a2, elem_factory, etype)
        return b

    def sym_list(self, name, args, elem_factory, etype=None):
        b = self.sym_seq_base(name, args, elem_factory, etype)
        return Seq([SL(b, 0, b.length)])

    def sym_string(self, name, args=()):
        return self.sym_list(name, args, lambda ex, n, a: ex.sym_int(n, a, -128, 127), "char")

    def sym(self, unit, t, name, args=()):
        """symbolic value of type t"""
        ty = unit.ty(t)
        k = ty["k"]
        if k in ("int", "enum"):
            lo, hi = trange(ty)
            return self.sym_int(name, args, lo, hi)
        if k == "bool": return self.uf(name, args, z3.BoolSort())
        if k == "float": return self.uf(name, args, z3.Float64())
        if k == "ref": return self.temp(self.sym(unit, ty["to"], name, args))
        if k == "rec":
            f = self.lib.sym_types.get(ty["n"])
            if f: return f(self, unit, ty, name, args)
            if ty["n"] in self.prog.recs:
                return SymRef(ty["n"], name, args)
        if k == "ptr":
            to = unit.ty(ty["to"])
            if to["k"] == "rec":
                return Ptr(Cell(name + "->", args, to["n"]), self.uf(name + ".null", args, z3.BoolSort()), to["n"])
        raise Unsupported("symbolic value of type " + ty["s"])

    def materialize(self, o):
        u, d = self.prog.recs[o.cls]
        return Obj(o.cls, {f["n"]: self.sym(u, f["t"], o.name + "." + f["n"], o.args) for f in self.all_fields(u, d)})

    def all_fields(self, u, d):
        fs = []
        for b in d.get("bases", []):
            bt = u.ty(b)
            if bt["k"] == "rec" and bt["n"] in self.prog.recs:
                fs += self.all_fields(*self.prog.recs[bt["n"]])
        return fs + d["fs"]

    def field(self, o, n, t=None, unit=None):
        if isinstance(o, Obj):
            if n in o.f: return o.f[n]
            raise Unsupported("read of uninitialised field " + n)
        if isinstance(o, SymRef):
            f = self.lib.sym_fields.get((o.cls, n))
            if f: return f(self, o)
            if n.startswith("#"):
                g = self.lib.sym_types.get(n[1:])
                if g:
                    u, d = self.prog.recs[o.cls]
                    for b in d.get("bases", []):
                        bt = u.ty(b)
                        if "#" + bt.get("n", "") == n:
                            return g(self, u, bt, o.name + "." + n, o.args)
            if o.cls in self.prog.recs:
                u, d = self.prog.recs[o.cls]
                for fd in self.all_fields(u, d):
                    if fd["n"] == n:
                        return self.sym(u, fd["t"], o.name + "." + n, o.args)
            if t is not None:
                return self.sym(unit, t, o.name + "." + n, o.args)
        if isinstance(o, Pair):
            return o.a if n == "first" else o.b
        raise Unsupported("field %s of %r" % (n, o))

    # ---- sequences -----------------------------------------------------------------------------
    def as_seq(self, v):
        if isinstance(v, Seq): return v
        if isinstance(v, CStr): return v.seq
        if isinstance(v, LV): return self.as_seq(v.get(self))
        if isinstance(v, Obj):
            for k, x in v.f.items():
                if k.startswith("#") and isinstance(x, Seq): return x
        if isinstance(v, SymRef):
            u, d = self.prog.recs.get(v.cls, (None, None))
            if d:
                for b in d.get("bases", []):
                    bt = u.ty(b)
                    if bt.get("n") in ("std::vector", "std::basic_string"): return self.field(v, "#" + bt["n"])
        raise Unsupported("not a sequence: %r" % (v,))

    def atom_len(self, a):
        if isinstance(a, U): return 1
        if isinstance(a, SL): return sub(a.hi, a.lo)
        if isinstance(a, OP): return a.length
        if isinstance(a, FO):
            ls = [self.seq_len(s) for _, s in a.cases]
            c = [cint(l) for l in ls]
            if c and all(x is not None for x in c) and len(set(c)) == 1:
                return mul(c[0], sub(a.hi, a.lo))
            raise Unsupported("length of a fold with pieces of varying length")
        raise Unsupported("length of %r" % (a,))

    def seq_len(self, s):
        n = 0
        for a in s.atoms: n = add(n, self.atom_len(a))
        return n

    def seq_at(self, s, i):
        """element at index i (in-bounds obligations are the caller's)"""
        i = simp(i)
        off = 0
        c = s.concrete()
        if c and len(c) > 1 and cint(i) is None and all(isinstance(x, int) and not isinstance(x, bool) for x in c):
            r = c[-1]
            for p in range(len(c) - 2, -1, -1): r = If(eq(i, p), c[p], r)
            return r
        for pos, a in enumerate(s.atoms):
            n = self.atom_len(a)
            end = add(off, n)
            last = pos == len(s.atoms) - 1
            if last or self.branch(lt(i, end)):
                rel = sub(i, off)
                if isinstance(a, U): return a.v
                if isinstance(a, SL): return a.base.elem(self, add(a.lo, rel))
                if isinstance(a, FO):
                    for c, p in a.cases:
                        if len(p.atoms) != 1 or not isinstance(p.atoms[0], U): raise Unsupported("element of a fold")
                    idx = add(a.lo, rel) if not a.rev else sub(sub(a.hi, 1), rel)
                    pr = [(a.kv, iz(idx))]
                    cs = [(subst(c, pr), p) for c, p in a.cases]
                    vs = [p.atoms[0].v for _, p in cs]
                    if len(vs) > 1 and all((isinstance(x, int) and not isinstance(x, bool)) or (isz(x) and z3.is_int(x)) for x in vs):
                        r = subst(vs[-1], pr)
                        for (c, _), x in reversed(list(zip(cs[:-1], vs[:-1]))): r = If(c, subst(x, pr), r)
                        return r
                    for c, p in cs[:-1]:
                        if self.branch(c): return subst(p, pr).atoms[0].v
                    self.assume(cs[-1][0])
                    return subst(cs[-1][1], pr).atoms[0].v
                if isinstance(a, OP):
                    return self.sym_int(a.name + ".at", list(x for x in a.args if not isinstance(x, Seq)) + [rel], -128, 127)
            off = end
        raise Unsupported("element of an empty sequence")

    def seq_slice(self, s, lo, hi):
        """elements [lo,hi); lo<=hi<=len assumed"""
        lo, hi = simp(lo), simp(hi)
        out = []
        off = 0
        for a in s.atoms:
            n = self.atom_len(a)
            end = add(off, n)
            # overlap of [lo,hi) with [off,end)
            if self.branch(le(hi, off)): break
            if self.branch(le(end, lo)):
                off = end; continue
            if isinstance(a, U): out.append(a)
            else:
                b = sub(lo, off) if not self.branch(le(lo, off)) else 0
                e = sub(hi, off) if self.branch(lt(hi, end)) else n
                if isinstance(a, SL): out.append(SL(a.base, add(a.lo, b), add(a.lo, e)))
                elif isinstance(b, int) and b == 0 and e is n: out.append(a)
                elif isinstance(a, FO) and not a.rev and all(len(p.atoms) == 1 and isinstance(p.atoms[0], U) for _, p in a.cases):
                    out.append(FO(a.kv, a.cases, add(a.lo, b), add(a.lo, e)))
                else: raise Unsupported("slice of %r" % (a,))
            off = end
        return Seq(norm(out))

    def seq_set(self, s, i, v):
        n = self.seq_len(s)
        return self.seq_slice(s, 0, i) + Seq([U(v)]) + self.seq_slice(s, add(i, 1), n)

    def empty(self, s):
        """Bool: is the sequence empty"""
        if not s.atoms: return True
        if any(isinstance(a, U) for a in s.atoms): return False
        cs = []
        for a in s.atoms:
            if isinstance(a, FO):
                ks = [self.seq_len(p) for _, p in a.cases] if all(not any(isinstance(x, (FO,)) for x in p.atoms) for _, p in a.cases) else None
                if ks is not None and all(self.valid_in_case(c, Not(eq(k, 0))) for (c, _), k in zip(a.cases, ks)):
                    cs.append(le(a.hi, a.lo)); continue
            cs.append(eq(self.atom_len(a), 0))
        return simp(And(*cs))

    def valid_in_case(self, c, f):
        f = simp(f)
        if isinstance(f, bool): return f
        return self.check(And(c, Not(f)))[0] == z3.unsat

    # equality: structural alignment; every comparison of scalars becomes an obligation
    def veq(self, a, b):
        """z3/py Bool for equality of two scalar-like values, or None when structural"""
        if isinstance(a, LV): a = a.get(self)
        if isinstance(b, LV): b = b.get(self)
        if isinstance(a, (int, bool)) or (isz(a) and not z3.is_fp(a)):
            if isinstance(b, (int, bool)) or isz(b):
                if isboolish(a) or isboolish(b):
                    return simp(bz(a if isboolish(a) else Not(eq(a, 0))) == bz(b if isboolish(b) else Not(eq(b, 0))))
                return eq(a, b)
        if isz(a) and z3.is_fp(a) and isz(b): return simp(a == b)
        if isinstance(a, Pair) and isinstance(b, Pair):
            return And(self.veq(a.a, b.a), self.veq(a.b, b.b))
        if isinstance(a, Opt) and isinstance(b, Opt):
            if a.v is None or b.v is None: return simp(And(Not(a.has), Not(b.has))) if (a.v is None and b.v is None) else simp(And(Not(a.has), Not(b.has)))
            return simp(Or(And(Not(a.has), Not(b.has)), And(a.has, b.has, self.veq(a.v, b.v))))
        if isinstance(a, Seq) and isinstance(b, Seq): return self.seq_eq_cond(a, b)
        if isinstance(a, SymRef) and isinstance(b, SymRef):
            if a.name == b.name and len(a.args) == len(b.args):
                r = And(*[eq(x, y) for x, y in zip(a.args, b.args)])
                if r is True or self.valid(r): return True
        if isinstance(a, (Obj, SymRef)) and isinstance(b, (Obj, SymRef)):
            if isinstance(a, SymRef): a = self.materialize(a)
            if isinstance(b, SymRef): b = self.materialize(b)
            if a.cls != b.cls or set(a.f) != set(b.f): return False
            return And(*[self.veq(a.f[k], b.f[k]) for k in a.f])
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.cell is None or b.cell is None:
                return simp(And(a.null, b.null)) if (a.cell is None and b.cell is None) else (b.null if a.cell is None else a.null)
            same = a.cell.name == b.cell.name and len(a.cell.args) == len(b.cell.args)
            if not same and a.cls == b.cls == "cqasm::annotations::SourceLocation":      # locations have no identity: their values count
                return simp(Or(And(a.null, b.null), And(Not(a.null), Not(b.null), self.veq(self.load(a.cell), self.load(b.cell)))))
            if same: return simp(Or(And(a.null, b.null), And(Not(a.null), Not(b.null), *[eq(x, y) for x, y in zip(a.cell.args, b.cell.args)])))
            return simp(And(a.null, b.null))
        if isinstance(a, Iter) and isinstance(b, Iter): return eq(a.idx, b.idx)
        if isinstance(a, Special) and isinstance(b, Special):
            if a.kind == b.kind and a.x is b.x: return True
            if a.kind == b.kind and isinstance(a.x, tuple) and isinstance(b.x, tuple) and len(a.x) == len(b.x):
                return And(*[self.veq(x, y) for x, y in zip(a.x, b.x)])
            if a.kind == b.kind and isinstance(a.x, str) and isinstance(b.x, str): return a.x == b.x
            if a.kind != b.kind: return False
        if isinstance(a, str) and isinstance(b, str): return a == b
        if isinstance(a, CStr) and isinstance(b, CStr): return self.seq_eq_cond(a.seq, b.seq)
        raise Unsupported("equality of %r and %r" % (a, b))

    def seq_eq_cond(self, a, b):
        """Bool term for equality of sequences when one side is made of units, or both are identical"""
        a, b = Seq(norm(a.atoms)), Seq(norm(b.atoms))
        if repr(a) == repr(b): return True
        # strip common prefix/suffix of identical atoms
        ua, ub = a.concrete() is not None, b.concrete() is not None
        if ua and ub:
            if len(a.atoms) != len(b.atoms): return False
            return And(*[self.veq(x.v, y.v) for x, y in zip(a.atoms, b.atoms)])
        if not ua and ub: a, b = b, a
        if a.concrete() is not None:
            # a: units, b general: length equal and elements equal
            vals = [x.v for x in a.atoms]
            if len(b.atoms) == 1 and isinstance(b.atoms[0], SL):
                sl = b.atoms[0]
                cs = [eq(sub(sl.hi, sl.lo), len(vals))]
                for i, v in enumerate(vals):
                    cs.append(self.veq(v, sl.base.elem(self, add(sl.lo, i))))
                return simp(And(*cs))
            ln = self.seq_len(b)
            if self.branch(eq(ln, len(vals))):
                return And(*[self.veq(v, self.seq_at(b, i)) for i, v in enumerate(vals)])
            return False
        if len(a.atoms) == 1 and len(b.atoms) == 1 and isinstance(a.atoms[0], SL) and isinstance(b.atoms[0], SL):
            x, y = a.atoms[0], b.atoms[0]
            nx, ny = sub(x.hi, x.lo), sub(y.hi, y.lo)
            j = z3.Int("j!%d" % self.fresh_id())
            try:
                e1, e2 = x.base.elem(self, add(x.lo, j)), y.base.elem(self, add(y.lo, j))
                if isz(e1) and isz(e2):
                    return And(eq(nx, ny), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < iz(nx)), e1 == e2)))
            except Unsupported: pass
        if len(a.atoms) == 1 and len(b.atoms) == 1 and isinstance(a.atoms[0], OP) and isinstance(b.atoms[0], OP) and a.atoms[0].name == b.atoms[0].name and a.atoms[0].name in self.lib.injective:
            return And(*[self.veq(x, y) for x, y in zip(a.atoms[0].args, b.atoms[0].args)])
        raise Unsupported("equality of sequences %r and %r" % (a, b))

    def prove_seq_eq(self, a, b, label):
        """obligation: sequences equal (structural, with scalar obligations)"""
        ok, why = self.align(a, b)
        self.record(ok, label, why)
        return ok

    def record(self, ok, label, why, model=None):
        if self.quiet: return
        ent = self.rep.oblig.setdefault(label, [0, 0, 0])
        if ok is True: ent[0] += 1
        else:
            st = "failed" if (ok is False and not self.lossy) else "unknown"
            ent[1 if st == "failed" else 2] += 1
            self.fail(label, st, model or getattr(self, "last_model", None), why)

    def holds(self, c):
        c = simp(c)
        if isinstance(c, bool):
            if not c:
                r, m = self.check()
                if r == z3.unsat: return True
                self.last_model = m
            return c
        r, m = self.check(Not(c))
        if r == z3.unsat: return True
        self.last_model = m
        if r == z3.unknown and self.second_opinion(c) == "unsat": return True
        return False if r == z3.sat else None

    def align(self, A, B):
        """are A and B equal on this path?  returns (True/False/None, explanation)"""
        a, b = list(norm(A.atoms)), list(norm(B.atoms))
        self.last_model = None
        guard = 0
        while a or b:
            guard += 1
            if guard > 2000: return None, "alignment did not terminate"
            if a and b and not isinstance(a[0], U) and type(a[0]) is type(b[0]) and repr(a[0]) == repr(b[0]):
                a.pop(0); b.pop(0); continue
            # drop provably empty heads
            dropped = False
            for l in (a, b):
                if l and not isinstance(l[0], U):
                    h = l[0]
                    try:
                        e = self.empty(Seq([h]))
                    except Unsupported: e = None
                    if e is not None and e is not False and self.holds(e) is True:
                        l.pop(0); dropped = True
            if dropped: continue
            if not a or not b:
                h = (a or b)[0]
                try: e = self.empty(Seq([h]))
                except Unsupported: return None, "cannot compare length of %r" % (h,)
                if self.holds(e) is True:
                    (a or b).pop(0); continue
                return (False if self.last_model is not None else None), "one side has extra %r" % (h,)
            x, y = a[0], b[0]
            if isinstance(x, U) and isinstance(y, U):
                try: c = self.veq(x.v, y.v)
                except Unsupported as u: return None, str(u)
                r = self.holds(c)
                if r is not True: return r, "element %s versus %s" % (x.v, y.v)
                a.pop(0); b.pop(0); continue
            if isinstance(x, SL) and isinstance(y, SL) and x.base.key() == y.base.key() and self.holds(eq(x.lo, y.lo)) is True:
                if self.holds(eq(x.hi, y.hi)) is True: a.pop(0); b.pop(0); continue
                if self.holds(le(x.hi, y.hi)) is True:
                    a.pop(0); b[0] = SL(y.base, x.hi, y.hi); continue
                if self.holds(le(y.hi, x.hi)) is True:
                    b.pop(0); a[0] = SL(x.base, y.hi, x.hi); continue
                return False, "slices %r and %r end differently" % (x, y)
            if isinstance(x, OP) and isinstance(y, OP) and x.name == y.name and len(x.args) == len(y.args):
                c = True
                for p, q in zip(x.args, y.args):
                    if isinstance(p, Seq) and isinstance(q, Seq):
                        r, why = self.align(p, q)
                    else:
                        try: r = self.holds(self.veq(p, q))
                        except Unsupported as u: return None, str(u)
                        why = "%s versus %s" % (p, q)
                    if r is not True:
                        return r if x.name in self.lib.injective else None, "arguments of %s: %s" % (x.name, why)
                a.pop(0); b.pop(0); continue
            if isinstance(x, FO) and isinstance(y, FO) and x.rev == y.rev:
                r, why = self.fold_eq(x, y)
                if r is True: a.pop(0); b.pop(0); continue
                return r, why
            # fold whose pieces are the elements of the slice
            if isinstance(x, FO) and isinstance(y, SL): y = self.slice_as_fold(y)
            elif isinstance(x, SL) and isinstance(y, FO): x = self.slice_as_fold(x)
            elif isinstance(x, SL) and isinstance(y, SL): x, y = self.slice_as_fold(x), self.slice_as_fold(y)
            if isinstance(x, FO) and isinstance(y, FO) and x.rev == y.rev:
                r, why = self.fold_eq(x, y)
                if r is True: a.pop(0); b.pop(0); continue
                return r, why
            # unit against slice / fold: peel one element
            peeled = False
            for l, m in ((a, b), (b, a)):
                h = l[0]
                if isinstance(m[0], U) and isinstance(h, SL) and self.holds(lt(h.lo, h.hi)) is True:
                    l[0:1] = [U(h.base.elem(self, h.lo)), SL(h.base, add(h.lo, 1), h.hi)]
                    peeled = True; break
                if isinstance(h, FO) and not h.rev and self.holds(lt(h.lo, h.hi)) is True and isinstance(m[0], U):
                    pr = [(h.kv, iz(h.lo))]
                    for c, p in h.cases:
                        if self.holds(subst(c, pr)) is True:
                            l[0:1] = list(subst(p, pr).atoms) + [FO(h.kv, h.cases, add(h.lo, 1), h.hi)]
                            peeled = True; break
                    if peeled: break
                if isinstance(m[0], U) and isinstance(h, OP) and h.name in self.lib.op_unfold:
                    un = self.lib.op_unfold[h.name](self, h)
                    if un is not None:
                        l[0:1] = list(un.atoms); peeled = True; break
            if peeled: continue
            r, m_ = self.check()
            self.last_model = m_
            def definite(u, v):
                return isinstance(u, U) and isinstance(v, OP) and False
            return (None if not definite(x, y) else False), "cannot align %r with %r" % (x, y)
        return True, ""

    def slice_as_fold(self, s):
        kv = z3.Int("kv!%d" % self.fresh_id())
        n0 = len(self.facts)
        e = s.base.elem(self, kv)
        return FO(kv, [(True, Seq([U(e)]))], s.lo, s.hi)

    def fold_eq(self, x, y):
        """folds over ranges of equal length whose pieces agree pointwise are equal (induction on the length)"""
        n1, n2 = sub(x.hi, x.lo), sub(y.hi, y.lo)
        r = self.holds(eq(n1, n2))
        if r is not True:
            # maybe both non-positive
            return r, "fold ranges differ: %s versus %s" % (n1, n2)
        i = z3.Int("i!%d" % self.fresh_id())
        res = [True, ""]
        def point():
            self.assume(And(i >= 0, i < iz(n1)))
            px, py = [(x.kv, simp(i + iz(x.lo)))], [(y.kv, simp(i + iz(y.lo)))]
            px = [(x.kv, iz(px[0][1]))]; py = [(y.kv, iz(py[0][1]))]
            for cx, sx in x.cases:
                for cy, sy in y.cases:
                    c = And(subst(cx, px), subst(cy, py))
                    if not self.feasible(c): continue
                    self.solver.push(); nf = len(self.facts); ax = set(self.axkeys)
                    self.add_fact(c)
                    try:
                        rr, why = self.align(subst(sx, px), subst(sy, py))
                        mod = self.last_model
                    finally:
                        self.solver.pop(); del self.facts[nf:]; self.axkeys = ax
                    if rr is not True and res[0] is True:
                        res[0], res[1] = rr, "iteration piece: " + why
                        res.append(mod)
            return None
        for _ in [0]:
            self.explore(point)
        if len(res) > 2: self.last_model = res[2]
        return res[0], res[1]
