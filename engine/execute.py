"""Statements, expressions, calls."""
import z3
from .vals import *
from .core import *
from .loops import LoopMixin

TWO = lambda w: 1 << w

class Interp(LoopMixin, Exec):
    # ---- helpers -------------------------------------------------------------------------------
    @property
    def fr(self): return self.frames[-1]
    @property
    def unit(self): return self.frames[-1].unit

    def rv(self, x):
        return x.get(self) if isinstance(x, LV) else x
    def lvof(self, x, hint="t"):
        return x if isinstance(x, LV) else self.temp(x, hint)
    def decl(self, i): return self.unit.decls[i]

    # ---- functions -----------------------------------------------------------------------------
    def run_function(self, unit, d, this, args, env=None, inits_this=None):
        """executes the body of d with evaluated args; returns its value"""
        self.depth += 1
        if self.depth > 60: self.depth -= 1; raise Unsupported("call depth")
        e = dict(env or {})
        ps = d.get("ps", [])
        for p, a in zip(ps, args):
            pt = unit.ty(p["t"])
            if pt["k"] == "ref": e[p["d"]] = self.lvof(a, p["n"] or "ref")
            else: e[p["d"]] = self.temp(self.copy_in(self.rv(a)), p["n"] or "p")
        self.frames.append(Frame(unit, e, this, d["q"]))
        self.rep.inlined.add(d["q"])
        try:
            if d.get("ctor"): self.run_inits(unit, d, this)
            try:
                self.st(d["body"])
                r = VOID
            except ReturnX as x: r = x.v
            return r
        finally:
            self.frames.pop()
            self.depth -= 1

    def copy_in(self, v):
        if isinstance(v, Closure): return self.clone_closure(v)
        return v

    def clone_closure(self, c):
        env = {}
        for k, (lv, isref) in c.env.items():
            env[k] = (lv, True) if isref else (self.temp(lv.get(self), "cap"), False)
        return Closure(c.cls, c.unit, env, c.this)

    def run_inits(self, unit, d, this):
        cls = unit.decls[d["cls"]]
        done = set()
        for i in d.get("inits", []):
            if i.get("deleg"):
                v = self.ev(i["e"])
                this.set(self, self.rv(v)); return
            if "base" in i:
                bt = unit.ty(i["base"])
                v = self.rv(self.ev(i["e"]))
                if bt.get("n") in self.prog.recs:
                    if isinstance(v, Obj):
                        o = this.get(self)
                        for k, x in v.f.items(): o = o.with_(k, x)
                        this.set(self, o)
                else:
                    FieldLV(this, "#" + bt["n"]).set(self, v)
            else:
                v = self.rv_init(unit, i["e"], unit.decls[i["d"]].get("t"))
                FieldLV(this, i["n"]).set(self, v)
                done.add(i["n"])

    def rv_init(self, unit, e, t):
        if e is None: return self.default_value(unit, t)
        v = self.ev(e)
        if t is not None and unit.ty(t)["k"] == "ref": return v
        return self.copy_in(self.rv(v))

    def construct(self, unit, d, t, args):
        """constructor call producing a value"""
        cls = unit.decls[d["cls"]]
        if d.get("body") is None and (d.get("cc") or d.get("mc")) and args:
            return self.copy_in(self.rv(args[0]))
        sig = unit.sig(d)
        if d.get("body") is None and sig in self.prog.bodies:
            unit, d = self.prog.bodies[sig]
        if (d.get("dflt") and (d.get("cc") or d.get("mc"))) and args: return self.copy_in(self.rv(args[0]))
        if d.get("body") is not None:
            key = "ctor:" + sig
            cell = self.newcell(Obj(cls["q"], {}), "obj")
            this = CellLV(cell)
            # fields without initialiser get their default member initialiser through the exported inits
            self.run_function(unit, d, this, args)
            return cell_value(self, cell)
        if d.get("dc") and not args and cls["q"].split("::")[0] in ("ranges", "std", "fmt") and not cls.get("fs"): return Special("functor", cls["q"])
        if d.get("dflt") and d.get("dc") or (not args and d.get("dc")):
            return self.default_obj(unit, cls)
        raise Unsupported("constructor " + sig)

    def default_obj(self, unit, cls):
        f = {}
        if cls["q"] in self.lib.transparent_bases and "fs" not in cls: return Obj(cls["q"], {})
        if "fs" not in cls: raise Unsupported("default construction of " + cls["q"])
        for b in cls.get("bases", []):
            bt = unit.ty(b)
            if bt.get("n") in self.prog.recs:
                u2, d2 = self.prog.recs[bt["n"]]
                f.update(self.default_obj(u2, d2).f)
            else: f["#" + bt["n"]] = self.default_value(unit, b)
        for fd in cls["fs"]:
            if "init" in fd and fd["init"] is not None:
                self.frames.append(Frame(unit, {}, None, "init"))
                try: f[fd["n"]] = self.rv(self.ev(fd["init"]))
                finally: self.frames.pop()
            else:
                ty = unit.ty(fd["t"])
                if ty["k"] == "rec": f[fd["n"]] = self.default_value(unit, fd["t"])
        return Obj(cls["q"], f)

    def default_value(self, unit, t):
        ty = unit.ty(t)
        k = ty["k"]
        if k in ("int", "enum"): return 0
        if k == "bool": return False
        if k == "float": return z3.FPVal(0.0, z3.Float64())
        if k == "ptr": return NULL
        if k == "rec":
            f = self.lib.default_types.get(ty["n"])
            if f: return f(self, unit, ty)
            if ty["n"] in self.prog.recs:
                u, d = self.prog.recs[ty["n"]]
                return self.default_obj(u, d)
            if ty["n"].split("::")[0] in ("ranges", "std", "fmt", "__gnu_cxx"):
                rec = unit.decls.get(ty.get("d"))
                if rec is not None and not rec.get("fs"): return Special("functor", ty["n"])
        raise Unsupported("default value of " + ty["s"])

    def call_fn(self, unit, d, this, args, e=None):
        """call of a declared function: contract, library model, or inlined body"""
        q = d["q"]
        c = self.contracts.get(q)
        if c is not None and (getattr(c, "recursive", False) or self.under != unit.sig(d)):
            r = c(self, unit, d, this, args)
            if r is not NotImplemented:
                self.rep.contracts_used.add(q)
                return r
        m = self.lib.models.get(q)
        if m is not None:
            r = m(self, unit, d, this, args, e)
            if r is not NotImplemented:
                self.rep.models.add(q)
                return r
        sig = unit.sig(d)
        if sig in self.prog.bodies:
            u2, d2 = self.prog.bodies[sig]
        elif d.get("body") is not None: u2, d2 = unit, d
        else:
            r = self.lib.fallback(self, unit, d, this, args, e)
            if r is not NotImplemented:
                self.rep.models.add(q); return r
            if d.get("dflt"): return self.defaulted(unit, d, this, args)
            raise Unsupported("call of %s" % sig)
        if d2.get("dflt") and d2.get("op") in ("==", "<=>", "="): return self.defaulted(u2, d2, this, args)
        if [f.fname for f in self.frames].count(q) >= 3: raise Unsupported("recursion in " + q + " without a contract")
        return self.run_function(u2, d2, this, args)

    under = None
    under_depth = 0

    def defaulted(self, unit, d, this, args):
        op = d.get("op")
        if op == "=":
            v = self.rv(args[-1])
            this.set(self, self.copy_in(v))
            return this
        if op == "==":
            a, b = (this, args[0]) if this is not None and len(args) == 1 else (args[0], args[1])
            return self.memberwise_eq(unit, self.unit_cls(unit, d), self.lvof(a), self.lvof(b))
        if op == "<=>":
            a, b = (this, args[0]) if this is not None and len(args) == 1 else (args[0], args[1])
            return self.memberwise_cmp(unit, self.unit_cls(unit, d), self.lvof(a), self.lvof(b))
        raise Unsupported("defaulted " + d["q"])

    def unit_cls(self, unit, d): return unit.decls[d["cls"]]

    def memberwise_eq(self, unit, cls, a, b):
        u, c = self.prog.recs[cls["q"]]
        r = True
        for f in self.all_fields(u, c):
            x, y = FieldLV(a, f["n"]), FieldLV(b, f["n"])
            r = And(r, self.eq_values(u, f["t"], x, y))
            if r is False: return False
        return simp(r)

    def user_op(self, q, op):
        return None

    def eq_values(self, u, t, x, y):
        ty = u.ty(t)
        if ty["k"] == "rec" and ty["n"] in self.prog.recs:
            c = self.find_method(ty["n"], "operator==")
            if c and not c[1].get("dflt"):
                return self.call_fn(c[0], c[1], x, [y])
            return self.memberwise_eq(u, self.prog.recs[ty["n"]][1], x, y)
        if ty["k"] == "float": return simp(z3.fpEQ(self.rv(x), self.rv(y)))
        return self.veq(self.rv(x), self.rv(y))

    def find_method(self, cls, name):
        for (u, d) in self.prog.byq.get(cls + "::" + name, []):
            return (u, d)
        u, rec = self.prog.recs[cls]
        for i in rec.get("ms", []):
            if u.decls[i]["q"] == cls + "::" + name: return (u, u.decls[i])
        return None

    def memberwise_cmp(self, unit, cls, a, b):
        """three-way comparison as an ordering value: an Int term -1/0/1 wrapped in Special('ord')"""
        u, c = self.prog.recs[cls["q"]]
        acc = 0
        for f in reversed(self.all_fields(u, c)):
            x, y = FieldLV(a, f["n"]), FieldLV(b, f["n"])
            o = self.cmp_values(u, f["t"], x, y)
            acc = simp(If(eq(o, 0), acc, o)) if not isinstance(o, int) else (o if o else acc)
        return Special("ord", acc)

    def cmp_values(self, u, t, x, y):
        ty = u.ty(t)
        if ty["k"] in ("int", "enum"):
            p, q = self.rv(x), self.rv(y)
            return simp(If(lt(p, q), -1, If(lt(q, p), 1, 0)))
        if ty["k"] == "bool":
            p, q = self.rv(x), self.rv(y)
            return simp(If(And(Not(p), q), -1, If(And(p, Not(q)), 1, 0)))
        if ty["k"] == "rec" and ty["n"] in self.prog.recs:
            c = self.find_method(ty["n"], "operator<=>")
            if c and not c[1].get("dflt"):
                return self.call_fn(c[0], c[1], x, [y]).x
            return self.memberwise_cmp(u, self.prog.recs[ty["n"]][1], x, y).x
        raise Unsupported("ordering of " + ty["s"])

    def call_closure(self, c, args):
        """invoke a callable value"""
        c = self.rv(c)
        if isinstance(c, Closure):
            cls = c.unit.decls[c.cls]
            cand = [c.unit.decls[o] for o in cls.get("ops", [])]
            d = self.pick_overload(c.unit, cand, args)
            args = [self.coerce(a, c.unit, p["t"]) for a, p in zip(args, d["ps"])]
            env = {k: lv for k, (lv, _) in c.env.items()}
            return self.run_function(c.unit, d, c.this, args, env)
        if isinstance(c, Fn):
            args = [self.coerce(a, c.unit, p["t"]) for a, p in zip(args, c.d["ps"])]
            return self.call_fn(c.unit, c.d, None, args)
        if isinstance(c, Special):
            h = self.lib.callables.get(c.kind)
            if h: return h(self, c, args)
        if isinstance(c, Ptr) and c.cell is not None: return self.call_closure(self.load(c.cell), args)
        if isinstance(c, SymRef) and c.cls == "std::function" and "call_unknown" in self.contracts: return self.contracts["call_unknown"](self, c, args)
        if isinstance(c, (Obj, SymRef)):
            m = [x for x in self.prog.byq.get(c.cls + "::operator()", [])]
            if m: return self.call_fn(m[0][0], m[0][1], self.lvof(c), args)
        raise Unsupported("call of %r" % (c,))

    def pick_overload(self, unit, cand, args):
        cand = [d for d in cand if d.get("body") is not None and len(d["ps"]) == len(args)]
        if not cand: raise Unsupported("no instantiated call operator")
        if len(cand) == 1: return cand[0]
        def score(d):
            s = 0
            for p, a in zip(d["ps"], args):
                ty = unit.ty(unit.strip(p["t"]))
                v = self.rv(a)
                if isinstance(v, Seq) and ty.get("n") in ("std::basic_string", "std::vector"): s += 1
                elif isz(v) and z3.is_fp(v): s += 1 if ty["k"] == "float" else -1
                elif (isinstance(v, (int,)) and not isinstance(v, bool)) or (isz(v) and z3.is_int(v)): s += 1 if ty["k"] in ("int", "enum") else -1
                elif isboolish(v): s += 1 if ty["k"] == "bool" else -1
                elif isinstance(v, (Obj, SymRef)): s += 1 if ty.get("n") == v.cls else -1
            return s
        return max(cand, key=score)

    # ---- statements ----------------------------------------------------------------------------
    def st(self, s):
        if s is None: return
        getattr(self, "s_" + s["k"], self.s_bad)(s)

    def s_bad(self, s): raise Unsupported("statement " + s.get("cls", s["k"]))
    def s_Expr(self, s): self.ev(s["e"])
    def s_Block(self, s):
        for c in s["b"]: self.st(c)
    def s_Decl(self, s):
        for v in s["vars"]: self.declare(v)

    def declare(self, v):
        t = self.unit.ty(v["t"])
        if v.get("static"):
            key = ("static", self.unit.name, v["d"])
            cell = Cell("static:%s:%s" % (self.fr.fname, v["n"]))
            self.fr.env[v["d"]] = CellLV(cell)
            if cell.key not in self.store:
                self.store[cell.key] = self.rv(self.ev(v["init"])) if "init" in v else self.default_value(self.unit, v["t"])
            return
        if t["k"] == "ref":
            x = self.ev(v["init"])
            self.fr.env[v["d"]] = self.lvof(x, v["n"])
        else:
            if "init" in v:
                x = self.copy_in(self.rv(self.ev(v["init"])))
                cell = self.newcell(x, v["n"] or "v")
                if t["k"] in ("int", "enum"): self.ctypes[cell.key] = trange(t)
            else:
                cell = Cell("%s#%d" % (v["n"], self.fresh_id()))
                if t["k"] in ("int", "enum"): self.ctypes[cell.key] = trange(t)
            self.fr.env[v["d"]] = CellLV(cell)
        if "bind" in v:
            base = self.fr.env[v["d"]]
            val = base.get(self)
            for i, b in enumerate(v["bind"]):
                if isinstance(val, Pair): lv = PairLV(base, "ab"[i])
                elif isinstance(val, (Obj, SymRef)) and b.get("e", {}) and b["e"].get("k") == "Mem": lv = FieldLV(base, b["e"]["n"])
                elif isinstance(val, Special) and val.kind == "tuple": lv = val.x[i] if isinstance(val.x[i], LV) else self.temp(val.x[i])
                else: raise Unsupported("structured binding of %r" % (val,))
                self.fr.env[b["d"]] = lv
                if "hv" in b: self.fr.env[b["hv"]] = lv

    def s_If(self, s):
        if s.get("init"): self.st(s["init"])
        if s.get("cv"): self.declare(s["cv"])
        if self.branch(self.truth(self.rv(self.ev(s["c"])))): self.st(s["a"])
        elif s.get("b"): self.st(s["b"])

    def s_Return(self, s):
        e = s.get("e")
        if e is None: raise ReturnX(VOID)
        v = self.ev(e)
        raise ReturnX(v)

    def s_Break(self, s): raise BreakX()
    def s_Continue(self, s): raise ContinueX()

    def s_Switch(self, s):
        if s.get("init"): self.st(s["init"])
        if s.get("cv"): self.declare(s["cv"])
        c = self.rv(self.ev(s["c"]))
        body = s["b"]["b"] if s["b"]["k"] == "Block" else [s["b"]]
        flat = []
        def unroll(x):
            if x["k"] in ("Case", "Default"):
                flat.append(("label", x)); unroll(x["b"])
            else: flat.append(("st", x))
        for x in body: unroll(x)
        start = None
        for i, (k, x) in enumerate(flat):
            if k == "label" and x["k"] == "Case":
                lo = int(x["v"]); cond = eq(c, lo) if "v2" not in x else And(le(lo, c), le(c, int(x["v2"])))
                if self.branch(cond): start = i; break
        if start is None:
            for i, (k, x) in enumerate(flat):
                if k == "label" and x["k"] == "Default": start = i; break
        if start is None: return
        try:
            for k, x in flat[start:]:
                if k == "st": self.st(x)
        except BreakX: pass

    def s_Try(self, s):
        try:
            self.st(s["b"])
        except CxxThrow as t:
            for h in s["h"]:
                if "t" not in h: ok = True
                else:
                    ht = self.unit.ty(self.unit.strip(h["t"]))
                    ok = self.lib.catches(self, self.unit, ht, t)
                if ok:
                    if h.get("var"):
                        self.fr.env[h["var"]["d"]] = t.v if isinstance(t.v, LV) else self.temp(t.v, "exc")
                    self.curexc = getattr(self, "curexc", []) + [t]
                    try: self.st(h["b"])
                    finally: self.curexc = self.curexc[:-1]
                    return
            raise

    def s_For(self, s):
        if s.get("init"): self.st(s["init"])
        self.loop(s, lambda: self.truth(self.rv(self.ev(s["c"]))) if s.get("c") else True, lambda: self.st(s["b"]),
                  (lambda: self.ev(s["inc"])) if s.get("inc") else None)
    def s_While(self, s):
        def cond():
            if s.get("cv"): self.declare(s["cv"])
            return self.truth(self.rv(self.ev(s["c"])))
        self.loop(s, cond, lambda: self.st(s["b"]))
    def s_Do(self, s):
        # do body while(c)  ==  first iteration unconditional
        first = self.temp(True, "first")
        def cond():
            if self.branch(first.get(self)):
                first.set(self, False); return True
            return self.truth(self.rv(self.ev(s["c"])))
        self.loop(s, cond, lambda: self.st(s["b"]))
    def s_ForRange(self, s):
        if s.get("init"): self.st(s["init"])
        r = self.lvof(self.ev(s["range"]), "range")
        var = s["var"]
        def body(elem):
            t = self.unit.ty(var["t"])
            if t["k"] == "ref": self.fr.env[var["d"]] = self.lvof(elem)
            else: self.fr.env[var["d"]] = self.temp(self.copy_in(self.rv(self.coerce(elem, self.unit, var["t"]))), var["n"])
            if "bind" in var:
                v2 = dict(var); 
                base = self.fr.env[var["d"]]; val = base.get(self)
                for i, b in enumerate(var["bind"]):
                    if isinstance(val, Pair): lv = PairLV(base, "ab"[i])
                    elif isinstance(val, (Obj, SymRef)): lv = FieldLV(base, b["e"]["n"])
                    else: raise Unsupported("structured binding")
                    self.fr.env[b["d"]] = lv
                    if "hv" in b: self.fr.env[b["hv"]] = lv
            self.st(s["b"])
        self.iterate(("fr", s["l"], id(s)), r, body, catch=True)

    def truth(self, v):
        v = self.rv(v)
        if isinstance(v, bool): return v
        if isinstance(v, int): return v != 0
        if isz(v):
            if z3.is_bool(v): return v
            if z3.is_int(v): return simp(v != 0)
            if z3.is_fp(v): return simp(z3.Not(z3.fpIsZero(v)))
        if isinstance(v, Ptr): return simp(Not(v.null))
        if isinstance(v, Opt): return v.has
        if isinstance(v, CStr): return True
        raise Unsupported("truth of %r" % (v,))

    # ---- expressions ---------------------------------------------------------------------------
    def ev(self, e):
        m = getattr(self, "e_" + e["k"], None)
        if m is None: raise Unsupported("expression %s at line %s" % (e.get("cls", e["k"]), e.get("l")))
        return m(e)

    def e_Int(self, e): return int(e["v"])
    def e_Bool(self, e): return e["v"]
    def e_Float(self, e):
        return z3.fpBVToFP(z3.BitVecVal(int(e["v"]), 64), z3.Float64()) if False else z3.simplify(z3.fpBVToFP(z3.BitVecVal(int(e["v"]), 64), z3.Float64()))
    def e_Str(self, e): return ConstLV(CStr(Seq.of(e["v"])))
    def e_Null(self, e): return NULL
    def e_This(self, e):
        if self.fr.this is None: raise Unsupported("this")
        return Special("thisptr", self.fr.this)
    def e_Zero(self, e): return self.default_value(self.unit, e["t"])
    def e_Mat(self, e):
        v = self.ev(e["e"])
        return self.lvof(v, "tmp")
    def e_StdInitList(self, e):
        return self.rv(self.ev(e["e"]))
    def e_InitList(self, e):
        ty = self.unit.ty(e["t"])
        if ty["k"] == "rec":
            n = ty["n"]
            if n in self.prog.recs:
                u, c = self.prog.recs[n]
                f = {}
                vals = [self.rv(self.ev(x)) for x in e["inits"]]
                nb = len(c.get("bases", []))
                for v in vals[:nb]:
                    if isinstance(v, Obj): f.update(v.f)
                for fd, v in zip(c["fs"], vals[nb:]): f[fd["n"]] = v
                return Obj(n, f)
            g = self.lib.init_list.get(n)
            if g: return g(self, ty, [self.rv(self.ev(x)) for x in e["inits"]])
        if ty["k"] == "arr":
            vs = [self.rv(self.ev(x)) for x in e["inits"]]
            n = ty.get("n")
            if n is not None and len(vs) < n and e.get("filler") is not None:
                fv = self.rv(self.ev(e["filler"]))
                vs += [fv] * (n - len(vs))
            return Seq.of(vs)
        if not e["inits"]: return self.default_value(self.unit, e["t"])
        if len(e["inits"]) == 1: return self.ev(e["inits"][0])
        raise Unsupported("initialiser list of " + ty["s"])

    def e_Ref(self, e):
        i = e["d"]
        if i in self.fr.env: return self.fr.env[i]
        d = self.decl(i)
        if d["k"] == "fn": return Fn(self.unit, d)
        if d["k"] in ("var", "tpo"): return self.global_var(self.unit, d)
        raise Unsupported("reference to %s" % d.get("q"))

    def global_var(self, unit, d):
        h = self.lib.globals.get(d.get("q"))
        if h: return ConstLV(h(self, unit, d))
        t = unit.ty(d["t"])
        if t["k"] == "rec":
            if t["n"] in self.lib.functors: return ConstLV(Special("functor", t["n"]))
            rec = unit.decls.get(t.get("d"))
            if rec and rec.get("lambda"):
                return ConstLV(Closure(rec["id"], unit, {}, None))
        if "cvi" in d and t["k"] in ("int", "enum"): return ConstLV(int(d["cvi"]))
        if "cvi" in d and t["k"] == "bool": return ConstLV(d["cvi"] != "0")
        if "cvf" in d: return ConstLV(z3.simplify(z3.fpBVToFP(z3.BitVecVal(int(d["cvf"]), 64), z3.Float64())))
        if "init" in d and d["init"] is not None:
            if not (d.get("cx") or t.get("const")): raise Unsupported("mutable global " + d["q"])
            self.frames.append(Frame(unit, {}, None, "global"))
            try: return ConstLV(self.rv(self.ev(d["init"])))
            finally: self.frames.pop()
        if t["k"] == "rec" and t.get("n") in self.prog.recs: return ConstLV(Obj(t["n"], {}))
        if t["k"] == "rec" and t["n"].split("::")[0] in ("ranges", "std", "fmt") and not d.get("in"): return ConstLV(Special("functor", t["n"]))
        # defined in another unit?
        for u in self.prog.units:
            for x in u.decls.values():
                if x["k"] == "var" and x.get("q") == d["q"] and "init" in x and x["init"] is not None and u is not unit:
                    return self.global_var(u, x)
        raise Unsupported("global %s" % d.get("q"))

    def deref(self, p, what="null dereference"):
        if isinstance(p, Special) and p.kind == "thisptr": return p.x
        if isinstance(p, Ptr):
            self.oblige(Not(p.null), "memory-safety: no null dereference")
            if p.cell is None: raise PathEnd()
            if isinstance(p.cell, LV): return p.cell
            return CellLV(p.cell)
        if isinstance(p, Iter): return self.iter_elem(p)
        if isinstance(p, Special) and p.kind == "lvptr": return p.x
        h = self.lib.deref(self, p)
        if h is not NotImplemented: return h
        raise Unsupported("dereference of %r" % (p,))

    def iter_elem(self, it):
        v = it.lv.get(self)
        if isinstance(v, Special) and v.kind == "map":
            return self.lib.map_elem(self, v, it)
        s = self.as_seq(v)
        n = self.seq_len(s)
        i = it.idx if not it.rev else sub(sub(n, 1), it.idx)
        self.oblige(And(le(0, i), lt(i, n)), "memory-safety: iterator in range")
        return ElemLV(it.lv, i)

    def e_Mem(self, e):
        if e["arrow"]:
            b = self.deref(self.rv(self.ev(e["b"])))
        else: b = self.ev(e["b"])
        d = self.decl(e["d"])
        if d["k"] == "fn": return Special("bound", (b, d))
        if d["k"] == "var": return self.global_var(self.unit, d)
        t = d.get("t")
        if t is not None and self.unit.ty(t)["k"] == "ref":
            v = self.field(self.rv(b), e["n"], t, self.unit)
            return v if isinstance(v, LV) else self.lvof(v)
        if not isinstance(b, LV): return self.field(b, e["n"], t, self.unit)
        v = b
        if isinstance(v.get(self) if not isinstance(v, (FieldLV,)) or True else None, Pair):
            return PairLV(b, "a" if e["n"] == "first" else "b")
        return FieldLV(b, e["n"], t, self.unit)

    def e_Cond(self, e):
        c = self.truth(self.rv(self.ev(e["c"])))
        c = simp(c)
        if isz(c):
            # scalar results without effects: build an if-then-else term instead of forking
            ok, a = self.try_pure(e["a"], c)
            if ok:
                ok2, b = self.try_pure(e["b"], Not(c))
                if ok2:
                    a2, b2 = self.rv(a), self.rv(b)
                    if (isboolish(a2) and isboolish(b2)) or (isintish(a2) and isintish(b2)): return simp(If(c, a2, b2))
        return self.ev(e["a"]) if self.branch(c) else self.ev(e["b"])

    def try_pure(self, e, guard):
        """evaluates e under guard without forking or side effects; (ok, value)"""
        g = simp(guard)
        if g is False: return False, None
        snap = (dict(self.store), len(self.facts), set(self.axkeys), self.counter)
        saved_dec, saved_pos = self.dec, self.pos
        self.solver.push()
        self.nofork += 1
        nob = len(self.rep.failures)
        ob = {k: list(v) for k, v in self.rep.oblig.items()}
        self.dec, self.pos = [], 0
        try:
            if g is not True:
                self.add_fact(g)
            v = self.ev(e)
            same = all(self.store.get(k) is x for k, x in snap[0].items())
            v = self.rv(v)
            if not same or not (isboolish(v) or isintish(v)): raise NoFork()
            newf = self.facts[snap[1] + (1 if g is not True else 0):]
            ok = True
        except (NoFork, Unsupported, CxxThrow, PathEnd, Abort):
            ok, v, newf = False, None, []
        finally:
            self.nofork -= 1
            self.solver.pop()
            self.dec, self.pos = saved_dec, saved_pos
            self.store = snap[0]
            del self.facts[snap[1]:]
            self.axkeys = snap[2]
        if not ok:
            del self.rep.failures[nob:]
            self.rep.oblig = ob
            self.counter = snap[3]
            return False, None
        for f in newf:   # facts gathered under the guard remain true under it
            self.add_fact(Implies(g, f))
        return True, v

    def e_Bin(self, e):
        op = e["op"]
        if op == "=":
            l = self.ev(e["a"]) if False else None
            r = self.rv(self.ev(e["b"]))
            l = self.ev(e["a"])
            l.set(self, r)
            return l
        if op == ",":
            self.ev(e["a"]); return self.ev(e["b"])
        if op in ("&&", "||"):
            a = simp(self.truth(self.rv(self.ev(e["a"]))))
            if isinstance(a, bool):
                if op == "&&": return self.truth(self.rv(self.ev(e["b"]))) if a else False
                return True if a else self.truth(self.rv(self.ev(e["b"])))
            ok, b = self.try_pure(e["b"], a if op == "&&" else Not(a))
            if ok:
                b = self.truth(b)
                return simp(And(a, b) if op == "&&" else Or(a, b))
            if op == "&&": return self.truth(self.rv(self.ev(e["b"]))) if self.branch(a) else False
            return True if self.branch(a) else self.truth(self.rv(self.ev(e["b"])))
        if op == ".*" or op == "->*": raise Unsupported("pointer to member")
        a = self.rv(self.ev(e["a"])); b = self.rv(self.ev(e["b"]))
        return self.binop(op, a, b, self.unit.ty(e["t"]), self.unit.ty(e["a"]["t"]), self.unit.ty(e["b"]["t"]))

    def binop(self, op, a, b, ty, ta, tb):
        if op in ("==", "!="):
            if isfp(a) or isfp(b): r = z3.fpEQ(a, b)
            elif isinstance(a, Special) and a.kind == "ord": r = eq(a.x, b.x if isinstance(b, Special) else b)
            else: r = self.veq(a, b)
            return simp(r if op == "==" else Not(r))
        if op in ("<", ">", "<=", ">="):
            if isinstance(a, Iter) and isinstance(b, Iter): a, b = a.idx, b.idx
            if isfp(a): return simp({"<": z3.fpLT, ">": z3.fpGT, "<=": z3.fpLEQ, ">=": z3.fpGEQ}[op](a, b))
            a, b = self.num(a), self.num(b)
            return {"<": lambda: lt(a, b), ">": lambda: lt(b, a), "<=": lambda: le(a, b), ">=": lambda: le(b, a)}[op]()
        if op == "<=>":
            if isfp(a): raise Unsupported("floating three-way comparison")
            a, b = self.num(a), self.num(b)
            return Special("ord", simp(If(lt(a, b), -1, If(lt(b, a), 1, 0))))
        if isinstance(a, Iter) and op in ("+", "-"):
            if isinstance(b, Iter): return sub(a.idx, b.idx)
            return Iter(a.lv, add(a.idx, b) if op == "+" else sub(a.idx, b), a.rev)
        if isinstance(a, CStr) and op == "+":
            s = a.seq; n = self.seq_len(s)
            return CStr(self.seq_slice(s, b, n))
        return self.arith(op, a, b, ty)

    def num(self, a):
        if isboolish(a): return If(a, 1, 0) if isz(a) else int(a)
        return a

    def arith(self, op, a, b, ty):
        if ty["k"] == "float":
            rm = z3.RNE()
            f = {"+": lambda: z3.fpAdd(rm, a, b), "-": lambda: z3.fpSub(rm, a, b), "*": lambda: z3.fpMul(rm, a, b), "/": lambda: z3.fpDiv(rm, a, b)}.get(op)
            if not f: raise Unsupported("float operator " + op)
            return f()
        a, b = self.num(a), self.num(b)
        if getattr(self, "nowrap", False) and op in ("+", "-", "*"):
            # candidate search for a closed form only: wrapping is checked when the form is verified
            return {"+": add, "-": sub, "*": mul}[op](a, b)
        w, sg = ty.get("w", 32), ty.get("sg", True)
        lo, hi = trange(ty) if ty["k"] != "bool" else (0, 1)
        if op == "+": r = add(a, b)
        elif op == "-": r = sub(a, b)
        elif op == "*": r = mul(a, b)
        elif op in ("/", "%"):
            self.oblige(Not(eq(b, 0)), "arithmetic: no division by zero")
            if sg: self.oblige(Not(And(eq(a, lo), eq(b, -1))), "arithmetic: no division overflow")
            ca, cb = cint(a), cint(b)
            if ca is not None and cb is not None:
                q = abs(ca) // abs(cb) * (1 if (ca < 0) == (cb < 0) else -1)
                return q if op == "/" else ca - q * cb
            if self.valid(And(le(0, a), lt(0, b))):
                return simp(iz(a) / iz(b)) if op == "/" else simp(iz(a) % iz(b))
            return cdiv(a, b) if op == "/" else cmod(a, b)
        elif op == "<<":
            self.oblige(And(le(0, b), lt(b, w)), "arithmetic: shift count in range")
            cb = cint(b)
            if cb is not None: r = mul(a, 1 << cb)
            else: r = iz(a) * pow2(b)
            # C++20: left shift is modulo 2^w, also for signed operands
            return self.wrap(r, w, sg)
        elif op == ">>":
            self.oblige(And(le(0, b), lt(b, w)), "arithmetic: shift count in range")
            cb = cint(b)
            if cb is not None:
                ca = cint(a)
                return ca >> cb if ca is not None else simp(iz(a) / z3.IntVal(1 << cb))
            return simp(iz(a) / pow2(b))
        elif op in ("&", "|", "^"):
            ca, cb = cint(a), cint(b)
            if ca is not None and cb is not None: return {"&": ca & cb, "|": ca | cb, "^": ca ^ cb}[op]
            if op == "&":
                for x, y in ((a, b), (b, a)):
                    m = cint(y)
                    if m is not None and m >= 0 and (m & (m + 1)) == 0: return simp(iz(x) % z3.IntVal(m + 1))
                    if m is not None and m > 0 and (m & (m - 1)) == 0: return simp(iz(x) / z3.IntVal(m) % 2 * m)
            if self.valid(And(le(0, a), le(a, 1), le(0, b), le(b, 1))):
                p, q = simp(iz(a) == 1), simp(iz(b) == 1)
                return simp(If({"&": And(p, q), "|": Or(p, q), "^": bz(p) != bz(q)}[op], 1, 0))
            return bitop(op, a, b, w, sg)
        else: raise Unsupported("operator " + op)
        if isinstance(r, int):
            if lo <= r <= hi: return r
            if not sg: return r % TWO(w)
            self.oblige(False, "arithmetic: no signed overflow")
        if sg:
            self.oblige(And(le(lo, r), le(r, hi)), "arithmetic: no signed overflow")
            return r
        if self.valid(And(le(0, r), le(r, hi))): return r
        return simp(iz(r) % z3.IntVal(TWO(w)))

    def coerce(self, a, unit, t):
        """implicit arithmetic conversion of an argument passed by library code"""
        ty = unit.ty(t)
        if ty["k"] == "ref": return a
        v = self.rv(a)
        if ty["k"] in ("int", "enum") and (isintish(v) or isboolish(v)):
            return self.wrap(self.num(v), ty.get("w", 32), ty.get("sg", True))
        if ty["k"] == "bool" and isintish(v): return self.truth(v)
        return a

    def wrap(self, r, w, sg):
        c = cint(r)
        if c is not None:
            c %= TWO(w)
            return c - TWO(w) if sg and c >= TWO(w - 1) else c
        lo, hi = (-TWO(w - 1), TWO(w - 1) - 1) if sg else (0, TWO(w) - 1)
        if self.valid(And(le(lo, r), le(r, hi))): return r
        if not sg:
            if self.valid(And(le(-TWO(w), r), le(r, hi))): return simp(If(lt(r, 0), add(r, TWO(w)), r))
            return simp(iz(r) % z3.IntVal(TWO(w)))
        if self.valid(And(le(-TWO(w), r), le(r, TWO(w) - 1))):
            return simp(If(lt(r, lo), add(r, TWO(w)), If(lt(hi, r), sub(r, TWO(w)), r)))
        return simp((iz(r) + TWO(w - 1)) % TWO(w) - TWO(w - 1))

    def e_CAssign(self, e):
        l = self.ev(e["a"])
        b = self.rv(self.ev(e["b"]))
        a = l.get(self)
        if isinstance(a, Iter):
            v = Iter(a.lv, add(a.idx, b) if e["op"] == "+" else sub(a.idx, b), a.rev)
        else:
            lt_, ct = self.unit.ty(e["a"]["t"]), self.unit.ty(e["ct"])
            x = self.convert(a, lt_, self.unit.ty(e["clt"]))
            if isinstance(a, bool) or isboolish(a): x = self.num(a) if ct["k"] != "float" else x
            r = self.arith(e["op"], x, b, ct)
            v = self.convert(r, ct, lt_)
        l.set(self, v)
        return l

    def convert(self, v, frm, to):
        if to["k"] == "bool": return self.truth(v)
        if to["k"] in ("int", "enum"):
            if frm["k"] == "bool": return simp(If(v, 1, 0)) if isz(v) else int(v)
            if frm["k"] in ("int", "enum"):
                flo, fhi = trange(frm); tlo, thi = trange(to)
                if tlo <= flo and fhi <= thi: return v
                return self.wrap_conv(v, to, frm)
            if frm["k"] == "float":
                return self.lib.float_to_int(self, v, to)
        if to["k"] == "float":
            if frm["k"] == "bool": return z3.If(bz(v), z3.FPVal(1.0, z3.Float64()), z3.FPVal(0.0, z3.Float64()))
            if frm["k"] in ("int", "enum"): return self.lib.int_to_float(self, v)
            return v
        return v

    def wrap_conv(self, v, to, frm):
        w, sg = to.get("w", 32), to.get("sg", True)
        c = cint(v)
        if c is not None: return self.wrap(c, w, sg)
        flo, fhi = trange(frm)
        tlo, thi = trange(to)
        if not sg and flo >= -TWO(w) and fhi <= thi:
            if self.valid(le(0, v)): return v
            return simp(If(lt(v, 0), add(v, TWO(w)), v))
        return self.wrap(v, w, sg)

    def e_Un(self, e):
        op = e["op"]
        if op in ("++", "--"):
            l = self.ev(e["e"])
            a = l.get(self)
            if isinstance(a, Iter): v = Iter(a.lv, add(a.idx, 1) if op == "++" else sub(a.idx, 1), a.rev)
            elif isfp(a): v = z3.fpAdd(z3.RNE(), a, z3.FPVal(1.0 if op == "++" else -1.0, z3.Float64()))
            else:
                ty = self.unit.ty(e["e"]["t"])
                pty = ty if ty.get("w", 32) >= 32 else {"k": "int", "w": 32, "sg": True}
                r = self.arith("+" if op == "++" else "-", a, 1, pty)
                v = r if getattr(self, "nowrap", False) else self.convert(r, pty, ty)
            l.set(self, v)
            return a if e["post"] else l
        if op == "&":
            x = self.ev(e["e"])
            if isinstance(x, Fn): return x
            if isinstance(x, CellLV): return Ptr(x.cell, False)
            return Special("lvptr", x)
        if op == "*":
            v = self.rv(self.ev(e["e"]))
            if isinstance(v, CStr): return ElemLV(ConstLV(v.seq), 0)
            return self.deref(v)
        v = self.rv(self.ev(e["e"]))
        ty = self.unit.ty(e["t"])
        if op == "!": return simp(Not(self.truth(v)))
        if op == "-":
            if isfp(v): return z3.fpNeg(v)
            if ty.get("sg", True): return self.arith("-", 0, v, ty)
            return self.wrap(sub(0, v), ty["w"], False)
        if op == "+": return v
        if op == "~":
            v = self.num(v)
            return sub(sub(0, v), 1) if ty.get("sg", True) else sub(TWO(ty["w"]) - 1, v)
        raise Unsupported("unary " + op)

    def e_Cast(self, e):
        ck = e["ck"]
        if ck == "LValueToRValue":
            x = self.ev(e["e"])
            if not isinstance(x, LV): return x
            v = x.get(self)
            return v
        if ck in ("NoOp", "ConstructorConversion", "FunctionToPointerDecay", "BuiltinFnToFnPtr", "LValueBitCast", "BitCast"):
            if ck == "BitCast": raise Unsupported("reinterpreting cast")
            return self.ev(e["e"])
        if ck == "UserDefinedConversion":
            return self.ev(e["e"])
        if ck in ("UncheckedDerivedToBase", "DerivedToBase"):
            x = self.ev(e["e"])
            ty = self.unit.ty(e["t"])
            if ty["k"] == "ptr":
                return x if not isinstance(x, Ptr) else x
            n = ty.get("n")
            v = self.rv(x)
            if isinstance(v, (Obj, SymRef)) and n not in self.prog.recs and n not in self.lib.transparent_bases and v.cls != n:
                return FieldLV(self.lvof(x), "#" + n)
            return x
        if ck == "BaseToDerived": return self.ev(e["e"])
        if ck == "ToVoid": self.ev(e["e"]); return VOID
        if ck == "ArrayToPointerDecay":
            x = self.ev(e["e"])
            v = self.rv(x)
            if isinstance(v, CStr): return v
            if isinstance(v, Seq): return Iter(self.lvof(x), 0)
            raise Unsupported("array decay of %r" % (v,))
        if ck == "NullToPointer": self.ev(e["e"]); return NULL
        if ck in ("PointerToBoolean", "IntegralToBoolean", "FloatingToBoolean"):
            return self.truth(self.rv(self.ev(e["e"])))
        if ck in ("IntegralCast", "IntegralToFloating", "FloatingToIntegral", "FloatingCast", "BooleanToSignedIntegral"):
            v = self.rv(self.ev(e["e"]))
            return self.convert(v, self.unit.ty(e["e"]["t"]), self.unit.ty(e["t"]))
        if ck == "Dynamic":
            h = self.lib.dynamic_cast
            return h(self, self.ev(e["e"]), self.unit.ty(e["t"]))
        raise Unsupported("cast " + ck)

    def e_Idx(self, e):
        a = self.ev(e["a"]); i = self.rv(self.ev(e["b"]))
        v = self.rv(a)
        if isinstance(v, CStr): return ElemLV(ConstLV(v.seq), i)
        if isinstance(v, Iter): return self.iter_elem(Iter(v.lv, add(v.idx, i), v.rev))
        raise Unsupported("subscript")

    def args_of(self, e): return [self.ev(a) for a in e["args"]]

    def e_MCall(self, e):
        if "fn" not in e: raise Unsupported("indirect member call")
        d = self.decl(e["fn"])
        b = self.ev(e["b"])
        if e.get("arrow"):
            this = self.deref(self.rv(b))
        else: this = self.lvof(b)
        args = self.args_of(e)
        if d.get("static"): this = None
        return self.call_method(self.unit, d, this, args, e)

    def call_method(self, unit, d, this, args, e=None):
        if d.get("virt") and e is not None and not e.get("qual"):
            v = this.get(self) if this is not None else None
            if isinstance(v, Obj) and v.cls != unit.decls[d["cls"]]["q"]:
                r = self.override_of(v.cls, d)
                if r: return self.call_fn(r[0], r[1], this, args, e)
        return self.call_fn(unit, d, this, args, e)

    def override_of(self, cls, d):
        seen = set()
        def go(c):
            if c in seen or c not in self.prog.recs: return None
            seen.add(c)
            u, rec = self.prog.recs[c]
            for (uu, x) in self.prog.byq.get(c + "::" + d["n"], []):
                if len(x["ps"]) == len(d["ps"]) and [uu.ty(p["t"])["s"] for p in x["ps"]] == [self.unit.ty(p["t"])["s"] for p in d["ps"]]: return (uu, x)
            for b in rec.get("bases", []):
                r = go(u.ty(b).get("n"))
                if r: return r
            return None
        return go(cls)

    def e_OpCall(self, e):
        if "fn" not in e: raise Unsupported("indirect operator call")
        d = self.decl(e["fn"])
        args = self.args_of(e)
        if e.get("mem"):
            this = self.lvof(args[0])
            q = d["q"]
            if d.get("op") == "()":
                v = this.get(self)
                if isinstance(v, Closure):
                    cl = v
                    env = {k: lv for k, (lv, _) in cl.env.items()}
                    dd = d if d.get("body") is not None else self.pick_overload(cl.unit, [cl.unit.decls[o] for o in cl.unit.decls[cl.cls]["ops"]], args[1:])
                    return self.run_function(cl.unit, dd, cl.this, args[1:], env)
            return self.call_method(self.unit, d, this, args[1:], e)
        return self.call_fn(self.unit, d, None, args, e)

    def e_Call(self, e):
        if "fn" in e:
            d = self.decl(e["fn"])
            return self.call_fn(self.unit, d, None, self.args_of(e), e)
        c = self.rv(self.ev(e["callee"]))
        return self.call_closure(c, self.args_of(e))

    def e_Ctor(self, e):
        d = self.decl(e["fn"])
        cls = self.decl(d["cls"])
        args = self.args_of(e)
        ty = self.unit.ty(e["t"])
        if d.get("cc") or d.get("mc"):
            if d.get("body") is None or d.get("dflt"):
                return self.copy_in(self.rv(args[0]))
        h = self.lib.ctors.get(cls["q"])
        if h:
            r = h(self, self.unit, d, ty, args, e)
            if r is not NotImplemented:
                self.rep.models.add(cls["q"] + "::(ctor)"); return r
        if cls.get("lambda"): return self.rv(args[0])
        c = self.contracts.get(d["q"])
        if c is not None and self.under != self.unit.sig(d):
            r = c(self, self.unit, d, None, args)
            if r is not NotImplemented:
                self.rep.contracts_used.add(d["q"]); return r
        return self.construct(self.unit, d, e["t"], args)

    def e_Lambda(self, e):
        env = {}
        this = None
        for c in e["caps"]:
            if c.get("this"):
                this = self.fr.this; continue
            if c["ref"] and not c.get("init"): env[c["d"]] = (self.fr.env[c["d"]] if c["d"] in self.fr.env else self.ev(c["e"]), True)
            else:
                x = self.ev(c["e"])
                if c["ref"]: env[c["d"]] = (self.lvof(x), True)
                else: env[c["d"]] = (self.temp(self.copy_in(self.rv(x)), c.get("n", "cap")), False)
        return Closure(e["cls"], self.unit, env, this)

    def e_Throw(self, e):
        if e.get("e") is None:
            raise self.curexc[-1]
        v = self.rv(self.ev(e["e"]))
        ty = self.unit.ty(e["e"]["t"])
        cls = v.cls if isinstance(v, (Obj, SymRef)) else ty.get("n", ty["s"])
        raise CxxThrow(self.temp(v, "exc"), ty.get("n", cls))

    def e_StmtExpr(self, e):
        self.st(e["s"]); return VOID

    def e_New(self, e):
        if e.get("array"): raise Unsupported("array new")
        v = self.rv(self.ev(e["e"])) if e.get("e") else self.default_value(self.unit, e["at"])
        return Ptr(self.newcell(v, "heap"), False, v.cls if isinstance(v, Obj) else None)

def cell_value(ex, cell): return ex.store[cell.key]
def isfp(v): return isz(v) and z3.is_fp(v)
def isintish(v): return (isinstance(v, int) and not isinstance(v, bool)) or (isz(v) and z3.is_int(v))

def pow2(b):
    f = z3.Function("pow2", z3.IntSort(), z3.IntSort())
    return f(iz(b))
def cdiv(a, b):
    a, b = iz(a), iz(b)
    q = z3.If(a >= 0, a, -a) / z3.If(b >= 0, b, -b)
    return simp(z3.If((a < 0) == (b < 0), q, -q))
def cmod(a, b):
    a, b = iz(a), iz(b)
    r = z3.If(a >= 0, a, -a) % z3.If(b >= 0, b, -b)
    return simp(z3.If(a < 0, -r, r))
def bitop(op, a, b, w, sg):
    f = z3.Function({"&": "bv_and", "|": "bv_or", "^": "bv_xor"}[op] + ("s" if sg else "u") + str(w), z3.IntSort(), z3.IntSort(), z3.IntSort())
    return f(iz(a), iz(b))
