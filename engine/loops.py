"""Loop summaries.  A loop is summarised by an invariant synthesised from its own body: every
modified location is a function of the iteration number k (closed form, fold over the iterations,
or an uninterpreted recurrence with its defining equation), checked to be inductive, and the
obligations of the body are discharged once for an arbitrary k."""
import z3, re
from .vals import *
from .core import *

class LoopDone(Exception): pass
class NeedPeel(Exception): pass
class ReadAccumulator(Unsupported): pass

UNROLL = 600

def leaves(v, path=()):
    """scalar / sequence components of a value"""
    if isinstance(v, Obj):
        for n, x in v.f.items(): yield from leaves(x, path + (("f", n),))
    elif isinstance(v, Pair):
        yield from leaves(v.a, path + (("p", "a"),)); yield from leaves(v.b, path + (("p", "b"),))
    elif isinstance(v, Opt) and v.v is not None:
        yield path + (("o", "has"),), v.has
        yield from leaves(v.v, path + (("o", "v"),))
    elif isinstance(v, Iter):
        yield path + (("i", "idx"),), v.idx
    else:
        yield path, v

def get_leaf(v, path):
    for k, n in path:
        if k == "f":
            if not isinstance(v, Obj) or n not in v.f: raise KeyError(n)
            v = v.f[n]
        elif k == "p":
            if not isinstance(v, Pair): raise KeyError(n)
            v = getattr(v, n)
        elif k == "o":
            if not isinstance(v, Opt): raise KeyError(n)
            v = getattr(v, n)
        elif k == "i":
            if not isinstance(v, Iter): raise KeyError(n)
            v = v.idx
    return v

def set_leaf(v, path, x):
    if not path: return x
    (k, n), rest = path[0], path[1:]
    if k == "f": return v.with_(n, set_leaf(v.f[n], rest, x))
    if k == "p": return Pair(set_leaf(v.a, rest, x), v.b) if n == "a" else Pair(v.a, set_leaf(v.b, rest, x))
    if k == "o": return Opt(x, v.v) if n == "has" else Opt(v.has, set_leaf(v.v, rest, x))
    if k == "i": return Iter(v.lv, x, v.rev)
    raise KeyError(k)

def isint(v): return (isinstance(v, int) and not isinstance(v, bool)) or (isz(v) and z3.is_int(v))

def same_value(a, b):
    if a is b: return True
    try: return type(a) is type(b) and repr(a) == repr(b)
    except Exception: return False

class Leaf:
    __slots__ = ("cell", "path", "v0", "kind", "ph", "closed", "name", "rec", "mode")
    def __init__(self, cell, path, v0):
        self.cell, self.path, self.v0 = cell, path, v0
        self.ph = None; self.closed = None; self.rec = None; self.mode = 0
        self.kind = "int" if isint(v0) else "bool" if isboolish(v0) else "seq" if isinstance(v0, Seq) else "opaque"

class AtomLV(LV):
    """element of the iterated range; reads go to the known atom while the container is unchanged"""
    __slots__ = ("lv", "seq", "i", "val")
    def __init__(self, lv, seq, i, val): self.lv, self.seq, self.i, self.val = lv, seq, i, val
    def get(self, ex):
        if self.lv.get(ex) is self.seq: return self.val
        return ex.seq_at(ex.as_seq(self.lv.get(ex)), self.i)
    def set(self, ex, v):
        s = ex.as_seq(self.lv.get(ex))
        self.lv.set(ex, ex.seq_set(s, self.i, v))

class LoopMixin:
    ctypes = {}

    def peek(self, cond):
        """value of the loop condition if it is a constant now (state restored)"""
        snap = (self.store, len(self.facts), set(self.axkeys), self.counter, self.dec, self.pos, self.lossy)
        self.store = dict(self.store)
        fe = [(f, dict(f.env)) for f in self.frames]
        nf = len(self.rep.failures); ob = {k: list(v) for k, v in self.rep.oblig.items()}
        self.solver.push(); self.nofork += 1; self.quiet += 1
        self.dec, self.pos = [], 0
        try:
            c = simp(cond())
            if not isinstance(c, bool): c = None
        except (NoFork, PathEnd, Unsupported, CxxThrow, Abort):
            c = None
        finally:
            self.quiet -= 1; self.nofork -= 1; self.solver.pop()
            self.store = snap[0]; del self.facts[snap[1]:]; self.axkeys = snap[2]; self.counter = snap[3]
            self.dec, self.pos = snap[4], snap[5]; self.lossy = snap[6]
            for f, e in fe: f.env = e
            del self.rep.failures[nf:]; self.rep.oblig = ob
        return c

    def loop(self, node, cond, body, inc=None):
        def once():
            if not self.branch(simp(cond())): raise LoopDone()
            try: body()
            except ContinueX: pass
            if inc: inc()
        n = peels = 0
        while True:
            c = self.peek(cond)
            if c is not None:
                n += 1
                if n > UNROLL: raise Unsupported("loop with more than %d concrete iterations" % UNROLL)
                try: once()
                except (LoopDone, BreakX): return
                continue
            if self.nofork: raise NoFork()
            try:
                self.run_summary(once, None)
                return
            except BreakX: return
            except NeedPeel:
                peels += 1
                if peels > 2: raise Unsupported("loop: no invariant found")
                try: once()
                except (LoopDone, BreakX): return

    def iterate(self, key, range_lv, body, catch=True):
        """body(element lvalue) for each element of the range"""
        v = range_lv.get(self)
        if isinstance(v, View) or (isinstance(v, Special) and not isinstance(v, Seq)) or isinstance(v, (Pair,)):
            h = self.lib.iterate(self, v, range_lv, body, key)
            if h is not NotImplemented: return
        s = self.as_seq(v)
        if isinstance(v, (Obj, SymRef)):
            # class derived from a container
            nm = next((k for k in getattr(v, "f", {}) if k.startswith("#")), None)
            if nm is None:
                u, d = self.prog.recs[v.cls]
                nm = "#" + next(u.ty(b)["n"] for b in d["bases"] if u.ty(b).get("n") in ("std::vector", "std::basic_string"))
            range_lv = FieldLV(range_lv, nm)
            s = range_lv.get(self)
        def call(el):
            try: body(el)
            except ContinueX: pass
        off = 0
        try:
            for a in s.atoms:
                if isinstance(a, U):
                    call(AtomLV(range_lv, s, off, a.v)); off = add(off, 1); continue
                if isinstance(a, FO) and any(len(p.atoms) != 1 or not isinstance(p.atoms[0], U) for _, p in a.cases):
                    # nested: each fold step contributes a concrete number of units
                    if all(p.concrete() is not None for _, p in a.cases) and not a.rev:
                        self.iterate_fold(a, call, off); off = add(off, self.atom_len_or_fresh(a)); continue
                    raise Unsupported("iteration over a fold")
                n = self.atom_len(a)
                if self.nofork: raise NoFork()
                pos = self.temp(0, "it")
                base = off
                def once(a=a, n=n, pos=pos, base=base):
                    p = pos.get(self)
                    if not self.branch(lt(p, n)): raise LoopDone()
                    val = self.seq_at(Seq([a]), p)
                    call(AtomLV(range_lv, s, add(base, p), val))
                    pos.set(self, add(p, 1))
                peels = 0
                while True:
                    try:
                        self.run_summary(once, (pos, n)); break
                    except NeedPeel:
                        peels += 1
                        if peels > 2: raise Unsupported("loop: no invariant found")
                        try: once()
                        except LoopDone: break
                off = add(off, n)
        except BreakX:
            if not catch: raise

    def atom_len_or_fresh(self, a):
        try: return self.atom_len(a)
        except Unsupported: return self.fresh_int("len", 0, MAXLEN)

    def iterate_fold(self, a, call, off):
        pos = self.temp(0, "it")
        n = sub(a.hi, a.lo)
        def once():
            p = pos.get(self)
            if not self.branch(lt(p, n)): raise LoopDone()
            pr = [(a.kv, iz(add(a.lo, p)))]
            cs = [(subst(c, pr), subst(q, pr)) for c, q in a.cases]
            pick = None
            for c, q in cs[:-1]:
                if self.branch(c): pick = q; break
            if pick is None: self.assume(cs[-1][0]); pick = cs[-1][1]
            for u in pick.atoms: call(ConstLV(u.v))
            pos.set(self, add(p, 1))
        self.run_summary(once, (pos, n))

    # ---- summaries -----------------------------------------------------------------------------
    def run_summary(self, once, counted):
        key = ("loop", self.ctxkey, tuple(d[0] for d in self.dec[:self.pos]), self.counter, bool(self.quiet))
        if key in self.memo:
            s, cnt = self.memo[key]
            if s is None: raise NeedPeel()
            if isinstance(s, Exception): raise s
        else:
            try: s = self.summarise(once, counted)
            except NeedPeel:
                self.memo[key] = (None, self.counter); raise
            except Unsupported as u:
                self.memo[key] = (u, self.counter); raise
            cnt = self.counter
            self.memo[key] = (s, cnt)
        self.counter = max(self.counter, cnt)
        self.finish(s, once, counted)

    def one_iteration(self, once, setup):
        """explores one iteration; [(kind, facts, store, lossy)]"""
        def run():
            setup()
            self._mark = len(self.facts)
            m = len(self.facts)
            try: once(); kind = "cont"
            except LoopDone: kind = "done"
            except BreakX: kind = "break"
            except ReturnX: kind = "ret"
            except CxxThrow: kind = "throw"
            return kind, m
        out = []
        base = len(self.facts)
        for (kind, m), facts, store, lossy in self.explore(run):
            out.append((kind, facts[m - base:], store, lossy))
        return out

    def summarise(self, once, counted):
        uid = self.fresh_id()
        k = z3.Int("k!%d" % uid)
        S0 = dict(self.store)
        leafs = {}         # (cellkey,path) -> Leaf
        modcells = set()
        self.ghosts.append(k)
        self.quiet += 1
        self.loopstack.append(uid)
        oldnw = getattr(self, "nowrap", False)
        outer_lossy = self.lossy
        try:
            def place(leaf):
                if leaf.closed is not None: return leaf.closed(k)
                if leaf.ph is None:
                    nm = "ph!%d!%s%s" % (uid, leaf.cell, "".join("." + str(n) for _, n in leaf.path))
                    leaf.name = nm
                    if leaf.kind == "int": leaf.ph = z3.Int(nm)
                    elif leaf.kind == "bool": leaf.ph = z3.Bool(nm)
                    elif leaf.kind == "seq":
                        ln = z3.Int(nm + ".len")
                        isints = any(isint(a.v) if isinstance(a, U) else isinstance(a, SL) and isint(a.base.elem(self, 0)) for a in leaf.v0.atoms[:1])
                        def bad(_, i, nm=nm, isints=isints):
                            if isints: return z3.Function(nm + ".at", z3.IntSort(), z3.IntSort())(iz(i))
                            raise ReadAccumulator("read of an accumulator inside the loop")
                        b = Base(nm, (), ln, bad); b.ph = True
                        leaf.ph = Seq([SL(b, 0, ln)])
                    else: leaf.ph = leaf.v0
                if leaf.kind == "seq" and leaf.mode == 1:   # in-place update of element k
                    n = self.seq_len(leaf.v0)
                    b = leaf.ph.atoms[0].base
                    return Seq(norm((SL(b, 0, k),))) + self.seq_slice_nf(leaf.v0, k, n)
                return leaf.ph
            def state(final=False):
                for ck in modcells:
                    v = S0[ck]
                    for (c2, p), lf in leafs.items():
                        if c2 == ck: v = set_leaf(v, p, place(lf))
                    self.store[ck] = v
                self.add_fact(k >= 0)
                for lf in leafs.values():
                    if lf.closed is None and lf.kind == "int" and not lf.path and lf.cell in self.ctypes:
                        lo, hi = self.ctypes[lf.cell]
                        self.add_fact(z3.And(lf.ph >= lo, lf.ph <= hi))
                    if lf.closed is None and lf.kind == "seq":
                        ln = lf.ph.atoms[0].base.length
                        self.add_fact(z3.And(ln >= 0, ln <= MAXLEN))
                        if lf.mode == 0:
                            try: self.add_fact(ln >= iz(self.seq_len(lf.v0)))   # append-only; checked when the form is accepted
                            except Unsupported: pass
                        else: self.add_fact(ln == k)
                    if lf.rec is not None and lf.cell in self.ctypes and not lf.path and lf.kind == "int":
                        lo, hi = self.ctypes[lf.cell]
                        t = lf.closed(k)
                        self.add_fact(z3.And(t >= lo, t <= hi))
                if counted is not None:
                    pos, n = counted
                    self.add_fact(le(k, n) if True else True)
                for inv in invs: self.add_fact(inv(k))
            invs = []
            guard = 0
            final = None
            while True:
                guard += 1
                if guard > 24: raise Unsupported("loop: summary did not stabilise")
                unsolved = [l for l in leafs.values() if l.closed is None]
                self.nowrap = bool(unsolved)
                try: paths = self.one_iteration(once, state)
                except ReadAccumulator:
                    acc = [l for l in unsolved if l.kind == "seq" and l.mode == 0]
                    if not acc:
                        # indexed by a counter whose form is not known yet: guess it (checked to be inductive below)
                        ints = [l for l in unsolved if l.kind == "int" and l.rec is None]
                        if not ints: raise
                        for l in ints: l.closed = lambda kk, l=l: add(l.v0, kk)
                        continue
                    for l in acc: l.mode = 1
                    continue
                finally: self.nowrap = oldnw
                conts = [p for p in paths if p[0] == "cont"]
                new = False
                for kind, facts, store, lossy in conts:
                    for ck in store:
                        if ck not in S0 and not re.search(r"#\d+$", ck): raise Unsupported("loop writes to " + ck)
                    for ck, v0 in S0.items():
                        v1 = store.get(ck)
                        if ck in modcells:
                            continue
                        if not same_value(v1, v0):
                            modcells.add(ck); new = True
                            for p, lv in leaves(v0):
                                lf = Leaf(ck, p, lv)
                                leafs[(ck, p)] = lf
                                self.make_const(lf)
                # locations assumed unchanged that do change
                for lf in list(leafs.values()):
                    if lf.mode != -1: continue
                    for kind, facts, store, lossy in conts:
                        try: v1 = get_leaf(store[lf.cell], lf.path)
                        except KeyError: raise Unsupported("loop: shape of %s changes" % lf.cell)
                        if same_value(v1, lf.v0): continue
                        if lf.kind in ("int", "bool") and (isint(v1) or isboolish(v1)):
                            g = eq(v1, lf.v0) if lf.kind == "int" else simp(bz(v1) == bz(lf.v0))
                            if g is True or (not isinstance(g, bool) and self.check(k >= 0, *facts, Not(g))[0] == z3.unsat): continue
                        lf.mode = 0; lf.closed = None; new = True
                        break
                if new:
                    for lf in leafs.values():
                        if lf.mode != -1: lf.closed = None; lf.rec = None
                    continue
                if not unsolved:
                    # verify inductiveness; demote failing closed forms to recurrences
                    bad = self.check_inductive(leafs, conts, k)
                    if bad:
                        for lf in bad:
                            if lf.kind in ("int", "bool"): self.make_rec(lf, uid, k)
                            else: raise Unsupported("loop: inductive step not established")
                        continue
                    final = paths
                    break
                phn = set(l.name for l in unsolved) | set(l.name + x for l in unsolved for x in (".len", ".at"))
                # values after one iteration
                progress = False
                for lf in unsolved:
                    others = phn
                    try: outs = [(facts, self.freeze(get_leaf(store[lf.cell], lf.path), store, S0)) for _, facts, store, _ in conts]
                    except KeyError: raise Unsupported("loop: shape of %s changes" % lf.cell)
                    if self.solve_leaf(lf, outs, others, k): progress = True
                if progress: continue
                # nothing closed: integers and flags become recurrences
                rec = [l for l in unsolved if l.kind in ("int", "bool")]
                if rec:
                    for l in rec: self.make_rec(l, uid, k)
                    continue
                seqs = [l for l in unsolved if l.kind == "seq"]
                nxt = [l for l in seqs if l.mode == 0]
                done = False
                for l in nxt:
                    if len(l.v0.atoms) == 1 and isinstance(l.v0.atoms[0], (SL, FO)):
                        l.mode = 1; done = True
                if done: continue
                peel_dep = any(occurs(f, phn) for _, facts, _, _ in conts for f in facts)
                if peel_dep: raise NeedPeel()
                raise Unsupported("loop: no closed form for %s" % [l.cell for l in unsolved])
            conts = [p for p in final if p[0] == "cont"]
            # candidate integer invariants
            cands = self.candidates(conts, leafs, k, S0)
            cands = self.houdini(cands, once, state, leafs, k, invs)
            if cands:
                invs.extend(cands)
                final = self.one_iteration(once, state)
                conts = [p for p in final if p[0] == "cont"]
            recs = [l for l in leafs.values() if l.rec is not None]
            disj = []
            common = None
            for _, facts, store, _ in conts:
                fs = [f for f in facts if not self.is_axiom(f)]
                for l in recs:
                    v1 = get_leaf(store[l.cell], l.path)
                    t = l.closed(k + 1)
                    fs.append(simp(bz(t) == bz(v1)) if l.kind == "bool" else eq(t, v1))
                disj.append(fs)
                ks = {str(f): f for f in fs}
                common = ks if common is None else {a: b for a, b in common.items() if a in ks}
            exits = [p[0] for p in final if p[0] != "cont"]
            simple = not recs and all(x == "done" for x in exits)
            if not conts: C = False
            elif simple: C = And(*[f for f in common.values()])
            else: C = Or(*[And(*[f for f in fs if f is not True]) for fs in disj])
            lossy = any(p[3] for p in final)
            # for a counted loop without early exits the number of iterations is the length
            exact = counted is not None and simple
            summ = dict(k=k, leafs=leafs, mod=modcells, S0=S0, C=C, invs=invs, recs=recs, simple=simple, exact=exact, lossy=lossy)
            self.quiet -= 1
            try:
                if not self.quiet:
                    def st2():
                        state()
                        self.ground(summ, k)
                    self.one_iteration(once, st2)
            finally:
                self.quiet += 1
            return summ
        finally:
            self.nowrap = oldnw
            self.quiet -= 1
            self.ghosts.pop()
            self.loopstack.pop()

    def seq_slice_nf(self, s, lo, hi):
        a = s.atoms[0]
        if len(s.atoms) != 1: raise Unsupported("in-place loop over a composite sequence")
        if isinstance(a, SL): return Seq(norm((SL(a.base, add(a.lo, lo), add(a.lo, hi)),)))
        if isinstance(a, FO): return Seq((FO(a.kv, a.cases, add(a.lo, lo), add(a.lo, hi)),))
        raise Unsupported("in-place loop")

    def make_const(self, lf):
        lf.mode = -1
        lf.closed = lambda kk: lf.v0

    def make_rec(self, lf, uid, k):
        g = self.ghosts[:-1]
        nm = "rec!%d!%s%s" % (uid, lf.cell, "".join("." + str(n) for _, n in lf.path))
        sort = z3.IntSort() if lf.kind == "int" else z3.BoolSort()
        lf.rec = nm
        lf.closed = lambda kk: self.uf(nm, g + [kk], sort)

    def solve_leaf(self, lf, outs, phn, k):
        if not outs:
            lf.closed = lambda kk: lf.v0
            return True
        if lf.kind == "opaque":
            if all(same_value(v, lf.v0) for _, v in outs):
                lf.closed = lambda kk: lf.v0; return True
            raise Unsupported("loop modifies %r" % (lf.v0,))
        if all(same_value(v, lf.ph) for _, v in outs):
            lf.closed = lambda kk: lf.v0
            return True
        if lf.kind == "int":
            ds = []
            for _, v in outs:
                if not isint(v): raise Unsupported("loop: type change of %s" % lf.cell)
                ds.append(sub(v, lf.ph))
            if len(set(str(d) for d in ds)) == 1:
                d = ds[0]
                if not occurs(d, phn) and not occurs(d, {str(k)}):
                    lf.closed = lambda kk: add(lf.v0, mul(d, kk))
                    return True
                v = outs[0][1]
                if not occurs(v, phn):
                    lf.closed = lambda kk: simp(If(eq(kk, 0), lf.v0, subst(v, [(k, iz(sub(kk, 1)))])))
                    return True
            vs = [v for _, v in outs]
            if len(set(str(v) for v in vs)) == 1 and not occurs(vs[0], phn):
                v = vs[0]
                lf.closed = lambda kk: simp(If(eq(kk, 0), lf.v0, subst(v, [(k, iz(sub(kk, 1)))])))
                return True
            return False
        if lf.kind == "bool":
            ts, fs = [], []
            for facts, v in outs:
                cond = And(*[f for f in facts if not self.is_axiom(f)])
                if occurs(cond, phn - {lf.name}): return False
                t1 = simp(z3.substitute(bz(v), (lf.ph, z3.BoolVal(True)))) if isz(v) else v
                f1 = simp(z3.substitute(bz(v), (lf.ph, z3.BoolVal(False)))) if isz(v) else v
                if occurs(t1, phn) or occurs(f1, phn): return False
                if occurs(cond, {lf.name}): return False
                ts.append((cond, t1)); fs.append((cond, f1))
            j = z3.Int("j!%d" % self.fresh_id())
            if all(f is False for _, f in fs):
                body = And(*[Implies(c, t) for c, t in ts])
                lf.closed = lambda kk: simp(And(lf.v0, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < iz(kk)), bz(subst(body, [(k, j)]))))))
                return True
            if all(t is True for _, t in ts):
                body = Or(*[And(c, f) for c, f in fs])
                lf.closed = lambda kk: simp(Or(lf.v0, z3.Exists([j], z3.And(j >= 0, j < iz(kk), bz(subst(body, [(k, j)]))))))
                return True
            return False
        if lf.kind == "seq":
            phb = lf.ph.atoms[0].base
            cases, side = [], None
            for facts, v in outs:
                if not isinstance(v, Seq): raise Unsupported("loop: type change of %s" % lf.cell)
                at = v.atoms
                if lf.mode == 1:
                    n = self.seq_len(lf.v0)
                    rest = self.seq_slice_nf(lf.v0, add(k, 1), n)
                    def known(f):
                        f = simp(f)
                        return f if isinstance(f, bool) else self.check(k >= 0, *facts, Not(f))[0] == z3.unsat
                    at2 = norm(at)
                    if at2 and isinstance(at2[0], SL) and at2[0].base is phb and at2[0].lo == 0 and known(eq(at2[0].hi, k)): at2 = at2[1:]
                    elif not known(le(k, 0)): return False
                    if at2 and isinstance(at2[0], U): pc, at2 = at2[0], at2[1:]
                    else:
                        r0 = self.seq_slice_nf(lf.v0, k, n)
                        if repr(Seq(norm(at2))) != repr(r0): return False
                        pc, at2 = U(self.seq_at(lf.v0, k)), rest.atoms
                    if not (repr(Seq(norm(at2))) == repr(rest) or (not at2 and known(le(n, add(k, 1))))): return False
                    piece, sd = Seq([pc]), "app"
                elif at and isinstance(at[0], SL) and at[0].base is phb and at[0].lo == 0 and str(at[0].hi) == str(phb.length):
                    piece, sd = Seq(at[1:]), "app"
                elif at and isinstance(at[-1], SL) and at[-1].base is phb and at[-1].lo == 0 and str(at[-1].hi) == str(phb.length):
                    piece, sd = Seq(at[:-1]), "pre"
                else: return False
                if not piece.atoms: sd = None
                elif side is None: side = sd
                elif side != sd: return False
                if occurs(piece, phn): return False
                cond = And(*[f for f in facts if not self.is_axiom(f)])
                if occurs(cond, phn): return False
                cases.append((cond, piece))
            merged = []
            for c, p in cases:
                for m in merged:
                    if repr(m[1]) == repr(p): m[0] = Or(m[0], c); break
                else: merged.append([c, p])
            if len(merged) == 1: merged[0][0] = True
            kv = z3.Int("kv!%d" % self.fresh_id())
            cs = [(subst(c, [(k, kv)]), subst(p, [(k, kv)])) for c, p in merged]
            if lf.mode == 1:
                n = self.seq_len(lf.v0)
                lf.closed = lambda kk: Seq([FO(kv, cs, 0, kk)]) + self.seq_slice_nf(lf.v0, kk, n)
            elif side == "pre":
                lf.closed = lambda kk: Seq([FO(kv, cs, 0, kk, True)]) + lf.v0
            else:
                lf.closed = lambda kk: lf.v0 + Seq([FO(kv, cs, 0, kk)])
            return True
        return False

    def is_axiom(self, f):
        return isz(f) and f.get_id() in self.axterms

    def check_inductive(self, leafs, conts, k):
        bad = []
        for lf in leafs.values():
            if lf.rec is not None or lf.mode == -1 or lf.kind not in ("int", "bool"): continue
            want = lf.closed(add(k, 1))
            for _, facts, store, _ in conts:
                v1 = get_leaf(store[lf.cell], lf.path)
                g = eq(v1, want) if lf.kind == "int" else simp(bz(v1) == bz(want))
                if g is True: continue
                r, _ = self.check(k >= 0, *facts, Not(g))
                if r != z3.unsat:
                    bad.append(lf); break
        return bad

    def candidates(self, conts, leafs, k, S0):
        """candidate invariants over integers: bounds for recurrences, and a <= b for loops ending at a == b"""
        out = []
        seen = set()
        def addc(f, s):
            if s not in seen:
                seen.add(s); out.append(f)
        for _, facts, store, _ in conts:
            for f in facts:
                g = f
                if z3.is_not(g) and z3.is_eq(g.arg(0)) and z3.is_int(g.arg(0).arg(0)):
                    a, b = g.arg(0).arg(0), g.arg(0).arg(1)
                    for x, y in ((a, b), (b, a)):
                        addc(lambda kk, x=x, y=y: subst(le(x, y), [(k, iz(kk))]), "%s<=%s" % (x, y))
        recs = [l for l in leafs.values() if l.rec is not None and l.kind == "int"]
        lens = []
        for v in S0.values():
            if isinstance(v, Seq) and len(v.atoms) == 1 and isinstance(v.atoms[0], SL):
                lens.append(v.atoms[0].base.length)
            if isinstance(v, SymRef): pass
        for l in recs:
            addc(lambda kk, l=l: le(l.v0, l.closed(kk)), "%s>=v0" % l.rec)
            addc(lambda kk, l=l: le(0, l.closed(kk)), "%s>=0" % l.rec)
            for n in {str(x): x for x in lens}.values():
                addc(lambda kk, l=l, n=n: le(l.closed(kk), n), "%s<=%s" % (l.rec, n))
            addc(lambda kk, l=l: le(add(l.v0, kk), l.closed(kk)), "%s>=v0+k" % l.rec)
        return out

    def houdini(self, cands, once, state, leafs, k, invs):
        if not cands: return []
        # initial: recurrences equal their initial value at 0
        def init_facts():
            return [eq(l.closed(0), l.v0) if l.kind == "int" else simp(bz(l.closed(0)) == bz(l.v0)) for l in leafs.values() if l.rec is not None]
        cur = []
        for c in cands:
            g = simp(c(0))
            if g is True: cur.append(c); continue
            if g is False: continue
            r, _ = self.check(*init_facts(), Not(g))
            if r == z3.unsat: cur.append(c)
        while cur:
            base = list(invs)
            invs.extend(cur)
            try: paths = [p for p in self.one_iteration(once, state) if p[0] == "cont"]
            finally: del invs[len(base):]
            keep = []
            for c in cur:
                ok = True
                for _, facts, store, _ in paths:
                    steps = []
                    for l in leafs.values():
                        if l.rec is not None:
                            v1 = get_leaf(store[l.cell], l.path)
                            steps.append(eq(l.closed(add(k, 1)), v1) if l.kind == "int" else simp(bz(l.closed(add(k, 1))) == bz(v1)))
                    g = simp(c(add(k, 1)))
                    if g is True: continue
                    r, _ = self.check(k >= 0, *[d(k) for d in cur], *facts, *steps, *([z3.BoolVal(False)] if g is False and False else []), Not(g))
                    if r != z3.unsat: ok = False; break
                if ok: keep.append(c)
            if len(keep) == len(cur): return keep
            cur = keep
        return []

    def ground(self, summ, K):
        """facts about the state before iteration K: all earlier iterations continued"""
        k = summ["k"]
        for l in summ["recs"]:
            z = l.closed(0)
            self.add_fact(eq(z, l.v0) if l.kind == "int" else simp(bz(z) == bz(l.v0)))
            if l.kind == "int" and not l.path and l.cell in self.ctypes:
                lo, hi = self.ctypes[l.cell]
                t = l.closed(K)
                self.add_fact(z3.And(t >= lo, t <= hi))
        for inv in summ["invs"]: self.add_fact(inv(K))
        C = summ["C"]
        if C is True: return
        if C is False:
            self.add_fact(eq(K, 0)); return
        self.add_fact(Implies(lt(0, K), subst(C, [(k, iz(sub(K, 1)))])))
        if summ["exact"]: return
        j = z3.Int("j!%d" % self.fresh_id())
        Cj = bz(subst(C, [(k, j)]))
        if summ["simple"]:
            r, _ = self.check(j >= 0, lt(j, K), subst(C, [(k, iz(sub(K, 1)))]), Not(Cj))
            if r == z3.unsat: return
        q = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < iz(K)), Cj))
        self.add_fact(q)

    def finish(self, summ, once, counted):
        uid = self.fresh_id()
        leafs = summ["leafs"]
        if summ["lossy"]: self.lossy = True
        if summ["exact"]:
            # K is the length of the range
            pos, n = counted
            K = n
            for ck in summ["mod"]:
                v = self.store[ck]
                for (c2, p), lf in leafs.items():
                    if c2 == ck: v = set_leaf(v, p, lf.closed(K))
                self.store[ck] = v
            for inv in summ["invs"]: self.add_fact(inv(K))
            return
        if summ["recs"]: self.note_lossy("loop state defined by a recurrence")
        K = self.fresh_int("K", 0, 1 << 64)
        for ck in summ["mod"]:
            v = self.store[ck]
            for (c2, p), lf in leafs.items():
                if c2 == ck: v = set_leaf(v, p, lf.closed(K))
            self.store[ck] = v
        if counted is not None: self.add_fact(le(K, counted[1]))
        self.ground(summ, K)
        self.quiet += 1
        try:
            try: once()
            finally: self.quiet -= 1
        except LoopDone: return
        raise PathEnd()
