"""Contracts for src/version.cpp and version.hpp (C07, C08)."""
import z3, os
from engine.vals import *
from engine.core import *
from engine.prove import *
from engine.unit import VERIF

V = "cqasm::version::Version"
DRV = os.path.join(VERIF, "specs", "drivers")
I64 = (1 << 63) - 1

def load():
    p = Program()
    p.load("src/version.cpp", standin=True)
    p.load(os.path.join(DRV, "version_driver.cpp"), standin=True, extra_roots=(DRV,))
    return p

def is_string_ctor(u, d):
    return len(d["ps"]) == 1 and u.ty(u.strip(d["ps"][0]["t"])).get("n") == "std::basic_string"

def slice_of(ex, v):
    """(lo, hi, ok) of the text slice a component was parsed from; None if the value is something else"""
    v = simp(v)
    if not isz(v) or not z3.is_app(v): return None
    n = v.decl().name()
    if not n.startswith("strtol.val:text"): return None
    a = v.children()
    return simp(a[-2]), simp(a[-1]), ex.uf("strtol.ok:" + n[11:], a, z3.BoolSort())

def parse_spec(v):
    unit, d = v.prog.find(V + "::(ctor)", is_string_ctor)
    def mk(ex, valid):
        s = ex.sym_string("text"); ex.inputs["text"] = s
        b = s.atoms[0].base; n = ex.seq_len(s)
        if valid:
            # precondition of the second contract: every maximal dot-free part is a number that fits
            lo, hi = z3.Ints("lo hi")
            w = z3.Function("dot_inside", z3.IntSort(), z3.IntSort(), z3.IntSort())(lo, hi)     # Skolem function of "contains a dot"
            at = lambda x: b.elem(ex, x)
            part = z3.And(lo >= 0, lo <= hi, hi <= n, z3.Or(lo == 0, at(lo - 1) == 46), z3.Or(hi == n, at(hi) == 46),
                          z3.Not(z3.And(lo <= w, w < hi, at(w) == 46)))
            ok = ex.uf("strtol.ok:text", [lo, hi], z3.BoolSort()); val = ex.uf("strtol.val:text", [lo, hi], z3.IntSort())
            ex.add_fact(z3.ForAll([lo, hi], z3.Implies(part, z3.And(lo < hi, ok, val >= 0, val <= I64)), patterns=[ok, val]))
        this = ex.temp(Obj(V, {}), "version")
        return this, [ex.temp(s)], (s, b, n)
    def at(ex, S, j):
        e = ex.seq_at(S, j)      # one case at a time
        while z3.is_expr(e) and z3.is_app_of(e, z3.Z3_OP_ITE): e = e.arg(1) if ex.branch(e.arg(0)) else e.arg(2)
        return e
    def comps(ex, r):
        return ex.as_seq(ex.rv(r))
    def post(ex, r, c):
        s, b, n = c
        S = comps(ex, r); N = ex.seq_len(S)
        if ex.branch(eq(n, 0)):
            ex.oblige(eq(N, 0), "Version(text): the empty text gives the empty version"); return
        ex.oblige(lt(0, N), "Version(text): a non-empty text has at least one component")
        j = ex.fresh_int("j", 0, MAXLEN); ex.assume(lt(j, N))
        e = at(ex, S, j)
        p = slice_of(ex, e)
        if p is None:
            lv = ex.rv(e)
            raise Unsupported("component is not a parsed part of the text: %s" % (str(e)[:80],))
        lo, hi, ok = p
        ex.oblige(ok, "Version(text): a component that does not begin with a number is rejected")
        ex.oblige(le(0, e), "Version(text): a negative component is rejected")
        ex.oblige(le(e, I64), "Version(text): a component fits its type")
        ex.oblige(Implies(eq(j, 0), eq(lo, 0)), "Version(text): the first component starts at the start of the text")
        i = z3.Int("i!part")
        ex.oblige(And(le(0, lo), le(lo, hi), le(hi, n)), "Version(text): a component is a part of the text")
        ex.oblige(Implies(And(le(lo, i), lt(i, hi)), Not(eq(b.elem(ex, i), 46))), "Version(text): a component contains no dot")
        if ex.branch(eq(add(j, 1), N)): ex.oblige(eq(hi, n), "Version(text): the last component reaches the end of the text")
        else:
            ex.oblige(And(lt(hi, n), eq(b.elem(ex, hi), 46)), "Version(text): a component ends at a dot")
            q = slice_of(ex, at(ex, S, add(j, 1)))
            if q is None: raise Unsupported("component is not a parsed part of the text")
            ex.oblige(eq(q[0], add(hi, 1)), "Version(text): the next component starts behind the dot")
    def thr(ex, t, c): ex.record("Version(text): rejected with an exception")
    v.contract("Version(text): components", unit, d, lambda ex: mk(ex, False), post, lambda ex, t, c: None)
    def thr2(ex, t, c): ex.oblige(False, "Version(text): a dotted text of numbers that fit is accepted")
    v.contract("Version(text): accepts every dotted list of numbers that fit", unit, d, lambda ex: mk(ex, True), lambda ex, r, c: ex.oblige(True, "Version(text): accepted"), thr2)
    # Version(const char*) is Version(string)
    unit, d = v.prog.find(V + "::(ctor)", lambda u, d: len(d["ps"]) == 1 and not is_string_ctor(u, d))
    def setup3(ex):
        c = mk(ex, False)
        return c[0], [CStr(c[2][0], True)], c[2]
    v.contract("Version(const char*): components", unit, d, setup3, post, lambda ex, t, c: None)

def version(ex, n):
    s = ex.sym_list(n, (), lambda e, nm, a: e.sym_int(nm, a, -I64 - 1, I64))
    ex.inputs[n] = s
    return Obj(V, {"#std::vector": s}), s

def print_spec(v):
    unit, d = v.prog.find("cqasm::version::operator<<")
    def setup(ex):
        o, s = version(ex, "version")
        pre = ex.sym_string("pre"); os = ex.lib.new_ostream(ex, pre)
        return None, [os, ex.temp(o)], (os, pre, s)
    def post(ex, r, c):
        os, pre, s = c
        n = ex.seq_len(s)
        want = pre
        if ex.branch(lt(0, n)):
            want = want + ex.lib.dec_seq(ex, ex.seq_at(s, 0)) + fold(ex, n, lambda k: [(True, Seq.lit(".") + ex.lib.dec_seq(ex, ex.seq_at(s, k)))], 1)
        ex.prove_seq_eq(ex.lib.ostream_text(ex, os), want, "operator<<: the components in decimal, joined with dots")
    v.contract("operator<<(ostream, Version)", unit, d, setup, post)

def run_C07(v): parse_spec(v); print_spec(v)

def sgn(ex, A, B, fd, M):
    a, b = A(fd), B(fd)
    return simp(If(eq(fd, M), 0, If(lt(a, b), -1, 1)))

def two(ex):
    a, sa = version(ex, "a"); b, sb = version(ex, "b")
    na, nb = ex.seq_len(sa), ex.seq_len(sb)
    ea = lambda i: simp(If(lt(i, na), sa.atoms[0].base.elem(ex, i), 0))
    eb = lambda i: simp(If(lt(i, nb), sb.atoms[0].base.elem(ex, i), 0))
    M = simp(If(lt(na, nb), nb, na))
    fd = z3.Int("fd")              # ghost: first position at which the padded versions differ, or M
    i = z3.Int("i")
    ex.add_fact(And(le(0, fd), le(fd, M)))
    pa = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < fd), bz(eq(ea(i), eb(i)))))
    ex.add_fact(pa)
    ex.add_fact(Implies(lt(fd, M), Not(eq(ea(fd), eb(fd)))))
    spec = simp(If(eq(fd, M), 0, If(lt(ea(fd), eb(fd)), -1, 1)))
    return a, b, spec

def compare_spec(v):
    unit, d = v.prog.find(V + "::compare")
    def setup(ex):
        a, b, spec = two(ex)
        return ex.temp(a, "a"), [ex.temp(b, "b")], spec
    def post(ex, r, spec): ex.oblige(eq(ex.rv(r), spec), "compare: sign of the first difference, missing components counting as zero")
    v.contract("Version::compare", unit, d, setup, post)

def op_spec(v):
    for fn, rel, txt in (("eq", lambda s: eq(s, 0), "== exactly if no component differs"), ("ne", lambda s: Not(eq(s, 0)), "!= exactly if a component differs"),
                         ("lt", lambda s: lt(s, 0), "< exactly if the first difference is smaller"), ("le", lambda s: le(s, 0), "<= exactly if not greater"),
                         ("gt", lambda s: lt(0, s), "> exactly if the first difference is greater"), ("ge", lambda s: le(0, s), ">= exactly if not smaller")):
        unit, d = v.prog.find("verif::ver_" + fn)
        def setup(ex):
            a, b, spec = two(ex)
            return None, [ex.temp(a), ex.temp(b)], spec
        def post(ex, r, spec, rel=rel, txt=txt): ex.oblige(simp(bz(ex.truth(ex.rv(r))) == bz(rel(spec))), "Version " + txt)
        v.contract("Version operator " + fn, unit, d, setup, post)
    unit, d = v.prog.find("verif::ver_default")
    v.contract("Version()", unit, d, lambda ex: (None, [], None), lambda ex, r, c: ex.oblige(ex.empty(ex.as_seq(ex.rv(r))), "Version(): no components"))

def order_lemmas(v):
    """the relation decided by the first difference of zero-padded sequences is a total order"""
    F = {n: z3.Function("seq_" + n, z3.IntSort(), z3.IntSort()) for n in "abc"}
    N = {n: z3.Int("len_" + n) for n in "abc"}
    i = z3.Int("i")
    at = lambda n, k: z3.If(k < N[n], F[n](k), 0)
    ax = [N[n] >= 0 for n in "abc"]
    def cmp(x, y):
        fd = z3.Int("fd_" + x + y); M = z3.If(N[x] < N[y], N[y], N[x])
        ax.extend([fd >= 0, fd <= M, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < fd), at(x, i) == at(y, i)), patterns=[F[x](i), F[y](i)]),
                   z3.Implies(fd < M, at(x, fd) != at(y, fd))])
        # the choice of M does not matter: beyond both lengths the padded versions agree
        return z3.If(fd == M, 0, z3.If(at(x, fd) < at(y, fd), -1, 1))
    ab, ba, bc, ac, aa = cmp("a", "b"), cmp("b", "a"), cmp("b", "c"), cmp("a", "c"), cmp("a", "a")
    v.lemma("comparison is reflexive", aa == 0, *ax)
    v.lemma("comparison is antisymmetric and total", ab == -ba, *ax)
    v.lemma("comparison is transitive", z3.Implies(z3.And(ab <= 0, bc <= 0), z3.And(ac <= 0, z3.Implies(z3.Or(ab < 0, bc < 0), ac < 0))), *ax)

def run_C08(v): compare_spec(v); op_spec(v); order_lemmas(v)
