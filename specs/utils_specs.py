"""Contracts for src/utils.cpp (C01-C04)."""
import z3
from engine.vals import *
from engine.core import *
from engine.prove import *

UT = "cqasm::utils::"
def load():
    p = Program(); p.load("src/utils.cpp"); return p

def str_arg(ex, name="s"):
    s = ex.sym_string(name)
    ex.inputs[name] = s
    lv = ex.temp(s, name)
    return s, lv

def base_of(s): return s.atoms[0].base
def at(ex, s, i): return base_of(s).elem(ex, i)

def hexd(d, up): return If(le(d, 9), add(d, 48), add(d, 55 if up else 87))

def hexseq(v, n, up):
    return [U(simp(hexd(simp(iz(v) / z3.IntVal(16 ** i) % 16), up))) for i in reversed(range(n))]

# --- C01
def json_special(u): return Or(eq(u, 34), eq(u, 92), le(u, 31))
def json_encode_spec(v):
    prog = v.prog
    unit, d = prog.find(UT + "json_encode")
    def setup(ex):
        s, lv = str_arg(ex)
        return None, [lv], s
    def spec(ex, s, up):
        def f(i):
            c = at(ex, s, i); u = byte(c)
            return [(json_special(u), Seq([U(92), U(117)] + hexseq(u, 4, up))), (Not(json_special(u)), Seq([U(c)]))]
        return fold(ex, base_of(s).length, f)
    def post(ex, r, s):
        res = ex.as_seq(ex.rv(r))
        ok, why = ex.align(res, spec(ex, s, True))
        if ok is not True:
            ok2, _ = ex.align(res, spec(ex, s, False))
            if ok2 is True: ok = True
        ex.record(ok, "json_encode: result is the concatenation of JSON-safe pieces, one per byte, each decoding to its byte", why)
        ex.oblige(ex.veq(lv_val(ex, "s"), s), "json_encode: argument unchanged")
    v.contract("json_encode", unit, d, setup, post)
    # lemmas: the specified piece decodes to its byte and starts unambiguously
    c = z3.Int("c"); dom = [c >= -128, c <= 127]
    u = byte(c)
    dig = [x.v for x in hexseq(u, 4, True)]
    val = lambda h: If(And(le(48, h), le(h, 57)), sub(h, 48), sub(h, 55))
    v.lemma("escape piece decodes to its byte", Implies(json_special(u), eq(add(add(mul(4096, val(dig[0])), mul(256, val(dig[1]))), add(mul(16, val(dig[2])), val(dig[3]))), u)), *dom)
    v.lemma("escape digits are hexadecimal digits", And(*[Or(And(le(48, x), le(x, 57)), And(le(65, x), le(x, 70))) for x in dig]), *dom)
    v.lemma("unescaped byte is no quote, backslash or control character", Implies(Not(json_special(u)), And(Not(eq(c, 34)), Not(eq(c, 92)), Or(lt(c, 0), lt(31, c)))), *dom)

def lv_val(ex, name):
    return ex.inputs[name]

def url_encode_spec(v):
    unit, d = v.prog.find(UT + "url_encode")
    def setup(ex):
        s, lv = str_arg(ex)
        return None, [lv], s
    keep = lambda u: Or(And(le(48, u), le(u, 57)), And(le(65, u), le(u, 90)), And(le(97, u), le(u, 122)), eq(u, 45), eq(u, 95), eq(u, 46), eq(u, 126))
    def post(ex, r, s):
        def f(i):
            c = at(ex, s, i); u = byte(c)
            return [(keep(u), Seq([U(c)])), (Not(keep(u)), Seq([U(37)] + hexseq(u, 2, True)))]
        ex.prove_seq_eq(ex.as_seq(ex.rv(r)), fold(ex, base_of(s).length, f), "url_encode: each byte is kept if unreserved and otherwise becomes %HH")
    v.contract("url_encode", unit, d, setup, post)
    c = z3.Int("c"); dom = [c >= -128, c <= 127]; u = byte(c)
    dig = [x.v for x in hexseq(u, 2, True)]
    val = lambda h: If(And(le(48, h), le(h, 57)), sub(h, 48), sub(h, 55))
    v.lemma("%HH decodes to its byte", eq(add(mul(16, val(dig[0])), val(dig[1])), u), *dom)
    v.lemma("percent sign is always escaped (decoding is unambiguous)", Implies(eq(u, 37), Not(keep(u))), *dom)
    v.lemma("HH are upper-case hexadecimal digits", And(*[Or(And(le(48, x), le(x, 57)), And(le(65, x), le(x, 70))) for x in dig]), *dom)

def lower(u): return If(And(le(65, u), le(u, 90)), add(u, 32), u)
def tochar(u): return If(le(u, 127), u, sub(u, 256))
def to_lowercase_spec(v):
    unit, d = v.prog.find(UT + "to_lowercase")
    def setup(ex):
        s, lv = str_arg(ex); return None, [lv], s
    def post(ex, r, s):
        def f(i): return [(True, Seq([U(simp(tochar(lower(byte(at(ex, s, i))))))]))]
        ex.prove_seq_eq(ex.as_seq(ex.rv(r)), fold(ex, base_of(s).length, f), "to_lowercase: every byte folded, others kept, same length")
    v.contract("to_lowercase", unit, d, setup, post)
    c = z3.Int("c"); dom = [c >= 0, c <= 255]
    v.lemma("folding is idempotent", eq(lower(lower(c)), lower(c)), *dom)
    v.lemma("folding changes exactly A..Z", eq(lower(c), If(And(le(65, c), le(c, 90)), add(c, 32), c)), *dom)

def equal_ci_spec(v):
    unit, d = v.prog.find(UT + "equal_case_insensitive")
    def setup(ex):
        a, la = str_arg(ex, "a"); b, lb = str_arg(ex, "b")
        return None, [la, lb], (a, b)
    def post(ex, r, ab):
        a, b = ab
        na, nb = base_of(a).length, base_of(b).length
        j = z3.Int("j!spec")
        same = And(eq(na, nb), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < iz(na)), bz(eq(lower(byte(at(ex, a, j))), lower(byte(at(ex, b, j))))))))
        rr = simp(ex.truth(ex.rv(r)))
        # the two implications separately: easier for the solver
        if rr is not False: ex.oblige(Implies(rr, same), "equal_case_insensitive: true only if lengths and folded bytes agree")
        if rr is not True: ex.oblige(Implies(same, rr), "equal_case_insensitive: false only if they differ")
    v.contract("equal_case_insensitive", unit, d, setup, post)

def triple_spec(v):
    unit, d = v.prog.find(UT + "remove_triple_quotes")
    def setup(ex):
        t = ex.sym_string("t"); ex.inputs["t"] = t
        q = Seq([U(39)] * 3)
        return None, [ex.temp(q + t + q, "str")], t
    def post(ex, r, t):
        ex.prove_seq_eq(ex.as_seq(ex.rv(r)), t, "remove_triple_quotes(''' ++ t ++ ''') == t")
    v.contract("remove_triple_quotes", unit, d, setup, post)

def run_C01(v): json_encode_spec(v)
def run_C02(v): url_encode_spec(v)
def run_C03(v): to_lowercase_spec(v); equal_ci_spec(v)
def run_C04(v): triple_spec(v)
