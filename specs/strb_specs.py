"""Contracts for src/string_builder.cpp (C12)."""
import z3, os
from engine.vals import *
from engine.core import *
from engine.prove import *

B = "cqasm::syntactic::StringBuilder"
ESCAPES = {"\\t": "\t", "\\n": "\n", "\\r": "\r", "\\'": "'", '\\"': '"', "\\\\": "\\"}

def load():
    p = Program()
    p.load("src/string_builder.cpp", standin=True)
    return p

def builder(ex):
    pre = ex.sym_string("built")
    st = ex.lib.new_ostream(ex, pre).get(ex)
    return ex.temp(Obj(B, {"stream": st}), "builder"), pre

def out(ex, b): return ex.lib.ostream_text(ex, FieldLV(b, "stream"))

def run_C12(v):
    unit, d = v.prog.find(B + "::push_string")
    def setup(ex):
        b, pre = builder(ex); s = ex.sym_string("fragment"); ex.inputs["fragment"] = s
        return b, [ex.temp(s)], (b, pre, s)
    v.contract("push_string", unit, d, setup, lambda ex, r, c: ex.prove_seq_eq(out(ex, c[0]), c[1] + c[2], "push_string: appends the fragment verbatim"))
    unit, d = v.prog.find(B + "::push_escape")
    for e, m in ESCAPES.items():
        def setup(ex, e=e):
            b, pre = builder(ex)
            return b, [ex.temp(Seq.lit(e))], (b, pre)
        v.contract("push_escape(%r)" % e, unit, d, setup, lambda ex, r, c, m=m, e=e: ex.prove_seq_eq(out(ex, c[0]), c[1] + Seq.lit(m), "push_escape: %r becomes its one character" % e))
    # every text of any length that is not one of the six
    def setup2(ex):
        b, pre = builder(ex); s = ex.sym_string("escape"); ex.inputs["escape"] = s
        base = s.atoms[0].base; n = ex.seq_len(s)
        known = Or(*[eq(base.elem(ex, 1), ord(e[1])) for e in ESCAPES])
        ex.add_fact(Not(And(eq(n, 2), eq(base.elem(ex, 0), 92), known)))
        return b, [ex.temp(s)], (b, pre, s)
    v.contract("push_escape(other)", unit, d, setup2, lambda ex, r, c: ex.prove_seq_eq(out(ex, c[0]), c[1] + c[2], "push_escape: any other text is kept as it is"))
