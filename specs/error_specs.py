"""Contracts for src/error.cpp and error.hpp (C09, C10)."""
import z3, os
from engine.vals import *
from engine.core import *
from engine.prove import *
from engine.unit import VERIF
from specs import annot_specs as AS

E = "cqasm::error::Error"
A = AS.A
DRV = os.path.join(VERIF, "specs", "drivers")
PLACEHOLDER = "<unknown error message>"

def load():
    p = Program()
    p.load("src/error.cpp", standin=True)
    p.load("src/annotations.cpp", standin=True)
    return p

def opaque(name):
    def c(ex, unit, d, this, args):
        s = ex.as_seq(ex.rv(args[0]))
        # the proved contract: a function of the text, empty exactly for the empty text
        n = ex.sym_int("%s.len!%d" % (name, ex.fresh_id()), ex.ghosts, 0, MAXLEN)
        ex.add_fact(simp(bz(eq(n, 0)) == bz(ex.empty(s))))
        return Seq([OP(name, [s], n)])
    return c

def loc_key(ex, lv):
    """everything a location holds, in a form two locations can be compared in"""
    fn = AS.fld(ex, lv, "file_name")
    rg = FieldLV(lv, "range")
    return fn, AS.rd(ex, rg, "first"), AS.rd(ex, rg, "last")

def loc_print(ex, lv):
    fn, f, l = loc_key(ex, lv)
    has = ex.branch(bz(fn.has)) if fn.v is not None else False
    n = ex.sym_int("locprint.len!%d" % ex.fresh_id(), ex.ghosts, 1, MAXLEN)
    return Seq([OP("locprint", [ex.as_seq(fn.v) if has else Seq(), 1 if has else 0, f[0], f[1], l[0], l[1]], n)])

def print_contract(ex, unit, d, this, args):
    """operator<<(ostream, SourceLocation): proved under C06"""
    if len(d["ps"]) != 2 or unit.ty(unit.strip(d["ps"][1]["t"])).get("n") != A: return NotImplemented
    os_ = ex.lvof(args[0])
    return ex.lib.os_write(ex, os_, loc_print(ex, ex.lvof(args[1])))

CONTRACTS = {"cqasm::utils::json_encode": opaque("json_encode"), "cqasm::utils::url_encode": opaque("url_encode"), "cqasm::annotations::operator<<": print_contract}

def same_loc(ex, lv, key, label):
    fn, f, l = loc_key(ex, lv)
    wf, w1, w2 = key
    ex.oblige(And(AS.eq2(f, w1), AS.eq2(l, w2)), label + ": range kept")
    ex.oblige(simp(bz(fn.has) == bz(wf.has)), label + ": file name known exactly if it was")
    if wf.v is not None and fn.v is not None and ex.branch(And(wf.has, fn.has)): ex.prove_seq_eq(ex.as_seq(fn.v), ex.as_seq(wf.v), label + ": file name kept")

def sym_node(ex):
    """an arbitrary node, annotated or not"""
    return CellLV(Cell("node", (), "tree::annotatable::Annotatable"))

def node_loc(ex, node):
    from engine.lib_tree import loc_of
    return loc_of(ex, node.get(ex))

def msg_is(ex, e, m, label):
    got = ex.as_seq(AS.fld(ex, e, "message_"))
    if ex.branch(ex.empty(m)): ex.prove_seq_eq(got, Seq.lit(PLACEHOLDER), label + ": placeholder for an empty message")
    else: ex.prove_seq_eq(got, m, label + ": exactly the given message")

def has_loc(ex, e): return AS.fld(ex, e, "location_")

def check_attached(ex, e, node, label):
    """location_ is the annotation of node, or none if it has none"""
    p = has_loc(ex, e)
    if node is None: ex.oblige(p.null, label + ": no location without a node"); return
    ann = node_loc(ex, node)
    ex.oblige(simp(bz(p.null) == bz(ann.null)), label + ": has a location exactly if the node has one")
    if p.cell is not None and ex.branch(Not(p.null)):
        same_loc(ex, CellLV(p.cell), loc_key(ex, CellLV(ann.cell)), label)
        ex.oblige(p.cell.key != ann.cell.key, label + ": a copy, not affected by later changes of the node")

def ctors(v):
    find = lambda pred: v.prog.find(E + "::(ctor)", lambda u, d: pred([u.ty(u.strip(p["t"])) for p in d["ps"]]) and not d.get("cc") and not d.get("mc"))
    # message, node
    unit, d = find(lambda t: len(t) == 2 and t[1]["k"] == "ptr")
    for null in (True, False):
        def setup(ex, null=null):
            m = ex.sym_string("message"); ex.inputs["message"] = m
            node = sym_node(ex)
            return ex.temp(Obj(E, {}), "error"), [m, NULL if null else Ptr(node.cell, False, node.cell.cls)], (m, None if null else node)
        def post(ex, r, c):
            msg_is(ex, r, c[0], "Error(message, node)")
            check_attached(ex, r, c[1], "Error(message, node)")
        v.contract("Error(message, %s)" % ("null" if null else "node"), unit, d, setup, post)
    # message, shared location
    unit, d = find(lambda t: len(t) == 2 and t[1].get("n") == "std::shared_ptr")
    def setup2(ex):
        m = ex.sym_string("message"); ex.inputs["message"] = m
        p = Ptr(Cell("location", (), A), ex.fresh_bool("noloc"), A)
        return ex.temp(Obj(E, {}), "error"), [m, p], (m, p)
    def post2(ex, r, c):
        m, p = c
        msg_is(ex, r, m, "Error(message, location)")
        q = has_loc(ex, r)
        ex.oblige(simp(bz(q.null) == bz(p.null)), "Error(message, location): has a location exactly if one is given")
        if q.cell is not None and ex.branch(Not(q.null)): same_loc(ex, CellLV(q.cell), loc_key(ex, CellLV(p.cell)), "Error(message, location)")
    v.contract("Error(message, location)", unit, d, setup2, post2)
    # message, file name, range
    unit, d = find(lambda t: len(t) == 3)
    def setup3(ex):
        m = ex.sym_string("message"); ex.inputs["message"] = m
        has = ex.fresh_bool("has_name"); s = ex.sym_string("name")
        r, (f, l) = AS.rng(ex, "range")
        return ex.temp(Obj(E, {}), "error"), [m, Opt(has, s), ex.temp(r)], (m, has, s, f, l)
    def post3(ex, r, c):
        m, has, s, f, l = c
        msg_is(ex, r, m, "Error(message, file, range)")
        p = has_loc(ex, r)
        ex.oblige(Not(p.null), "Error(message, file, range): has a location")
        if p.cell is None: return
        fn, gf, gl = loc_key(ex, CellLV(p.cell))
        ex.oblige(And(AS.eq2(gf, f), AS.eq2(gl, l)), "Error(message, file, range): range kept")
        known = And(has, Not(ex.empty(s)))
        ex.oblige(simp(bz(fn.has) == bz(known)), "Error(message, file, range): file name known exactly if a non-empty one is given")
        if fn.v is not None and ex.branch(known): ex.prove_seq_eq(ex.as_seq(fn.v), s, "Error(message, file, range): file name kept")
    v.contract("Error(message, file, range)", unit, d, setup3, post3)

def sym_error(ex, name="error", invariant=True):
    cell = Cell(name, (), E)
    lv = CellLV(cell)
    m = ex.as_seq(AS.fld(ex, lv, "message_")); ex.inputs["message"] = m
    if invariant: ex.add_fact(Not(ex.empty(m)))           # established by every constructor
    p = AS.fld(ex, lv, "location_")
    return lv, m, p

def context(v):
    unit, d = v.prog.find(E + "::context")
    def setup(ex):
        lv, m, p = sym_error(ex)
        node = sym_node(ex)
        ann = node_loc(ex, node)
        return lv, [node], (lv, m, p, node, ann)
    def post(ex, r, c):
        lv, m, p, node, ann = c
        ex.prove_seq_eq(ex.as_seq(AS.fld(ex, lv, "message_")), m, "context: message unchanged")
        q = has_loc(ex, lv)
        if ex.branch(Not(p.null)):
            ex.oblige(Not(q.null), "context: an existing location is kept")
            if q.cell is not None: same_loc(ex, CellLV(q.cell), loc_key(ex, CellLV(Cell(p.cell.name, p.cell.args, A))), "context: an existing location is kept")
        else: check_attached(ex, lv, node, "context: attaches the node's location if there was none")
        n2 = node_loc(ex, node)
        ex.oblige(simp(bz(n2.null) == bz(ann.null)), "context: the node keeps its annotation")
    v.contract("Error::context", unit, d, setup, post)
    # the location survives any sequence of further contexts: context is the identity on a located error (inductive step above)

def what_text(ex, m, p):
    if ex.branch(p.null): return Seq.lit("Error: ") + m
    return Seq.lit("Error at ") + loc_print(ex, CellLV(p.cell)) + Seq.lit(": ") + m

def what(v):
    unit, d = v.prog.find(E + "::what")
    def setup(ex):
        lv, m, p = sym_error(ex)
        return lv, [], (lv, m, p)
    def post(ex, r, c):
        lv, m, p = c
        x = ex.rv(r)
        ex.prove_seq_eq(x.seq if isinstance(x, CStr) else ex.as_seq(x), what_text(ex, m, p), "what: prefix, location if any, exactly the message")
        ex.prove_seq_eq(ex.as_seq(AS.fld(ex, lv, "message_")), m, "what: message unchanged")
        q = has_loc(ex, lv)
        ex.oblige(simp(bz(q.null) == bz(p.null)), "what: location unchanged")
    v.contract("Error::what", unit, d, setup, post)
    unit, d = v.prog.find("cqasm::error::operator<<")
    def setup2(ex):
        lv, m, p = sym_error(ex)
        j = z3.Int("j!nul"); b = m.atoms[0].base
        ex.add_fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < iz(b.length)), iz(b.elem(ex, j)) != 0)))   # what() is a C string
        pre = ex.sym_string("pre"); os_ = ex.lib.new_ostream(ex, pre)
        return None, [os_, lv], (lv, m, p, pre, os_)
    def post2(ex, r, c):
        lv, m, p, pre, os_ = c
        ex.prove_seq_eq(ex.lib.ostream_text(ex, os_), pre + what_text(ex, m, p), "operator<<: prints what()")
    v.contract("operator<<(ostream, Error)", unit, d, setup2, post2)

def run_C09(v):
    v.contracts = dict(CONTRACTS)
    ctors(v); context(v); what(v)

# ---- C10: structure of the JSON text -----------------------------------------------------------
class Bad(Exception): pass
class JS:
    """JSON parser over a sequence of characters and opaque pieces"""
    SAFE = ("json_encode", "url_encode", "dec")
    def __init__(self, ex, seq):
        self.t = []
        self.ex = ex
        for a in norm(seq.atoms):
            if isinstance(a, U):
                c = cint(a.v)
                if c is None: raise Unsupported("symbolic character in JSON text")
                self.t.append(chr(c & 255))
            elif isinstance(a, OP): self.t.append(a)
            elif isinstance(a, SL): raise Bad("text %r is put in unescaped" % (a,))
            else: raise Unsupported("piece %r in JSON text" % (a,))
        self.i = 0
    def peek(self): return self.t[self.i] if self.i < len(self.t) else None
    def ws(self):
        while self.peek() in (" ", "\n", "\t", "\r"): self.i += 1
    def eat(self, c):
        self.ws()
        if self.peek() != c: raise Bad("expected %r at %r" % (c, self.t[self.i:self.i + 12]))
        self.i += 1
    def value(self):
        self.ws(); c = self.peek()
        if c == "{":
            self.i += 1; o = {}
            self.ws()
            if self.peek() == "}": self.i += 1; return o
            while True:
                self.ws(); k = self.string()
                t = k.text()
                if t is None: raise Bad("key is not literal")
                if t in o: raise Bad("duplicate key " + t)
                self.eat(":"); o[t] = self.value(); self.ws()
                if self.peek() == ",": self.i += 1; continue
                self.eat("}"); return o
        if c == "[":
            self.i += 1; o = []
            self.ws()
            if self.peek() == "]": self.i += 1; return o
            while True:
                o.append(self.value()); self.ws()
                if self.peek() == ",": self.i += 1; continue
                self.eat("]"); return o
        if c == '"': return ("s", self.string())
        if isinstance(c, OP) and c.name == "dec": self.i += 1; self.end_number(); return ("n", c.args[0])
        if isinstance(c, str) and c in "-0123456789":
            j = self.i
            while isinstance(self.peek(), str) and self.peek() in "-0123456789": self.i += 1
            s = "".join(self.t[j:self.i])
            import re
            if not re.fullmatch(r"-?(0|[1-9]\d*)", s): raise Bad("number " + s)
            self.end_number(); return ("n", int(s))
        for w in ("true", "false", "null"):
            if self.t[self.i:self.i + len(w)] == list(w): self.i += len(w); return ("w", w)
        raise Bad("unexpected %r" % (c,))
    def end_number(self):
        c = self.peek()
        if c is not None and c not in (",", "}", "]", " ", "\n", "\t", "\r"): raise Bad("number followed by %r" % (c,))
    def string(self):
        if self.peek() != '"': raise Bad("expected a string at %r" % (self.t[self.i:self.i + 12],))
        self.i += 1; out = []
        while True:
            c = self.peek()
            if c is None: raise Bad("unterminated string")
            self.i += 1
            if c == '"': return Seq(out)
            if isinstance(c, OP):
                if c.name not in self.SAFE: raise Bad("text %s is put into a string unescaped" % c.name)
                out.append(c)
            elif c == "\\":
                n = self.peek(); m = {'"': '"', "\\": "\\", "/": "/", "b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t"}
                if n not in m: raise Bad("escape in literal text")
                self.i += 1; out.append(U(ord(m[n])))
            elif ord(c) < 32: raise Bad("control character in string")
            else: out.append(U(ord(c)))
    def document(self):
        v = self.value(); self.ws()
        if self.i != len(self.t): raise Bad("text after the value: %r" % (self.t[self.i:self.i + 12],))
        return v

def get(o, *ks):
    for k in ks:
        if isinstance(o, dict) and k in o: o = o[k]
        elif isinstance(o, list) and isinstance(k, int) and k < len(o): o = o[k]
        else: return None
    return o

def diagnostic(ex, js, m, p, lbl):
    """js is the diagnostic of message m and location p"""
    def num(v, want, what):
        ok = isinstance(v, tuple) and v[0] == "n"
        ex.oblige(eq(v[1], want) if ok else False, lbl + what, detail="%r" % (v,)) if ok else ex.record(False, lbl + what, "not a number: %r" % (v,))
    def text(v, want, what):
        if isinstance(v, tuple) and v[0] == "s": ex.prove_seq_eq(v[1], want, lbl + what)
        else: ex.record(False, lbl + what, "not a string: %r" % (v,))
    ex.record(isinstance(js, dict) or False, lbl + "is a JSON object", "%r" % (js,))
    if not isinstance(js, dict): return
    located = not ex.branch(p.null)
    if located:
        fn, f, l = loc_key(ex, CellLV(p.cell))
        pos = (f[0], f[1], l[0], l[1])
        named = fn.v is not None and ex.branch(bz(fn.has))
    else: pos, named = (0, 0, 0, 0), False
    num(get(js, "range", "start", "line"), pos[0], "start line is the stored one, or zero")
    num(get(js, "range", "start", "character"), pos[1], "start character is the stored one, or zero")
    num(get(js, "range", "end", "line"), pos[2], "end line is the stored one, or zero")
    num(get(js, "range", "end", "character"), pos[3], "end character is the stored one, or zero")
    text(get(js, "message"), opaque("json_encode")(ex, None, None, None, [m]), "message decodes to the error message")
    num(get(js, "severity"), 1, "severity is 1")
    if named:
        ex.record(isinstance(get(js, "relatedInformation"), list) and len(js["relatedInformation"]) == 1 or False, lbl + "one related information if the file name is known", "")
        text(get(js, "relatedInformation", 0, "location", "uri"), Seq.lit("file:///") + opaque("url_encode")(ex, None, None, None, [fn.v]), "URI is the percent-encoded file name")
        rg = get(js, "relatedInformation", 0, "location", "range")
        ex.record(all(isinstance(get(rg, a, b), tuple) and get(rg, a, b)[0] == "n" for a in ("start", "end") for b in ("line", "character")) or False, lbl + "related information has a range", "%r" % (rg,))
        ex.record(isinstance(get(js, "relatedInformation", 0, "message"), tuple) or False, lbl + "related information has a message", "")
    else: ex.record("relatedInformation" not in js, lbl + "no related information without a file name", "")

def to_json(v):
    unit, d = v.prog.find(E + "::to_json")
    def setup(ex):
        lv, m, p = sym_error(ex)
        return lv, [], (lv, m, p)
    def post(ex, r, c):
        lv, m, p = c
        try: js = JS(ex, ex.as_seq(ex.rv(r))).document()
        except Bad as b: ex.record(False, "to_json: well-formed JSON", str(b)); return
        ex.record(True, "to_json: well-formed JSON", "")
        diagnostic(ex, js, m, p, "to_json: ")
    v.contract("Error::to_json", unit, d, setup, post)

def run_C10(v):
    v.contracts = dict(CONTRACTS)
    to_json(v); ctors(v)
