"""Runs contracts: one exploration per function under contract, all obligations to the solver."""
import time, traceback, sys, os, json
import z3
from .vals import *
from .core import *
from .execute import Interp
from .unit import Program, Unit, ExtractError, export, REPO, VERIF
from . import lib_std, lib_tree, lib_nodes, lib_maps
from .lib_std import L

class Verifier:
    def __init__(self, prog, contracts=None, lib=None, timeout=4000):
        self.prog = prog
        self.rep = Report()
        self.contracts = contracts or {}
        self.lib = lib or L
        self.timeout = timeout
        self.functions = []
        self.lemmas = []

    def exec(self):
        return Interp(self.prog, self.lib, self.contracts, self.rep, self.timeout)

    def contract(self, name, unit, d, setup, post, on_throw=None, label=None):
        """verify function d: setup(ex) -> (this, args, ctx); post(ex, result, ctx); on_throw(ex, exc, ctx)"""
        ex = self.exec()
        ex.under = unit.sig(d)
        info = dict(function=unit.sig(d), contract=name, paths=0)
        self.functions.append(info)
        t0 = time.time()
        def run():
            ex.reset_path_inputs() if hasattr(ex, "reset_path_inputs") else None
            ex.inputs = {}
            this, args, ctx = setup(ex)
            ex.under_depth = 0
            try:
                if d.get("ctor"):
                    ex.run_function(unit, d, this, args); r = this
                else: r = ex.run_function(unit, d, this, args)
            except CxxThrow as t:
                if on_throw is None:
                    ex.oblige(False, name + ": no exception escapes (" + str(t.cls) + ")")
                else: on_throw(ex, t, ctx)
                return "throw"
            post(ex, r, ctx)
            return "return"
        self.guarded(name, ex, run, info)
        info["seconds"] = round(time.time() - t0, 2)
        return info

    def part(self, f, *args):
        """one part of a property: a function that is gone leaves only this part undecided"""
        try: f(self, *args)
        except (ExtractError, Unsupported) as e: self.rep.unsupported.append(dict(contract=f.__name__, why=str(e)[:300]))

    def guarded(self, name, ex, run, info):
        try:
            rs = ex.explore(run)
            info["paths"] = len(rs)
            if not rs:
                self.rep.unsupported.append(dict(contract=name, why="no feasible path: precondition unsatisfiable (vacuous)"))
        except Unsupported as u:
            self.rep.unsupported.append(dict(contract=name, why=str(u)[:400], where=ex.frames[-1].fname if ex.frames else None))
        except (NoFork, RecursionError) as u:
            self.rep.unsupported.append(dict(contract=name, why=type(u).__name__))
        except (KeyError, TypeError, AttributeError, IndexError, ValueError, AssertionError, z3.Z3Exception) as u:
            if os.environ.get("VERIF_DEBUG"): traceback.print_exc()
            self.rep.unsupported.append(dict(contract=name, why="engine: %s %s" % (type(u).__name__, str(u)[:300])))

    def scenario(self, name, run_body):
        """a verification driver over several calls: run_body(ex)"""
        ex = self.exec()
        info = dict(function="(driver)", contract=name, paths=0)
        self.functions.append(info)
        t0 = time.time()
        def run():
            ex.inputs = {}
            run_body(ex); return "ok"
        self.guarded(name, ex, run, info)
        info["seconds"] = round(time.time() - t0, 2)

    def lemma(self, name, formula, *assume):
        """a closed formula discharged by the solver"""
        s = z3.Solver(); s.set("timeout", self.timeout * 4)
        for a in assume: s.add(a)
        s.add(z3.Not(bz(formula)))
        t = time.time()
        r = s.check()
        self.rep.solver_s += time.time() - t; self.rep.queries += 1
        ent = self.rep.oblig.setdefault("lemma: " + name, [0, 0, 0])
        self.lemmas.append(name)
        if r == z3.unsat: ent[0] += 1
        else:
            ent[2] += 1
            self.rep.failures.append(dict(label="lemma: " + name, status="unknown", detail=str(formula)[:300], model={}, hints={}, path=[], where=None))

    def expect(self, c, label, detail=""):
        """meta obligation decided by evaluation (e.g. the function exists and has the expected shape)"""
        ent = self.rep.oblig.setdefault(label, [0, 0, 0])
        if c: ent[0] += 1
        else:
            ent[1] += 1
            self.rep.failures.append(dict(label=label, status="failed", detail=detail, model={}, hints={}, path=[], where=None))

    def totals(self):
        p = sum(v[0] for v in self.rep.oblig.values())
        f = sum(v[1] for v in self.rep.oblig.values())
        u = sum(v[2] for v in self.rep.oblig.values())
        return p, f, u

def byte(c):
    """unsigned value of a char"""
    return simp(If(lt(c, 0), add(c, 256), c))
def fold(ex, n, f, lo=0):
    """spec-side fold: f(i) -> list of (cond, Seq)"""
    kv = z3.Int("sk!%d" % ex.fresh_id())
    return Seq([FO(kv, f(kv), lo, n)])
