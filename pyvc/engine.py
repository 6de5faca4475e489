"""Explores all paths of a harness and discharges its obligations."""
import os
import subprocess
import tempfile
import time
import traceback
import z3
from . import core
from .core import Ctx, Obligation, PathEnd, PathAbort, Unsupported, zbool

CVC5 = "/opt/veriftools/bin/cvc5"


class RuntimeErrorOnPath(Exception):
    pass


class Engine:
    def __init__(self, feas_timeout=1500, obl_timeout=8000, max_paths=400, max_depth=400, budget=240):
        self.feas_timeout = feas_timeout
        self.obl_timeout = obl_timeout
        self.max_paths = max_paths
        self.max_depth = max_depth
        self.budget = budget
        self.solver_time = 0.0
        self.queries = 0
        self.work = []
        self.loops = {}          # loop key -> LoopInfo (Houdini state)
        self.dirty = False
        self.weak = False         # a solver gave up on an invariant candidate: failing obligations below it are not definite
        self.families, self.elem_families, self.tensor_families = [], [], []
        self.unroll_while = 0
        self.reset_run()

    def reset_run(self):
        self.obligations = []
        self.unsupported = []
        self.paths = 0
        self.ended = 0
        self.completed = 0
        self.aborted = None
        self.covers = {}
        self.failed = False

    # ------------------------------------------------------------
    def explore(self, body):
        """body(): one execution of the harness under the current context"""
        self.t0 = time.time()
        rounds = 0
        while True:
            rounds += 1
            self.reset_run()
            self.dirty = False
            self.work = [[]]
            seen = 0
            while self.work:
                prefix = self.work.pop()
                c = Ctx(self, prefix)
                Ctx.cur = c
                self.paths += 1
                if self.paths > self.max_paths:
                    self.aborted = f"more than {self.max_paths} paths"
                    break
                if time.time() - self.t0 > self.budget:
                    self.aborted = f"time budget {self.budget}s"
                    break
                try:
                    body()
                    self.completed += 1
                except PathEnd:
                    self.ended += 1
                except PathAbort as e:
                    self.aborted = str(e)
                    break
                except Unsupported as e:
                    if c.loop_stack and any([lp.discover() for lp in c.loop_stack]):
                        self.reconsider(c)
                        self.dirty = "now"
                        break
                    self.unsupported.append((str(e), _where(e)))
                    if len(self.unsupported) > 8:
                        self.aborted = "unsupported"
                        break
                except RecursionError as e:
                    self.unsupported.append(("recursion limit", ""))
                    break
                except z3.Z3Exception as e:
                    self.unsupported.append((f"z3: {e}", _where(e)))
                finally:
                    Ctx.cur = None
                if self.dirty == "now":
                    break
            self.rounds = rounds
            if self.dirty and not (self.aborted and "time" in self.aborted):
                if rounds > 60:
                    self.aborted = "no invariant fixpoint"
                    return self
                continue
            return self

    def reconsider(self, c):
        """candidates judged with an incomplete write set of an enclosing loop are considered again"""
        for k, li in self.loops.items():
            if k[2:] == tuple(c.choices)[:len(k) - 2]:
                li.removed.clear()

    def check_time(self):
        if time.time() - self.t0 > self.budget:
            raise core.PathAbort(f"time budget {self.budget}s")

    # ------------------------------------------------------------
    def oblige(self, cond, name, definite=True, detail=""):
        c = Ctx.cur
        cond = zbool(cond)
        ob = Obligation(name)
        ob.path = tuple(c.taken)
        ob.definite = definite
        ob.abstract = c.abstract
        t = time.time()
        if cond is True:
            ob.status, ob.backend = "discharged", "simplifier"
        else:
            neg = z3.BoolVal(True) if cond is False else z3.Not(cond)
            r, model, be = self.solve(c.pc, neg)
            if r != z3.unsat and len(c.lams) + len(getattr(c, "ops", ())) >= 2:
                from . import tensor
                while r != z3.unsat and tensor.lam_lemmas():
                    r, model, be = self.solve(c.pc, neg)
            ob.backend = be
            if r == z3.unsat:
                ob.status = "discharged"
            elif r == z3.sat:
                ob.status = "failed"
                ob.model = self.extract_model(c, model)
                ob.detail = detail or (str(z3.simplify(cond))[:1500] if cond is not False else "false")
                self.failed = True
            else:
                ob.status = "unknown"
        ob.time = time.time() - t
        if ob.status != "discharged" and c.loop_stack:
            self.loop_discovery(c)
        self.obligations.append(ob)
        if ob.status == "failed":
            if c.loop_stack and cond is not False:
                return False        # the rest of the loop body may still show what it modifies
            raise PathEnd()
        c.assume(cond if cond is not False else z3.BoolVal(False))
        return ob.status == "discharged"

    def loop_discovery(self, c):
        """an obligation failed inside a cut loop: if the loop modifies more than was assumed, start over"""
        if any([lp.discover() for lp in c.loop_stack]):
            self.reconsider(c)
            self.dirty = "now"
            raise PathEnd()

    def solve(self, pc, neg, quick=False):
        goal = [*pc, neg]
        s = z3.Solver()
        s.set("timeout", self.obl_timeout // 4)
        s.add(*goal)
        t = time.time()
        r = s.check()
        self.solver_time += time.time() - t
        self.queries += 1
        if r == z3.unsat:
            return r, None, "z3"
        if r == z3.sat:
            return r, self.small_model(goal, s), "z3"
        # relevant subset + nlsat style tactics
        t = time.time()
        for tac in ("qfnra-nlsat", "smt"):
            try:
                s2 = z3.Then("simplify", "solve-eqs", "smt").solver() if tac == "smt" else z3.Tactic(tac).solver()
                s2.set("timeout", self.obl_timeout // 3)
                s2.add(*goal)
                r = s2.check()
            except z3.Z3Exception:
                r = z3.unknown
            if r == z3.unsat:
                self.solver_time += time.time() - t
                return r, None, "z3/" + tac
        if quick:
            self.solver_time += time.time() - t
            return z3.unknown, None, ""
        r = self.cvc5(goal)
        if r == z3.unsat:
            self.solver_time += time.time() - t
            return r, None, "cvc5"
        s = z3.Solver()
        s.set("timeout", self.obl_timeout)
        s.set("random_seed", 7)
        s.add(*goal)
        r = s.check()
        self.solver_time += time.time() - t
        if r == z3.sat:
            return r, s.model(), "z3"
        return r, None, "z3"

    def cvc5(self, goal):
        if not os.path.exists(CVC5):
            cv = "cvc5"
        else:
            cv = CVC5
        s = z3.Solver()
        s.add(*goal)
        txt = "(set-logic ALL)\n" + s.to_smt2()
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write(txt)
            fn = f.name
        try:
            p = subprocess.run([cv, "--lang=smt2", f"--tlimit={self.obl_timeout}", "--nl-cov", fn], capture_output=True, text=True,
                               timeout=self.obl_timeout / 1000 + 5)
            out = p.stdout.strip().splitlines()
            if out and out[0] == "unsat":
                return z3.unsat
            if out and out[0] == "sat":
                return z3.sat
        except (subprocess.TimeoutExpired, FileNotFoundError):
            pass
        finally:
            os.unlink(fn)
        return z3.unknown

    def small_model(self, goal, s):
        c = Ctx.cur
        m = s.model()
        ints = [v for kind, nm, v, meta in c.inputs if kind == "int"]
        for bound in (3, 6, 12):
            s2 = z3.Solver()
            s2.set("timeout", 1500)
            s2.add(*goal)
            for v in ints:
                if not isinstance(v, core.SymNum):
                    continue
                s2.add(v.e <= bound, v.e >= -bound)
            if s2.check() == z3.sat:
                return s2.model()
        return m

    def extract_model(self, c, m):
        """values of the harness inputs in the counter-model"""
        out = {}
        if m is None:
            return out

        def ev(e):
            v = m.eval(e, model_completion=True)
            return num_of(v)
        for kind, nm, v, meta in c.inputs:
            try:
                if kind in ("int", "real", "bool"):
                    out[nm] = ev(v.e) if core.is_sym(v) else v
                elif kind == "choice":
                    out[nm] = v
                elif kind == "str":
                    out[nm] = m.eval(v.e, model_completion=True).as_string()
                elif kind == "tensor":
                    shp = []
                    for d in v.shape:
                        d = ev(d.e) if core.is_sym(d) else d
                        shp.append(int(d))
                    n = 1
                    for d in shp:
                        n *= d
                    if n > 20000:
                        out[nm] = {"shape": shp, "too_big": True}
                        continue
                    import itertools
                    vals = []
                    for idx in itertools.product(*[range(d) for d in shp]):
                        e = meta(idx)
                        if isinstance(e, core.SymNum) or isinstance(e, core.SymBool):
                            vals.append(ev(e.e))
                        else:
                            vals.append(e if isinstance(e, (int, float, bool)) else None)
                    out[nm] = {"shape": shp, "values": vals, "dtype": getattr(v, "kind", "real")}
                elif kind == "list":
                    n = v.n
                    n = int(ev(n.e)) if core.is_sym(n) else n
                    out[nm] = [ev(core.znum(meta(i))) for i in range(min(n, 2000))]
            except Exception as e:      # noqa
                out[nm] = {"error": str(e)[:80]}
        return out


def num_of(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return v.numerator_as_long() / v.denominator_as_long()
    if z3.is_algebraic_value(v):
        a = v.approx(12)
        return a.numerator_as_long() / a.denominator_as_long()
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return None


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    for fr in reversed(tb):
        if "/repo/" in fr.filename or "aspsim" in fr.filename:
            return f"{fr.filename}:{fr.lineno} {fr.name}"
    return f"{tb[-1].filename}:{tb[-1].lineno} {tb[-1].name}" if tb else ""
