"""Depth-first path exploration with z3 deciding every alternative."""
import random
import time
import traceback

import z3

from . import sym as S


class Path:
    """One execution: fixed decision prefix + model guiding the rest."""

    def __init__(self, ex, prefix, model, assumptions):
        self.ex = ex
        self.prefix = prefix          # list of (cond_expr, taken, hint)
        self.model = model
        self.trail = []               # list of (expr, taken | 'ax' | None, hint)
        self.known = {}               # ast id -> bool
        self.keep = []
        self.notes = set()
        self.pinned = False
        self.checks = []              # (cond, msg)
        self.obligations = 0
        self.trivial = 0
        self.counter = {}
        self.exact_sqrt = ex.exact_sqrt
        self.axset = set()
        self.covers = set()
        self.n_branch = 0
        self.uses_uf = False
        for a in assumptions:
            self._learn(a, True)

    # -- evaluation -------------------------------------------------------
    def value(self, e):
        return self.model.eval(e, model_completion=True)

    def note(self, s):
        self.notes.add(s)

    def _learn(self, e, v):
        self.keep.append(e)
        self.known[e.get_id()] = v

    def branch(self, cond, hint=None):
        if isinstance(cond, bool):
            return cond
        e = cond
        k = self.known.get(e.get_id())
        if k is not None:
            return k
        s = z3.simplify(e)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        k = self.known.get(s.get_id())
        if k is not None:
            return k
        neg = z3.is_not(s)
        base = s.arg(0) if neg else s
        k = self.known.get(base.get_id())
        if k is not None:
            return k != neg
        i = self.n_branch
        self.n_branch += 1
        if self.n_branch > self.ex.max_branches:
            self.note("branch budget per path exceeded")
            raise S.PathAbort("branch budget")
        if i < len(self.prefix):
            pe, v, _ = self.prefix[i]
            if not pe.eq(base):
                self.ex.diverged += 1
                v = z3.is_true(self.value(base))
        else:
            v = z3.is_true(self.value(base))
        self.trail.append((base, v, hint))
        self._learn(base, v)
        self._learn(s, v != neg)
        self._learn(e, v != neg)
        return v != neg

    def fork_value(self, e):
        """Concrete value of an Int term; every other value becomes a branch."""
        s = z3.simplify(e)
        if z3.is_int_value(s):
            return s.as_long()
        key = ("val", s.get_id())
        if key in self.known:
            return self.known[key]
        n = 0
        while True:
            v = None
            if self.n_branch < len(self.prefix):
                h = self.prefix[self.n_branch][2]
                if h is not None and h[0].eq(s):
                    v = h[1]
            if v is None:
                v = self.value(s).as_long()
            if self.branch(s == z3.IntVal(v), hint=(s, v)):
                self.keep.append(s)
                self.known[key] = v
                return v
            n += 1
            if n > 400:
                raise S.PathAbort("unbounded value fork")

    def pin_real(self, e):
        s = z3.simplify(e)
        if z3.is_rational_value(s):
            return float(s.numerator_as_long()) / s.denominator_as_long()
        v = self.value(s)
        if z3.is_algebraic_value(v):
            v = v.approx(12)
        if not z3.is_rational_value(v):
            raise S.EngineLimit("cannot evaluate a real term")
        self.note("a real value was pinned to one model value")
        self.pinned = True
        self.ex.pins += 1
        c = s == v
        # pinning is a one-sided constraint: no alternative is explored
        self.trail.append((c, None, None))
        self._learn(c, True)
        return float(v.numerator_as_long()) / v.denominator_as_long()

    def axiom(self, e):
        """Fact about an uninterpreted application (always true)."""
        if e.get_id() in self.axset:
            return
        self.axset.add(e.get_id())
        self.keep.append(e)
        self.trail.append((e, "ax", None))
        if not z3.is_true(self.value(e)):
            # the guiding model may violate the axiom: repair it
            self.ex.repair(self)

    def assume(self, cond):
        if isinstance(cond, S.Sym):
            e = S.truth(cond).e
            self.trail.append((e, "ax", None))
            self._learn(e, True)
            if not z3.is_true(self.value(e)):
                self.ex.repair(self)
        elif not cond:
            raise S.PathAbort("assume false")

    def pc(self):
        out = []
        for e, v, _ in self.trail:
            out.append(e if v is None or v == "ax" or v is True else z3.Not(e))
        return out


def relax(es):
    """Weaker formulas without uninterpreted applications and divisions (each is
    replaced by a fresh constant, q = a/b keeps q*b = a): unsat carries over."""
    cache, extra, apps = {}, [], []

    def go(e):
        k = e.get_id()
        if k in cache:
            return cache[k][1]
        ch = [go(c) for c in e.children()]
        kind = e.decl().kind() if z3.is_app(e) else None
        if kind == z3.Z3_OP_UNINTERPRETED and e.num_args() > 0:
            r = z3.FreshConst(e.sort(), "u")
            apps.append((e, r))
        elif kind == z3.Z3_OP_UNINTERPRETED:
            apps.append((e, e))
            r = e
        elif kind == z3.Z3_OP_DIV and not z3.is_rational_value(ch[1]):
            r = z3.FreshReal("q")
            extra.append(z3.Implies(ch[1] != 0, r * ch[1] == ch[0]))
        elif ch:
            r = e.decl()(*ch)
        else:
            r = e
        cache[k] = (e, r)
        return r
    out = [go(z3.simplify(e, som=True)) for e in es]
    return out + extra, apps


def nonlinear(es):
    seen, todo = set(), list(es)
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e):
            k = e.decl().kind()
            if k == z3.Z3_OP_MUL and sum(1 for c in e.children() if not z3.is_rational_value(c)
                                         and not z3.is_int_value(c)) > 1:
                return True
            if k in (z3.Z3_OP_DIV, z3.Z3_OP_POWER) and not z3.is_rational_value(e.arg(1)):
                return True
        todo.extend(e.children())
    return False


class Explorer:
    def __init__(self, run, max_paths=4000, time_budget=300, query_ms=20000, exact_sqrt=False,
                 max_branches=4000, logic=None):
        self.run = run
        self.max_paths = max_paths
        self.time_budget = time_budget
        self.query_ms = query_ms
        self.exact_sqrt = exact_sqrt
        self.max_branches = max_branches
        self.assumptions = []
        self.stats = dict(paths=0, aborted=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0,
                          obligations=0, trivial=0, discharged=0, checked_paths=0, pinned_paths=0,
                          branches=0, pruned=0)
        self.pins = 0
        self.diverged = 0
        self.notes = {}
        self.covers = set()
        self.cex = []
        self.limits = []
        self.inconclusive = []
        self.complete = True

    def check(self, solver, *extra, timeout=None):
        t = time.time()
        full = int(timeout or self.query_ms)
        solver.set("timeout", min(full, 1000))
        r = solver.check(*extra)
        if r == z3.unknown and full > 1000:
            es = list(solver.assertions()) + list(extra)
            if nonlinear(es):
                t2 = z3.Then("simplify", "propagate-values", "solve-eqs", "purify-arith", "qfnra-nlsat").solver()
                t2.set("timeout", min(full, 4000))
                weak, apps = relax(es)
                t2.add(*weak)
                r2 = t2.check()
                if r2 == z3.unsat:
                    self.stats["nlsat"] = self.stats.get("nlsat", 0) + 1
                    r = z3.unsat
                elif r2 == z3.sat:
                    # does a model of the weaker formulas extend to the original ones?
                    m = t2.model()
                    solver.set("timeout", 1000)
                    fix = [a == m.eval(c, model_completion=True) for a, c in apps]
                    if solver.check(*(list(extra) + fix)) == z3.sat:
                        r = z3.sat
            if r == z3.unknown:
                solver.set("timeout", full)
                r = solver.check(*extra)
        self.stats["solver_s"] += time.time() - t
        self.stats["queries"] += 1
        self.stats[str(r)] = self.stats.get(str(r), 0) + 1
        return r

    def solver(self, cs):
        s = z3.Solver()
        s.add(*cs)
        return s

    def repair(self, path):
        s = self.solver(path.pc())
        r = self.check(s)
        if r == z3.sat:
            path.model = s.model()
        elif r == z3.unsat:
            raise S.PathAbort("assumption contradicts path")
        else:
            self.complete = False
            self.inconclusive.append("unknown while repairing a path model")
            raise S.PathAbort("unknown")

    def explore(self):
        t0 = time.time()
        s0 = self.solver([])
        s0.check()
        work = [([], s0.model())]
        while work:
            if self.stats["paths"] >= self.max_paths or time.time() - t0 > self.time_budget:
                self.complete = False
                self.inconclusive.append(
                    f"exploration budget reached with {len(work)} pending alternatives "
                    f"(paths={self.stats['paths']}, {time.time()-t0:.0f}s)")
                break
            prefix, model = work.pop()
            p = Path(self, prefix, model, [])
            S.CTX.path = p
            exc = None
            try:
                self.run(p)
            except S.PathAbort as e:
                exc = e
                self.stats["aborted"] += 1
                if "budget" in str(e) or "unknown" in str(e) or "unbounded" in str(e):
                    self.complete = False
                    self.inconclusive.append(str(e))
            except Exception as e:  # unexpected: candidate violation or engine limit
                exc = e
                self.limits.append(self._limit(p, e))
            finally:
                S.CTX.path = None
            self.stats["paths"] += 1
            self.stats["branches"] += p.n_branch
            for n in p.notes:
                self.notes[n] = self.notes.get(n, 0) + 1
            self.covers |= p.covers
            if p.pinned:
                self.stats["pinned_paths"] += 1
            # discharge the checks of this path
            if p.checks or p.obligations:
                self.stats["checked_paths"] += 1
            self.discharge(p)
            if len({c["msg"] for c in self.cex}) >= 3 or len(self.cex) >= 30:
                self.complete = False
                break
            # alternatives
            s = z3.Solver()
            idx = -1
            children = []
            decided = []
            for e, v, h in p.trail:
                if v is None or v == "ax":
                    s.add(e)
                    continue
                idx += 1
                decided.append((e, v, h))
                if idx >= len(prefix):
                    alt = z3.Not(e) if v else e
                    s.push()
                    s.add(alt)
                    r = self.check(s)
                    if r == z3.sat:
                        children.append((decided[:-1] + [(e, not v, h)], s.model()))
                    elif r == z3.unsat:
                        self.stats["pruned"] += 1
                    else:
                        self.complete = False
                        self.inconclusive.append("unknown branch feasibility")
                    s.pop()
                s.add(e if v else z3.Not(e))
            work.extend(children)
        return self

    def generic(self, s, p, seed):
        """another model of the same counterexample with unremarkable inputs (uninterpreted
        functions and degenerate values make the first model unlikely to replay)"""
        rng = random.Random(seed)
        t0 = time.time()
        model = None
        n = 0
        env = getattr(p, "env", None)
        for name, c in list(env.vars.items()) if env is not None else ():
            if not z3.is_real(c):
                continue
            for scale in (2, 9):
                v = z3.Q(rng.randint(-16 * scale, 16 * scale) * 2 + 1, 32)
                s.push()
                s.add(c == v)
                if time.time() - t0 < 10 and self.check(s, timeout=2000) == z3.sat:
                    model = s.model()
                    n += 1
                    break
                s.pop()
        for _ in range(n):
            s.pop()
        return model

    def _limit(self, p, e):
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{f.filename}:{f.lineno} {f.name}" for f in tb[-6:]]
        return dict(exc=f"{type(e).__name__}: {e}", where=where, model=p.model, path=p)

    def discharge(self, p):
        self.stats["trivial"] += p.trivial
        self.stats["obligations"] += p.obligations
        if not p.checks:
            self.stats["discharged"] += p.trivial
            return
        pc = p.pc()
        s = self.solver(pc)
        conds = [(c, m) for c, m in p.checks]
        # the model that guided this path may already refute an assertion
        hit = next(((c, m) for c, m in conds if z3.is_false(p.model.eval(c, model_completion=True))), None)
        if hit and all(z3.is_true(p.model.eval(e, model_completion=True)) for e in pc):
            s.add(z3.Not(hit[0]))
            self.cex.append(dict(msg=hit[1], model=p.model, path=p,
                                 more=[g for g in (self.generic(s, p, k) for k in (1, 2)) if g is not None]))
            return
        neg = [z3.Not(c) for c, _ in conds]
        r = self.check(s, z3.Or(*neg), timeout=2000) if len(neg) > 1 else z3.unknown
        if r == z3.unsat:
            self.stats["discharged"] += p.obligations
            return
        # individually
        bad = False
        for c, m in conds:
            s.push()
            s.add(z3.Not(c))
            r = self.check(s)
            if r == z3.sat:
                bad = True
                self.cex.append(dict(msg=m, model=s.model(), path=p,
                                     more=[g for g in (self.generic(s, p, k) for k in (1, 2)) if g is not None]))
            elif r == z3.unknown:
                self.complete = False
                self.inconclusive.append(f"unknown: {m}")
            else:
                self.stats["discharged"] += 1
            s.pop()
            if bad:
                break
        self.stats["discharged"] += p.trivial
