"""Verification sessions: contract obligations (deductive) and run-time contract checks (bounded stand-in / replay)."""
import os, sys, time, json, random, hashlib, traceback, signal, math
from fractions import Fraction
import numpy as np
import z3
from . import core
from .core import ctx, Num, SBool, Unsupported, PathEnd, SymRaise, zb, mkb, assume, prove, model_value, collect_apps
from .interp import Interp, CONTRACTS, SObj
from . import par
from . import models, tmodel, strs, pmodel, tables  # noqa: F401 (registers models)


class Fail(Exception):
    """A concrete violation. key identifies the kind of failure (for the known-findings file)."""

    def __init__(self, msg, key="violation"):
        super().__init__(msg)
        self.key = key


class Skip(Exception):
    """The case does not apply (outside the precondition, or an internal helper is gone)."""


class VCtx:
    """Handed to the body of a verification condition."""

    def __init__(self, interp):
        self.interp = interp
        self.inputs = {}

    def real(self, name, gt=None, ge=None, lt=None, le=None):
        e = z3.Real(name)
        self.inputs[name] = e
        x = Num(e)
        self._bounds(x, gt, ge, lt, le)
        return x

    def int(self, name, gt=None, ge=None, lt=None, le=None):
        e = z3.Int(name)
        self.inputs[name] = e
        x = Num(e)
        self._bounds(x, gt, ge, lt, le)
        return x

    def bool(self, name):
        e = z3.Bool(name)
        self.inputs[name] = e
        return SBool(e)

    def _bounds(self, x, gt, ge, lt, le):
        if gt is not None:
            assume(x > gt)
        if ge is not None:
            assume(x >= ge)
        if lt is not None:
            assume(x < lt)
        if le is not None:
            assume(x <= le)

    def assume(self, f):
        assume(f)

    def call(self, f, *a, **k):
        return self.interp.call(f, list(a), k)

    def resolve(self, x):
        """a value that differs by case: follow each case."""
        return x.resolve() if isinstance(x, core.Case) else x

    def ensure(self, label, goal, ms=None, hints=()):
        g = zb(goal)
        ctx.obligs.append((label, list(ctx.formulas()), g, list(hints), ms))

    def lemma(self, label, goal, hints=()):
        self.ensure("lemma: " + label, goal, hints=hints)
        ctx.pc.append(("fact", zb(goal)))

    def theorem(self, label, vs, f):
        """A statement about all values of the constants vs, proved on its own (no hypotheses); returns its instances."""
        if not any(o[0] == "theorem: " + label for o in ctx.obligs):
            ctx.obligs.append(("theorem: " + label, [], zb(f), [], None))
        return lambda *ts: z3.substitute(f, *[(v, t) for v, t in zip(vs, ts)])

    def instances(self, *terms):
        """hypotheses of the path (universally quantified over one index) instantiated at terms: hints for ensure."""
        out = []
        for f in ctx.formulas():
            g = None
            if z3.is_app(f) and f.decl().kind() == z3.Z3_OP_IMPLIES:
                g, f = f.arg(0), f.arg(1)
            wrap = (lambda x: x) if g is None else (lambda x, g=g: z3.Implies(g, x))
            if z3.is_quantifier(f) and f.is_forall() and f.num_vars() == 1 and f.var_sort(0) == z3.IntSort():
                for t in terms:
                    if not isinstance(t, tuple):
                        out.append(wrap(z3.substitute_vars(f.body(), t)))
            elif z3.is_quantifier(f) and f.is_forall() and f.num_vars() == 2 and f.var_sort(0) == z3.IntSort() == f.var_sort(1):
                # variable 0 is the last bound one; tuples are in declaration order
                for t in terms:
                    if isinstance(t, tuple):
                        out.append(wrap(z3.substitute_vars(f.body(), t[1], t[0])))
        return out

    def deep(self, *tuples):
        """instances of nested universally quantified hypotheses, one term per bound variable (in order)."""
        out = []
        for f in ctx.formulas():
            for t in tuples:
                r = _peel(f, list(t))
                if r is not None:
                    out.append(r)
        return out

    def crossing(self, a, b, P):
        """Induction principle: if P fails at a and holds at b > a, some u in (a, b] has P(u) and not P(u-1)."""
        ctx.fresh_n += 1
        u = z3.Int(f"u!{ctx.fresh_n}")
        assume(z3.Implies(z3.And(a < b, z3.Not(P(a)), P(b)), z3.And(a < u, u <= b, P(u), z3.Not(P(u - 1)))))
        return u

    def check(self, cond):
        """branch of the specification itself."""
        return core.decide(zb(cond))


def _peel(f, ts):
    """f with its leading nested quantifiers instantiated by exactly ts, or None."""
    gs, any_ = [], False
    while ts or z3.is_quantifier(f) or (z3.is_app(f) and f.decl().kind() == z3.Z3_OP_IMPLIES):
        if z3.is_quantifier(f):
            n = f.num_vars()
            if not f.is_forall() or n > len(ts) or any(f.var_sort(i) != ts[i].sort() for i in range(n)):
                return None
            f = z3.substitute_vars(f.body(), *reversed(ts[:n]))
            ts = ts[n:]
            any_ = True
        elif z3.is_app(f) and f.decl().kind() == z3.Z3_OP_IMPLIES:
            gs.append(f.arg(0))
            f = f.arg(1)
        else:
            return None
    return (z3.Implies(z3.And(*gs), f) if gs else f) if any_ else None


class VCRes:
    def __init__(self, name):
        self.name = name
        self.status = "proved"
        self.obl = []  # (label, status, backend, secs)
        self.note = ""
        self.model = None
        self.failed = None
        self.functions = []
        self.secs = 0.0
        self.paths = 0
        self.definite = False


class Handle:
    """The outcome of a contract, for others that use it."""

    def __init__(self, V, name):
        self.V, self.name = V, name

    @property
    def proved(self):
        self.V.join()
        return any(r.name == self.name and r.status == "proved" for r in self.V.results)


class Verifier:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.results = []
        self.trusted = set()
        self.functions = set()
        self.inline = []
        self.candidates = []  # (vc name, replay, inputs)
        self.tasks = []

    def vc(self, name, body, replay=None, **kw):
        """Symbolically execute the real functions called by body on all inputs meeting its assumptions and discharge
        every obligation on every path (in a worker process; see join)."""
        if os.environ.get("VF_ONLY") and os.environ["VF_ONLY"] not in name:
            return
        if par.N == 1:
            self._take(*self._vc(name, body, **kw), replay)
        else:
            self.tasks.append((name, replay, par.submit(lambda: self._vc(name, body, **kw))))
        return Handle(self, name)

    def join(self):
        for name, replay, t in self.tasks:
            out, why = t.result()
            if out is None:
                r = VCRes(name)
                r.status, r.note = "unsupported", "engine: " + why[:300]
                out = (r, set(), [])
            self._take(*out, replay)
        self.tasks = []

    def _take(self, res, trusted, cands, replay):
        self.results.append(res)
        self.trusted |= trusted
        if res.status == "proved":
            self.functions |= set(res.functions)
        if replay is not None:
            self.candidates += [(res.name, label, replay, inp) for label, inp in cands]

    def _vc(self, name, body, contracts=None, budget=None, ms=None, allow_raise=(), div_checks=False,
            sample_sat=True, trig_expand=True):
        budget = budget or (60 if self.tier == "quick" else 300)
        t0 = time.time()
        res = VCRes(name)
        cands = []
        ctx.reset()
        ctx.deadline = t0 + budget
        interp = Interp()
        interp.div_checks = div_checks
        core.TRIG_EXPAND = trig_expand
        saved = dict(CONTRACTS)
        CONTRACTS.update(contracts or {})
        v = VCtx(interp)
        obls = []
        try:
            def thunk():
                v.pre_len = None
                try:
                    body(v)
                except SymRaise as r:
                    nm = r.cls if isinstance(r.cls, str) else getattr(r.cls, "__name__", str(r.cls))
                    if nm in allow_raise:
                        return "raise"
                    import traceback as tb
                    ctx.obligs.append((f"never raises {nm}: {str(r.exc)[:80]}", list(ctx.formulas()), z3.BoolVal(False), [], None))
                return "done"
            paths = core.explore(thunk)
            res.paths = len(paths)
            obls = [o if len(o) == 5 else (o[0], o[1], o[2], [], None) for o in ctx.obligs]
            # the quantified-variable record of core.oblig sits in slot 3 as a list of gvars: not hints
            obls = [(n, pc, g, [h for h in hs if not z3.is_int(h)], m) for n, pc, g, hs, m in obls]
        except Unsupported as e:
            res.status, res.note = "unsupported", str(e)[:300]
        except RecursionError as e:
            res.status, res.note = "unsupported", "recursion"
        except z3.Z3Exception as e:
            res.status, res.note = "unsupported", "z3: " + str(e)[:200]
        except Exception as e:  # engine failure: never a verdict
            res.status, res.note = "unsupported", f"engine: {type(e).__name__}: {e}"[:300]
            if os.environ.get("VF_DEBUG"):
                traceback.print_exc()
        finally:
            CONTRACTS.clear()
            CONTRACTS.update(saved)
        res.functions = sorted(ctx.functions)
        trusted = set(ctx.trusted)
        if res.status == "proved":
            bad = core.audit(o[1] for o in obls)
            if bad:
                # a generic index that escaped its context would be a generalisation without justification
                res.status, res.note = "unsupported", "generic index used outside its context: " + ", ".join(sorted(bad)[:5])
        if res.status == "proved" and not obls:
            res.status, res.note = "vacuous", "no obligation generated"
        live = 0
        if res.status == "proved":
            def work(k):
                label, pc, goal, hints, oms = obls[k]
                if time.time() - t0 > budget * 2:
                    r = core.Result("unknown", backend="time budget")
                else:
                    r = prove(goal, pc, ms=oms or (4 * (ms or core.PROVE_MS) if label.startswith("never raises") else ms), hints=hints)
                o = (label, r.status, r.backend, round(r.secs, 3))
                if os.environ.get("VF_VERBOSE") == "3":
                    print("     ", o, flush=True)
                if r.status == "proved":
                    return o, None, None, None, None
                # a countermodel is definite only without uninterpreted mathematics and abstraction,
                # and where it cannot be a gap of a library model (else only a replay makes it a violation)
                definite = r.status == "refuted" and not (core.uninterpreted(pc + [goal]) - {"char", "line_length"}) and not any(
                    _has_quant(f) for f in pc + [goal]) and not label.startswith(_GAPS)
                return o, None if r.model is None else str(r.model)[:20000], definite, _smt(pc, goal), None if r.model is None else self.inputs_of(v, r.model)
            for o, model, definite, smt, inp in par.share(range(len(obls)), work):
                res.obl.append(o)
                if o[1] == "proved":
                    live += 1
                    continue
                if res.failed is None or (o[1] == "refuted" and res.status != "refuted"):
                    res.failed, res.model, res.status, res.definite, res.smt = o[0], model, o[1], definite, smt
                if inp:
                    cands.append((o[0], inp))
        if res.status == "proved" and sample_sat:
            # vacuity: some obligation's hypotheses must be satisfiable
            ok = False
            for label, pc, goal, hints, oms in obls[:6]:
                s = z3.Solver()
                s.set("timeout", 3000)
                for f in pc:
                    s.add(f)
                for a in core.axioms(pc, rounds=1, pairwise=False):
                    s.add(a)
                r = s.check()
                if r == z3.sat:
                    ok = True
                    break
                if r == z3.unknown:
                    ok = None
            if ok is False:
                res.status, res.note = "vacuous", "hypotheses unsatisfiable on every path"
            elif ok is None:
                res.note = "satisfiability of hypotheses not confirmed by the solver (witnessed by concrete runs)"
        res.secs = round(time.time() - t0, 3)
        if os.environ.get("VF_VERBOSE"):
            print(f"  [{res.status:11}] {name} ({len(res.obl)} obligations, {res.paths} paths, {res.secs}s) {res.note} {res.failed or ''}", flush=True)
            if os.environ.get("VF_VERBOSE") == "2" and res.failed:
                print(res.smt[:6000])
        return res, trusted, cands

    def inputs_of(self, v, model):
        out = {}
        for n, e in v.inputs.items():
            x = model_value(model, e)
            if x is None:
                continue
            out[n] = x if isinstance(x, (bool, int)) else float(x)
        return out


_GAPS = tuple("never raises " + x for x in ("TypeError", "AttributeError", "NameError", "NotImplementedError")) + ("contract: ",)    # the last: about steps between, which another composition need not take
_has_quant = core.has_quant


def _smt(pc, goal):
    s = z3.Solver()
    for f in pc:
        s.add(f)
    s.add(z3.Not(goal))
    return s.to_smt2()


class Hang(Exception):
    pass


def _alarm(*a):
    raise Hang()


class Concrete:
    """Run-time evaluation of the same contracts on the real code (bounded)."""

    def __init__(self, pid, tier, seed, budget):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.deadline = time.time() + budget
        self.evals = 0
        self.skipped = 0
        self.distinct = set()
        self.samples = []
        self.fails = []  # dict(case, input, message, key, tb)
        self.rules = {}
        self.cases_by_name = {}
        self.harness_errors = []
        self.tasks = []
        self.budget = budget
        signal.signal(signal.SIGALRM, _alarm)

    def scale(self, n):
        return n * 2 if self.tier == "quick" else n * 20

    def cases(self, name, gen, check, n, rule="", share=0.5):
        self.cases_by_name[name] = check
        self.rules[name] = rule
        if par.N == 1:
            return self._cases(name, gen, check, n, share)

        def work():
            self.deadline = time.time() + self.budget
            self._cases(name, gen, check, n, share)
            return self.evals, self.skipped, self.distinct, self.samples, self.fails, self.harness_errors
        self.tasks.append((name, par.submit(work)))

    def join(self):
        for name, t in self.tasks:
            out, why = t.result()
            if out is None:
                self.harness_errors.append(f"{name}: {why}")
                continue
            self.evals += out[0]
            self.skipped += out[1]
            self.distinct |= out[2]
            self.samples = (self.samples + out[3])[:3]
            self.fails += out[4]
            self.harness_errors = (self.harness_errors + out[5])[:20]
        self.tasks = []

    def _cases(self, name, gen, check, n, share):
        rng = random.Random(f"{self.seed}/{self.pid}/{name}")
        # share: at most this fraction of the remaining time
        end = time.time() + max(2.0, (self.deadline - time.time()) * share)
        fails = 0
        cnt = 0
        it = gen(rng) if _isgen(gen) else None
        for k in range(self.scale(n)):
            if time.time() > end:
                break
            if it is not None:
                try:
                    inp = next(it)
                except StopIteration:
                    break
            else:
                inp = gen(rng)
            cnt += 1
            f = self.one(name, check, inp)
            if f is not None:
                self.fails.append(f)
                fails += 1
                if fails >= 3:
                    break
        if os.environ.get("VF_VERBOSE"):
            print(f"  [concrete   ] {name}: {cnt} cases, {fails} failing", flush=True)

    def one(self, name, check, inp):
        key = hashlib.sha1(json.dumps([name, inp], sort_keys=True, default=str).encode()).hexdigest()
        self.evals += 1
        f = run_check(name, check, inp)
        if f == "skip":
            self.skipped += 1
            return None
        if isinstance(f, dict) and f.get("harness"):
            if len(self.harness_errors) < 20:
                self.harness_errors.append(f"{name}: {f['message'][:300]}")
            self.skipped += 1
            return None
        self.distinct.add(key)
        if len(self.samples) < 3:
            self.samples.append({"case": name, "input": inp})
        return f


def _isgen(g):
    import inspect
    return inspect.isgeneratorfunction(g)


def run_check(name, check, inp, limit=90):
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        check(inp)
        return None
    except Skip:
        return "skip"
    except Fail as e:
        return dict(case=name, input=inp, message=str(e), key=e.key, tb="")
    except AssertionError as e:
        tb = traceback.format_exc()
        return dict(case=name, input=inp, message=str(e) or tb[-400:], key="assertion", tb=tb)
    except Hang:
        return dict(case=name, input=inp, message=f"no result within {limit} s", key="hang", tb="")
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        txt = traceback.format_exc()
        inrepo = any("/src/tatc/" in f.filename for f in tb)
        # an exception escaping from repository code on an input where the contract promises a result
        if inrepo:
            return dict(case=name, input=inp, message=f"unexpected {type(e).__name__}: {e}", key=f"raises-{type(e).__name__}", tb=txt)
        return dict(case=name, input=inp, message=f"{type(e).__name__}: {e}", key="harness", tb=txt, harness=True)
    finally:
        signal.alarm(0)


# ---- numeric comparison helpers for concrete checks
def close(a, b, rel=1e-9, abs_=1e-9):
    a, b = float(a), float(b)
    if a != a or b != b:
        return a != a and b != b
    return abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))


def expect(cond, msg, key="violation"):
    if not cond:
        raise Fail(msg, key)


def expect_close(a, b, what, rel=1e-9, abs_=1e-9, key="value"):
    if not close(a, b, rel, abs_):
        raise Fail(f"{what}: got {a!r}, expected {b!r}", key)


def angdiff(a, b):
    return (float(a) - float(b) + 180.0) % 360.0 - 180.0
