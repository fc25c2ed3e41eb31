"""AST interpreter over the real source of /repo (read afresh on every run), mixing concrete and symbolic values."""
import ast, builtins, inspect, operator, types, sys, os
from fractions import Fraction
from datetime import datetime, timedelta, timezone, time as dtime
import numpy as np
import z3
from . import core
from .core import (Sym, Num, SBool, Case, Unsupported, PathEnd, SymRaise, ctx, zb, zn, zr, mkb, decide, explore,
                   merge_paths, ite, subst, assume, is_num, frac_of_float, equal)

MODELS = {}  # callable -> model(interp, args, kwargs)
METHOD_MODELS = {}  # (type, name) -> model(interp, self, args, kwargs)
LOOP_RULES = {}  # qualname -> rule(interp, for statement, sequence, env): loop verified against an invariant
CONTRACTS = {}  # 'module.qualname' -> callable(interp, args, kwargs) ; active callee contracts
CLASS_MODELS = {}  # class -> constructor model
_src_cache = {}
REPO_PREFIX = "tatc"
INLINE = {("sgp4.alpha5", "from_alpha5")}  # pure Python dependency functions verified through their source


def model(*fs):
    def deco(g):
        for f in fs:
            MODELS[f] = g
        return g
    return deco


def func_ast(f):
    f = getattr(f, "py_func", f)
    code = f.__code__
    fn = code.co_filename
    if fn not in _src_cache:
        with open(fn, encoding="utf-8") as fh:
            tree = ast.parse(fh.read())
        idx = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                ln = n.lineno
                if isinstance(n, ast.FunctionDef) and n.decorator_list:
                    ln = min(d.lineno for d in n.decorator_list)
                idx.setdefault((ln, n.name if isinstance(n, ast.FunctionDef) else "<lambda>"), []).append(n)
        _src_cache[fn] = idx
    c = _src_cache[fn].get((code.co_firstlineno, code.co_name))
    if not c:
        raise Unsupported(f"no source for {f}")
    if len(c) > 1:
        raise Unsupported("ambiguous lambda source")
    return c[0]


def is_sym(v, depth=0):
    if isinstance(v, (Sym, Closure)):
        return True
    if depth > 6:
        return False
    if isinstance(v, (list, tuple, set)):
        return any(is_sym(x, depth + 1) for x in v)
    if isinstance(v, dict):
        return any(is_sym(x, depth + 1) for x in v.values())
    if isinstance(v, np.ndarray) and v.dtype == object:
        return any(is_sym(x, depth + 1) for x in v.flat)
    return False


def native(v):
    """Concrete value for a native call: exact rationals back to floats."""
    if isinstance(v, Fraction):
        return float(v)
    if isinstance(v, list):
        return [native(x) for x in v]
    if isinstance(v, tuple) and type(v) is tuple:
        return tuple(native(x) for x in v)
    if isinstance(v, dict):
        return {k: native(x) for k, x in v.items()}
    return v


def exact(v):
    if isinstance(v, (float, np.floating)) and not isinstance(v, bool):
        if v == v and abs(v) != float("inf"):
            return frac_of_float(v)
    if isinstance(v, np.integer):
        return int(v)
    if isinstance(v, np.bool_):
        return bool(v)
    return v


class ReturnX(Exception):
    def __init__(self, v):
        self.v = v


class BreakX(Exception):
    pass


class ContinueX(Exception):
    pass


class Env:
    def __init__(self, vars, globals_, parent=None):
        self.vars, self.globals, self.parent = vars, globals_, parent

    def lookup(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                return e.vars[name]
            e = e.parent
        if name in self.globals:
            v = self.globals[name]
            return exact(v)
        b = self.globals.get("__builtins__", builtins)
        b = b if isinstance(b, dict) else b.__dict__
        if name in b:
            return b[name]
        raise SymRaise(NameError(name))


class Closure:
    """A nested def / lambda of interpreted code."""
    _vf_model = True

    def __init__(self, interp, node, env, qual):
        self.interp, self.node, self.env, self.qual = interp, node, env, qual
        self.defaults = [interp.ev(d, env) for d in node.args.defaults]
        self.kwdefaults = [None if d is None else interp.ev(d, env) for d in node.args.kw_defaults]

    def __call__(self, *a, **k):
        return self.interp.run_body(self.node, self.env, list(a), k, self.defaults, self.kwdefaults, self.qual)


class BoundMethod:
    _vf_model = True

    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class SObj(Sym):
    """Instance of a repository (pydantic) class with symbolic field values."""

    def __init__(self, cls, fields, extra=None):
        object.__setattr__(self, "cls", cls)
        object.__setattr__(self, "fields", dict(fields))
        object.__setattr__(self, "extra", dict(extra or {}))
        ctx.born(self)

    def _subst(self, pairs):
        return SObj(self.cls, {k: subst(v, pairs) for k, v in self.fields.items()},
                    {k: subst(v, pairs) for k, v in self.extra.items()})

    def _equal(self, o):
        if not isinstance(o, SObj) or o.cls is not self.cls or set(o.fields) != set(self.fields):
            return z3.BoolVal(False)
        return z3.And(*[equal(self.fields[k], o.fields[k]) for k in self.fields])

    def _ite(self, c, o, rev):
        if isinstance(o, SObj) and o.cls is self.cls and set(o.fields) == set(self.fields):
            a, b = (o, self) if rev else (self, o)
            return SObj(self.cls, {k: ite(c, a.fields[k], b.fields[k]) for k in self.fields})
        return NotImplemented

    def __repr__(self):
        return f"SObj({self.cls.__name__}, {self.fields})"


class SDict:
    """__dict__ view of an SObj."""
    _vf_model = True

    def __init__(self, o):
        self.o = o

    def get(self, k, d=None):
        return self.o.extra.get(k, self.o.fields.get(k, d))

    def __getitem__(self, k):
        return self.get(k)

    def __setitem__(self, k, v):
        d = self.o.fields if k in self.o.fields else self.o.extra
        _mut_dict(self.o, d, k)
        d[k] = v

    def __contains__(self, k):
        return k in self.o.extra or k in self.o.fields

    def pop(self, k, d=None):
        _mut_dict(self.o, self.o.extra, k)
        return self.o.extra.pop(k, d)

    def setdefault(self, k, d=None):
        if k not in self:
            self[k] = d
        return self.get(k)


_MISSING = object()


def _mut_dict(owner, d, k):
    old = d.get(k, _MISSING)

    def undo():
        if old is _MISSING:
            d.pop(k, None)
        else:
            d[k] = old
    ctx.note_mut(owner, undo)


def _mut_list(lst):
    old = list(lst)

    def undo():
        lst[:] = old
    ctx.note_mut(lst, undo)


BIN = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
       ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow, ast.MatMult: operator.matmul,
       ast.BitAnd: operator.and_, ast.BitOr: operator.or_, ast.BitXor: operator.xor, ast.LShift: operator.lshift,
       ast.RShift: operator.rshift}
CMP = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge, ast.Eq: operator.eq,
       ast.NotEq: operator.ne}


class Interp:
    def __init__(self):
        self.depth = 0
        self.loop_hook = None

    # ---------------- calls
    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        ctx.check_deadline()
        if isinstance(f, Case):
            f = f.resolve()
        if isinstance(f, Closure):
            return f.interp.run_body(f.node, f.env, list(args), kwargs, f.defaults, f.kwdefaults, f.qual)
        if isinstance(f, BoundMethod):
            return self.call(f.func, [f.self_] + list(args), kwargs)
        try:
            m = MODELS.get(f)
        except TypeError:
            m = None
        if m is not None:
            r = m(self, args, kwargs)
            if r is not NotImplemented:
                return r
        if isinstance(f, types.MethodType):
            key = (type(f.__self__), f.__name__)
            mm = METHOD_MODELS.get(key)
            if mm is not None:
                r = mm(self, f.__self__, args, kwargs)
                if r is not NotImplemented:
                    return r
            if getattr(f.__self__, "_vf_model", False):
                return self.guard(f, args, kwargs)
            mod = getattr(f.__func__, "__module__", "") or ""
            if mod.split(".")[0] == REPO_PREFIX:
                return self.call(f.__func__, [f.__self__] + list(args), kwargs)
        if isinstance(f, types.BuiltinMethodType) and not isinstance(f.__self__, types.ModuleType):
            r = self.builtin_method(f.__self__, f.__name__, args, kwargs)
            if r is not NotImplemented:
                return r
        g = getattr(f, "py_func", f)
        if isinstance(g, types.FunctionType):
            mod = g.__module__ or ""
            if mod.split(".")[0] == REPO_PREFIX:
                q = mod + "." + g.__qualname__
                if q in CONTRACTS:
                    r = CONTRACTS[q](self, args, kwargs)
                    if r is not NotImplemented:
                        return r
                return self.call_repo(g, args, kwargs)
            if (mod, g.__qualname__) in INLINE and (is_sym(list(args)) or is_sym(kwargs)):
                return self.call_repo(g, args, kwargs)
            if getattr(g, "_vf_model", False):
                return self.guard(g, args, kwargs)
        if isinstance(f, type):
            cm = CLASS_MODELS.get(f)
            if cm is not None:
                r = cm(self, args, kwargs)
                if r is not NotImplemented:
                    return r
            if getattr(f, "_vf_model", False):
                return self.guard(f, args, kwargs)
            if (is_sym(list(args)) or is_sym(kwargs)) and (f.__module__ or "").split(".")[0] == REPO_PREFIX:
                return self.construct(f, args, kwargs)
            if issubclass(f, BaseException):
                return f(*[str(a) if is_sym(a) else a for a in args])
        if getattr(f, "_vf_model", False):
            return self.guard(f, args, kwargs)
        if is_sym(list(args)) or is_sym(kwargs):
            raise Unsupported(f"call of {getattr(f, '__module__', '')}.{getattr(f, '__qualname__', f)} with symbolic arguments")
        return self.guard(f, [native(a) for a in args], {k: native(v) for k, v in kwargs.items()}, True)

    def guard(self, f, args, kwargs, conc=False):
        try:
            r = f(*args, **kwargs)
            return exact(r) if conc else r
        except (Unsupported, PathEnd, SymRaise, ReturnX, BreakX, ContinueX, KeyboardInterrupt, MemoryError):
            raise
        except Exception as e:
            if conc:
                raise SymRaise(e)
            raise Unsupported(f"model {getattr(f, '__name__', f)} failed: {type(e).__name__}: {e}")

    def call_repo(self, g, args, kwargs):
        node = func_ast(g)
        ctx.functions.add(g.__module__ + "." + g.__qualname__)
        parent = None
        if g.__closure__:
            parent = Env({n: c.cell_contents for n, c in zip(g.__code__.co_freevars, g.__closure__)}, g.__globals__)
        env = parent or Env({}, g.__globals__)
        defaults = [exact(d) for d in (g.__defaults__ or ())]
        kwd = [exact((g.__kwdefaults__ or {}).get(a.arg)) for a in node.args.kwonlyargs]
        return self.run_body(node, env, list(args), kwargs, defaults, kwd, g.__qualname__)

    def run_body(self, node, penv, args, kwargs, defaults, kwdefaults, qual):
        if self.depth > 60:
            raise Unsupported("recursion too deep")
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vars_ = {}
        kwargs = dict(kwargs)
        if len(args) > len(names) and a.vararg is None:
            raise SymRaise(TypeError("too many arguments"))
        for n, v in zip(names, args):
            vars_[n] = v
        if a.vararg is not None:
            vars_[a.vararg.arg] = tuple(args[len(names):])
        off = len(names) - len(defaults)
        for i, n in enumerate(names):
            if n in vars_ and i < len(args):
                if n in kwargs:
                    raise SymRaise(TypeError("multiple values"))
                continue
            if n in kwargs:
                vars_[n] = kwargs.pop(n)
            elif i >= off:
                vars_[n] = defaults[i - off]
            else:
                raise SymRaise(TypeError(f"missing argument {n}"))
        for x, d in zip(a.kwonlyargs, kwdefaults):
            vars_[x.arg] = kwargs.pop(x.arg) if x.arg in kwargs else d
        if a.kwarg is not None:
            vars_[a.kwarg.arg] = kwargs
        elif kwargs:
            raise SymRaise(TypeError(f"unexpected keyword {list(kwargs)}"))
        vars_ = {k: exact(v) for k, v in vars_.items()}
        env = Env(vars_, penv.globals, penv)
        env.qual = qual
        self.depth += 1
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, env)
            try:
                self.block(node.body, env)
            except ReturnX as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    # construction of repository (pydantic) objects with symbolic fields
    def construct(self, cls, args, kwargs):
        mf = getattr(cls, "model_fields", None)
        if mf is None:
            raise Unsupported(f"construct {cls}")
        if args:
            raise SymRaise(TypeError("positional args"))
        fields = {}
        for n, fi in mf.items():
            if n in kwargs:
                v = kwargs[n]
                self.check_field(cls, n, fi, v)
                fields[n] = v
            elif not fi.is_required():
                fields[n] = exact(fi.get_default(call_default_factory=True))
            else:
                raise SymRaise(ValueError(f"missing field {n}"), cls="ValidationError")
        o = SObj(cls, fields)
        for vname, dec in getattr(cls.__pydantic_decorators__, "model_validators", {}).items():
            self.call(getattr(cls, vname), [o], {})
        return o

    def check_field(self, cls, n, fi, v):
        """pydantic bound constraints (assumed contract of pydantic): violation = ValidationError path."""
        ctx.trust("pydantic enforces declared field bounds and runs the declared validators")
        if getattr(v, "_invalid", False):
            raise SymRaise(ValueError(f"{cls.__name__}.{n} of a wrong type"), cls="ValidationError")
        for m in fi.metadata:
            for attr, op in (("ge", operator.ge), ("gt", operator.gt), ("le", operator.le), ("lt", operator.lt)):
                b = getattr(m, attr, None)
                if b is not None and (isinstance(v, Num) or is_num(v)):
                    b = exact(b)
                    if not self.truth(op(v if isinstance(v, Sym) else exact(v), b)):
                        raise SymRaise(ValueError(f"{cls.__name__}.{n} out of range"), cls="ValidationError")

    # ---------------- truth
    def truth(self, v):
        if isinstance(v, Case):
            v = v.resolve()
        if isinstance(v, SBool):
            return decide(v.e)
        if isinstance(v, Num):
            return decide(v.e != 0)
        if isinstance(v, Sym):
            if hasattr(v, "_truth"):
                t = v._truth()
                return t if isinstance(t, bool) else decide(zb(t))
            return True
        return bool(v)

    # ---------------- statements
    def block(self, stmts, env):
        for s in stmts:
            self.st(s, env)

    def st(self, s, env):
        t = type(s)
        if t is ast.Expr:
            if isinstance(s.value, ast.Constant):
                return
            self.ev(s.value, env)
        elif t is ast.Assign:
            v = self.ev(s.value, env)
            for tg in s.targets:
                self.assign(tg, v, env)
        elif t is ast.AnnAssign:
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env), env)
        elif t is ast.AugAssign:
            if isinstance(s.target, ast.Name):
                cur = self.ev(ast.Name(id=s.target.id, ctx=ast.Load()), env)
                rhs = self.ev(s.value, env)
                if isinstance(cur, list) and isinstance(s.op, ast.Add):
                    v = cur + self.as_list(rhs) if isinstance(rhs, (list, tuple)) else self.seq_concat(cur, rhs)
                else:
                    v = self.binop(type(s.op), cur, rhs)
                self.assign(s.target, v, env)
            elif isinstance(s.target, ast.Subscript):
                o = self.ev(s.target.value, env)
                ix = self.index(s.target.slice, env)
                v = self.binop(type(s.op), self.getitem(o, ix), self.ev(s.value, env))
                self.setitem(o, ix, v)
            else:
                o = self.ev(s.target.value, env)
                v = self.binop(type(s.op), self.getattr(o, s.target.attr), self.ev(s.value, env))
                self.setattr(o, s.target.attr, v)
        elif t is ast.Return:
            raise ReturnX(None if s.value is None else self.ev(s.value, env))
        elif t is ast.If:
            self.st_if(s, env)
        elif t is ast.For:
            self.st_for(s, env)
        elif t is ast.While:
            self.st_while(s, env)
        elif t is ast.Raise:
            if s.exc is None:
                raise SymRaise(env.lookup("__active_exc__"))
            e = self.ev(s.exc, env)
            if isinstance(e, type):
                e = e()
            raise SymRaise(e)
        elif t is ast.With:
            self.st_with(s, env)
        elif t is ast.Try:
            self.st_try(s, env)
        elif t is ast.With:
            mgrs = []
            for it in s.items:
                m = self.ev(it.context_expr, env)
                v = self.call(self.getattr(m, "__enter__"), [])
                mgrs.append(m)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, env)
            try:
                self.block(s.body, env)
            finally:
                for m in reversed(mgrs):
                    self.call(self.getattr(m, "__exit__"), [None, None, None])
        elif t is ast.FunctionDef:
            env.vars[s.name] = Closure(self, s, env, getattr(env, "qual", "") + "." + s.name)
        elif t in (ast.Pass, ast.Global, ast.Nonlocal):
            pass
        elif t is ast.Break:
            raise BreakX()
        elif t is ast.Continue:
            raise ContinueX()
        elif t is ast.Assert:
            if not self.truth(self.ev(s.test, env)):
                raise SymRaise(AssertionError())
        elif t in (ast.Import, ast.ImportFrom):
            ns = {}
            exec(compile(ast.Module([s], []), "<imp>", "exec"), dict(env.globals), ns)
            env.vars.update(ns)
        elif t is ast.Delete:
            for tg in s.targets:
                if isinstance(tg, ast.Name):
                    env.vars.pop(tg.id, None)
                else:
                    raise Unsupported("del")
        else:
            raise Unsupported(f"statement {t.__name__}")

    def simple_assigns(self, body):
        names = set()
        for s in body:
            if isinstance(s, (ast.Assign,)) and all(isinstance(x, ast.Name) for x in s.targets):
                names |= {x.id for x in s.targets}
            elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                names.add(s.target.id)
            elif isinstance(s, ast.Pass):
                pass
            elif isinstance(s, ast.If):
                r1, r2 = self.simple_assigns(s.body), self.simple_assigns(s.orelse)
                if r1 is None or r2 is None:
                    return None
                names |= r1 | r2
            else:
                return None
        return names

    def st_if(self, s, env):
        c = self.ev(s.test, env)
        if isinstance(c, Case):
            c = c.resolve()
        if isinstance(c, Num):
            c = c != 0
        if isinstance(c, SBool):
            cz = z3.simplify(c.e)
            if z3.is_true(cz):
                c = True
            elif z3.is_false(cz):
                c = False
        if isinstance(c, SBool):
            n1, n2 = self.simple_assigns(s.body), self.simple_assigns(s.orelse)
            if n1 is not None and n2 is not None:
                names = n1 | n2
                r1 = self.try_branch(s.body, env, c.e, names)
                r2 = self.try_branch(s.orelse, env, z3.Not(c.e), names) if r1 is not None else None
                if r1 is not None and r2 is not None and all((n in r1) and (n in r2) for n in names):
                    try:
                        merged = {n: ite(c.e, r1[n], r2[n]) for n in names}
                        env.vars.update(merged)
                        return
                    except Unsupported:
                        pass
        if self.truth(c):
            self.block(s.body, env)
        else:
            self.block(s.orelse, env)

    def try_branch(self, body, env, cond, names):
        """Execute simple assignments under cond on a copy; None unless exactly one normal path."""
        def thunk():
            core.ctx.pc.append(("br", cond))
            e2 = Env(dict(env.vars), env.globals, env.parent)
            e2.qual = getattr(env, "qual", "")
            self.block(body, e2)
            return {n: e2.vars[n] for n in names if n in e2.vars}
        ps = explore(thunk)
        if len(ps) != 1 or ps[0].kind != "ret" or ps[0].mutated or sum(1 for k, _ in ps[0].entries if k == "br") != 1:
            return None
        for f in ps[0].facts:
            assume(f)
        return ps[0].value

    def st_try(self, s, env):
        try:
            try:
                self.block(s.body, env)
            except SymRaise as r:
                for h in s.handlers:
                    if self.exc_match(r, h, env):
                        if h.name:
                            env.vars[h.name] = r.exc
                        env.vars["__active_exc__"] = r.exc
                        self.block(h.body, env)
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env)
        finally:
            if s.finalbody:
                self.block(s.finalbody, env)

    def st_with(self, s, env):
        cms = []
        for it in s.items:
            cm = self.ev(it.context_expr, env)
            if not hasattr(cm, "_enter"):
                raise Unsupported("with " + type(cm).__name__)
            x = cm._enter(self)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, x, env)
            cms.append(cm)
        try:
            self.block(s.body, env)
        finally:
            for cm in reversed(cms):
                cm._exit(self)

    def exc_match(self, r, h, env):
        if h.type is None:
            return True
        t = self.ev(h.type, env)
        ts = t if isinstance(t, tuple) else (t,)
        for c in ts:
            if isinstance(r.cls, str):
                if r.cls == c.__name__ or issubclass(ValueError, c):
                    return True
            elif isinstance(c, type) and issubclass(r.cls, c):
                return True
        return False

    # ---------------- loops
    def st_for(self, s, env):
        it = self.ev(s.iter, env)
        self.for_over(s, it, env)

    def for_over(self, s, it, env):
        from . import seq
        if isinstance(it, Case):
            it = it.resolve()
        it = seq.iterable(self, it)
        if isinstance(it, seq.Seq):
            rule = LOOP_RULES.get(getattr(env, "qual", ""), LOOP_RULES.get("*"))
            if rule is not None and rule(self, s, it, env):
                return
            seq.for_loop(self, s, it, env)
            return
        broke = False
        for x in it:
            self.assign(s.target, x, env)
            try:
                self.block(s.body, env)
            except BreakX:
                broke = True
                break
            except ContinueX:
                continue
        if not broke:
            self.block(s.orelse, env)

    def st_while(self, s, env):
        # concrete unrolling while the condition is concrete (bounded), else last-iteration rule
        for _ in range(2000):
            c = self.ev(s.test, env)
            if isinstance(c, (Num, SBool, Case)):
                break
            if not self.truth(c):
                self.block(s.orelse, env)
                return
            try:
                self.block(s.body, env)
            except BreakX:
                return
            except ContinueX:
                pass
        else:
            raise Unsupported("while loop too long")
        assigned = set()
        for n in ast.walk(ast.Module(s.body, [])):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                assigned.add(n.id)
            if isinstance(n, (ast.Break, ast.Continue, ast.Return)):
                raise Unsupported("break in symbolic while")
            if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store):
                raise Unsupported("store in symbolic while")
        ctx.trust("termination of while loops is not verified (partial correctness)")
        if not self.truth(c):
            self.block(s.orelse, env)
            return
        # arbitrary loop state at the last iteration (all assigned variables havoced)
        for n in assigned:
            if n in env.vars:
                v = env.vars[n]
                if isinstance(v, (int, float, Fraction, Num)) and not isinstance(v, bool):
                    env.vars[n] = core.freal(n)
                elif isinstance(v, (bool, SBool)):
                    env.vars[n] = core.fbool(n)
                else:
                    raise Unsupported("while havoc of non-scalar")
        assume(zb(self.ev(s.test, env)))
        self.block(s.body, env)
        t = self.ev(s.test, env)
        assume(z3.Not(zb(t)))

    # ---------------- assignment
    def assign(self, tg, v, env):
        if isinstance(tg, ast.Name):
            env.vars[tg.id] = v
        elif isinstance(tg, (ast.Tuple, ast.List)):
            from . import seq
            vals = self.as_list(v, len(tg.elts))
            if any(isinstance(e, ast.Starred) for e in tg.elts):
                raise Unsupported("starred assignment")
            if len(vals) != len(tg.elts):
                raise SymRaise(ValueError("unpack"))
            for e, x in zip(tg.elts, vals):
                self.assign(e, x, env)
        elif isinstance(tg, ast.Attribute):
            self.setattr(self.ev(tg.value, env), tg.attr, v)
        elif isinstance(tg, ast.Subscript):
            self.setitem(self.ev(tg.value, env), self.index(tg.slice, env), v)
        else:
            raise Unsupported("assignment target")

    def as_list(self, v, n=None):
        if isinstance(v, Case):
            v = v.resolve()
        if isinstance(v, (list, tuple)):
            return list(v)
        if hasattr(v, "_unpack"):
            return v._unpack(n)
        if isinstance(v, np.ndarray):
            return list(v)
        if isinstance(v, Sym):
            from . import seq
            it = seq.iterable(self, v)
            if isinstance(it, seq.Seq):
                k = it.concrete_len()
                if k is None and n is not None:
                    raise Unsupported("unpack symbolic-length sequence")
                if k is None:
                    raise Unsupported("symbolic-length sequence used as list")
                return [it.get(i) for i in range(k)]
            return list(it)
        return list(v)

    def setattr(self, o, name, v):
        if isinstance(o, SObj):
            _mut_dict(o, o.fields, name)
            o.fields[name] = v
            return
        if getattr(o, "_vf_model", False):
            if hasattr(type(o), "_setattr"):
                o._setattr(name, v)
            else:
                setattr(o, name, v)
            return
        if is_sym(v):
            raise Unsupported(f"store symbolic attribute on {type(o)}")
        setattr(o, name, native(v))

    def setitem(self, o, ix, v):
        from . import seq
        if isinstance(o, Case):
            o = o.resolve()
        if ctx.loop_effects is not None and ctx.loop_effects.owns(o):
            ctx.loop_effects.record("store", o, (ix, v))
            return
        if hasattr(o, "_setitem"):
            o._setitem(self, ix, v)
            return
        if isinstance(o, (dict, SDict)):
            if is_sym(ix):
                raise Unsupported("symbolic dict key")
            if isinstance(o, dict):
                _mut_dict(o, o, ix)
            o[ix] = v
            return
        if isinstance(o, (list, np.ndarray)):
            if is_sym(ix):
                raise Unsupported("symbolic index store into concrete list")
            if isinstance(o, np.ndarray) and o.dtype != object and is_sym(v):
                raise Unsupported("symbolic store into numeric array")
            if isinstance(o, list):
                _mut_list(o)
            else:
                old = o.copy()
                ctx.note_mut(o, lambda: o.__setitem__(Ellipsis, old))
            o[ix] = v if isinstance(o, list) or o.dtype == object else native(v)
            return
        if is_sym(v) or is_sym(ix):
            raise Unsupported(f"setitem on {type(o)}")
        o[native(ix)] = native(v)

    # ---------------- expressions
    def ev(self, n, env):
        t = type(n)
        m = getattr(self, "ev_" + t.__name__, None)
        if m is None:
            raise Unsupported(f"expression {t.__name__}")
        return m(n, env)

    def ev_Constant(self, n, env):
        v = n.value
        return frac_of_float(v) if isinstance(v, float) else v

    def ev_Name(self, n, env):
        return env.lookup(n.id)

    def ev_Tuple(self, n, env):
        return tuple(self.ev_items(n.elts, env))

    def ev_List(self, n, env):
        r = self.ev_items(n.elts, env)
        if any(isinstance(x, _Splat) for x in r):
            out = []
            for x in r:
                out = self.seq_concat(out, x.v if isinstance(x, _Splat) else [x])
            return out
        return ctx.born(r)

    def ev_items(self, elts, env):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, env)
                if isinstance(v, (list, tuple)):
                    out += list(v)
                elif isinstance(v, Sym):
                    try:
                        out += self.as_list(v)
                    except Unsupported:
                        out.append(_Splat(v))
                else:
                    out += list(v)
            else:
                out.append(self.ev(e, env))
        return out

    def ev_Set(self, n, env):
        v = [self.ev(e, env) for e in n.elts]
        if is_sym(v):
            raise Unsupported("symbolic set")
        return set(v)

    def ev_Dict(self, n, env):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                d.update(self.ev(v, env))
            else:
                d[self.ev(k, env)] = self.ev(v, env)
        return ctx.born(d)

    def ev_JoinedStr(self, n, env):
        out = ""
        for v in n.values:
            if isinstance(v, ast.Constant):
                out += v.value
            else:
                x = self.ev(v.value, env)
                out += str(x) if not is_sym(x) else "<sym>"
        return out

    def ev_Lambda(self, n, env):
        return Closure(self, n, env, getattr(env, "qual", "") + ".<lambda>")

    def ev_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        env.vars[n.target.id] = v
        return v

    def ev_Starred(self, n, env):
        raise Unsupported("starred")

    def ev_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        if isinstance(v, Case):
            v = v.resolve()
        if isinstance(n.op, ast.Not):
            if isinstance(v, SBool):
                return mkb(z3.Not(v.e))
            if isinstance(v, Num):
                return mkb(v.e == 0)
            return not self.truth(v)
        if isinstance(n.op, ast.USub):
            return -v
        if isinstance(n.op, ast.UAdd):
            return +v
        return ~v

    def ev_BinOp(self, n, env):
        return self.binop(type(n.op), self.ev(n.left, env), self.ev(n.right, env))

    def binop(self, op, a, b):
        if isinstance(a, Case):
            a = a.resolve()
        if isinstance(b, Case):
            b = b.resolve()
        if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)) and not isinstance(a, bool):
            try:
                if op is ast.Div:
                    r = Fraction(a) / Fraction(b)
                    return r
                if op is ast.Pow:
                    if isinstance(b, Fraction) or b < 0:
                        return core.power(a, b) if not (isinstance(b, int)) else Fraction(a) ** b
                return BIN[op](a, b)
            except ZeroDivisionError as e:
                raise SymRaise(e)
        if isinstance(a, Fraction) and not (isinstance(b, (int, float, Sym)) or getattr(b, "_vf_model", False)):
            a = a if isinstance(b, np.ndarray) and b.dtype == object else float(a)
        if isinstance(b, Fraction) and not (isinstance(a, (int, float, Sym)) or getattr(a, "_vf_model", False)):
            b = b if isinstance(a, np.ndarray) and a.dtype == object else float(b)
        if isinstance(a, list) and isinstance(b, Sym) or isinstance(b, list) and isinstance(a, Sym):
            if op is ast.Add:
                return self.seq_concat(a, b)
        if op is ast.Mult and isinstance(a, list) and isinstance(b, Num):
            from . import seq
            return seq.repeat(a, b)
        if op is ast.Pow and (isinstance(a, Num) or isinstance(b, Num)):
            return core.power(a, b)
        if isinstance(a, np.ndarray) and isinstance(b, Sym) and not isinstance(b, (Num, SBool)) or (
                isinstance(b, np.ndarray) and isinstance(a, Sym) and not isinstance(a, (Num, SBool))):
            from . import seq
            return seq.arr_sym_op(op, a, b)
        if op is ast.Div and isinstance(b, (Num, int, Fraction)) and isinstance(a, (Num, int, Fraction)):
            self.check_div(b)
        if isinstance(b, Sym) and not isinstance(a, Sym) and hasattr(b, "_rbin"):
            r = b._rbin(op, a)
            if r is not NotImplemented:
                return r
        try:
            if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
                return _arr_bin(BIN[op], a, b)
            return exact(BIN[op](a, b))
        except (Unsupported, PathEnd, SymRaise):
            raise
        except Exception as e:
            if is_sym(a) or is_sym(b):
                raise Unsupported(f"{op.__name__} on {type(a).__name__}, {type(b).__name__}: {e}")
            raise SymRaise(e)

    div_checks = False

    def check_div(self, b):
        if self.div_checks and isinstance(b, Num):
            core.oblig("divisor is never zero", b.e != 0)

    def seq_concat(self, a, b):
        from . import seq
        return seq.concat(self, a, b)

    def ev_BoolOp(self, n, env):
        isand = isinstance(n.op, ast.And)
        acc = None
        for i, e in enumerate(n.values):
            if acc is None:
                v = self.ev(e, env)
            else:
                # evaluate under the assumption that evaluation continues
                guard = acc if isand else z3.Not(acc)
                ps = self.sub_eval(e, env, guard)
                if ps is None:
                    # fork
                    if decide(acc) != isand:
                        return not isand
                    acc = None
                    v = self.ev(e, env)
                else:
                    v = ps
            if isinstance(v, Case):
                v = v.resolve()
            if isinstance(v, SBool) or isinstance(v, Num) or (acc is not None and isinstance(v, (bool, np.bool_))):
                z = zb(v)
                acc = z if acc is None else (z3.And(acc, z) if isand else z3.Or(acc, z))
                sz = z3.simplify(acc)
                if z3.is_false(sz) and isand:
                    return False
                if z3.is_true(sz) and not isand:
                    return True
                continue
            last = i == len(n.values) - 1
            if acc is None:
                if last:
                    return v
                if self.truth(v) != isand:
                    return v
                continue
            # non-boolean value after symbolic prefix: fork
            if decide(acc) != isand:
                return not isand
            acc = None
            if last:
                return v
            if self.truth(v) != isand:
                return v
        return mkb(z3.simplify(acc)) if acc is not None else isand

    def sub_eval(self, e, env, guard):
        """Evaluate e under guard; a bool-like value, or None if that forks/raises/has other type."""
        def thunk():
            ctx.pc.append(("br", guard))
            return self.ev(e, env)
        mark = len(ctx.obligs)
        ps = explore(thunk)
        if not ps:
            return None
        if any(p.kind != "ret" or p.mutated for p in ps) or any(isinstance(p.value, Case) for p in ps):
            del ctx.obligs[mark:]
            return None
        if not all(isinstance(p.value, (bool, np.bool_, SBool)) for p in ps):
            if len(ps) > 1 or isinstance(ps[0].value, Sym):
                del ctx.obligs[mark:]
                return None
        for p in ps:
            for f in p.facts:
                assume(f)
        if len(ps) == 1:
            return ps[0].value
        v = z3.Or(*[z3.And(_noguard(p), zb(p.value)) for p in ps])
        return mkb(z3.simplify(v))

    def ev_Compare(self, n, env):
        left = self.ev(n.left, env)
        acc = None
        for op, rn in zip(n.ops, n.comparators):
            right = self.ev(rn, env)
            r = self.compare(type(op), left, right)
            if len(n.ops) == 1:
                return r
            if isinstance(r, SBool):
                acc = r.e if acc is None else z3.And(acc, r.e)
            elif not r:
                return False
            left = right
        return True if acc is None else mkb(z3.simplify(acc))

    def identical(self, a, b):
        if a is b:
            return True
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (SBool, Num)) and isinstance(y, (SBool, Num, bool, int, float, np.generic)):
                # a symbolic constant of sort bool stands for a Python bool, of which there are two
                if isinstance(x, SBool) and isinstance(y, bool) and z3.is_const(x.e):
                    return mkb(x.e == y)
                raise Unsupported("identity of symbolic values")
        return False

    def compare(self, op, a, b):
        if isinstance(a, Case):
            a = a.resolve()
        if isinstance(b, Case):
            b = b.resolve()
        if op in (ast.Is, ast.IsNot):
            r = self.identical(a, b)
            return r if op is ast.Is else mkb(z3.Not(r.e)) if isinstance(r, SBool) else not r
        if op in (ast.In, ast.NotIn):
            r = self.contains(b, a)
            if op is ast.NotIn:
                return mkb(z3.Not(r.e)) if isinstance(r, SBool) else not r
            return r
        if isinstance(a, Fraction) and isinstance(b, np.ndarray) or isinstance(b, Fraction) and isinstance(a, np.ndarray):
            a, b = native(a) if not isinstance(a, np.ndarray) else a, native(b) if not isinstance(b, np.ndarray) else b
        if isinstance(a, np.ndarray) and isinstance(b, Sym) and not isinstance(b, (Num, SBool)) or (
                isinstance(b, np.ndarray) and isinstance(a, Sym) and not isinstance(a, (Num, SBool))):
            from . import seq
            return seq.arr_sym_op(op, a, b)
        try:
            if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
                return _arr_bin(CMP[op], a, b)
            r = CMP[op](a, b)
            return bool(r) if isinstance(r, np.bool_) else r
        except (Unsupported, PathEnd, SymRaise):
            raise
        except Exception as e:
            if is_sym(a) or is_sym(b):
                raise Unsupported(f"compare {type(a).__name__} {type(b).__name__}: {e}")
            raise SymRaise(e)

    def contains(self, c, x):
        if hasattr(c, "_contains"):
            return c._contains(x)
        if isinstance(c, (list, tuple, set)) and (is_sym(x) or is_sym(c)):
            e = [equal(x, y) for y in c]
            return mkb(z3.simplify(z3.Or(*e))) if e else False
        if is_sym(x) or (is_sym(c) and not isinstance(c, dict) and not isinstance(c, SDict)):
            raise Unsupported("in")
        return x in c

    def ev_IfExp(self, n, env):
        c = self.ev(n.test, env)
        if isinstance(c, Case):
            c = c.resolve()
        if isinstance(c, Num):
            c = c != 0
        if isinstance(c, SBool):
            z = z3.simplify(c.e)
            if z3.is_true(z):
                return self.ev(n.body, env)
            if z3.is_false(z):
                return self.ev(n.orelse, env)
            def side(e, g):
                def thunk():
                    ctx.pc.append(("br", g))
                    return self.ev(e, env)
                mark = len(ctx.obligs)
                ps = explore(thunk)
                if len(ps) != 1 or ps[0].kind != "ret" or ps[0].mutated or sum(1 for k, _ in ps[0].entries if k == "br") != 1:
                    del ctx.obligs[mark:]
                    return None
                return ps[0]
            if core.feasible(z) and core.feasible(z3.Not(z)):
                p1 = side(n.body, z)
                p2 = side(n.orelse, z3.Not(z)) if p1 is not None else None
                if p1 is not None and p2 is not None:
                    try:
                        v = ite(z, p1.value, p2.value)
                        if not isinstance(v, Case):
                            for f in p1.facts + p2.facts:
                                assume(f)
                            return v
                    except Unsupported:
                        pass
        return self.ev(n.body if self.truth(c) else n.orelse, env)

    def ev_Attribute(self, n, env):
        return self.getattr(self.ev(n.value, env), n.attr)

    def getattr(self, o, name):
        if isinstance(o, Case):
            o = o.resolve()
        if isinstance(o, SObj):
            if name == "__dict__":
                return SDict(o)
            if name in o.fields:
                return o.fields[name]
            if name == "__class__":
                return o.cls
            d = inspect.getattr_static(o.cls, name, None)
            if isinstance(d, property):
                return self.call(d.fget, [o])
            if isinstance(d, (staticmethod, classmethod)):
                return getattr(o.cls, name)
            if d is not None:
                return BoundMethod(getattr(o.cls, name), o)
            if name in o.extra:
                return o.extra[name]
            raise SymRaise(AttributeError(name))
        if (o is np or (isinstance(o, types.ModuleType) and o.__name__ == "math")) and name == "pi":
            return Num(core.PI)
        if isinstance(o, types.ModuleType):
            try:
                return exact(getattr(o, name))
            except AttributeError as e:
                raise SymRaise(e)
        if isinstance(o, Num):
            if name == "copy":
                return lambda_model(lambda: o)
            if name in ("item",):
                return lambda_model(lambda: o)
            raise Unsupported(f"attribute {name} of symbolic number")
        if isinstance(o, (list, dict, np.ndarray, str)) and not hasattr(o, name):
            raise SymRaise(AttributeError(name))
        try:
            v = getattr(o, name)
        except (Unsupported, SymRaise, PathEnd):
            raise
        except AttributeError as e:
            if getattr(o, "_vf_model", False):
                raise Unsupported(f"model {type(o).__name__} has no attribute {name}")
            raise SymRaise(e)
        return exact(v) if not getattr(o, "_vf_model", False) else v

    def index(self, s, env):
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self.ev(x, env)
            return slice(f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            return tuple(self.index(e, env) for e in s.elts)
        return self.ev(s, env)

    def ev_Subscript(self, n, env):
        return self.getitem(self.ev(n.value, env), self.index(n.slice, env))

    def getitem(self, o, ix):
        if isinstance(o, Case):
            o = o.resolve()
        if isinstance(ix, Case):
            ix = ix.resolve()
        if hasattr(o, "_getitem"):
            return o._getitem(self, ix)
        if isinstance(ix, slice):
            ix = slice(*[_cint(x) for x in (ix.start, ix.stop, ix.step)])
        if isinstance(o, (list, tuple)) and isinstance(ix, Num):
            c = core.const_of(z3.simplify(ix.e))
            if c is None:
                # pick by cases over the concrete list
                n = len(o)
                if n == 0:
                    raise SymRaise(IndexError())
                core_ok = z3.And(ix.e >= -n, ix.e < n)
                if not decide(core_ok):
                    raise SymRaise(IndexError())
                v = o[n - 1]
                for k in range(n - 2, -1, -1):
                    v = ite(z3.Or(ix.e == k, ix.e == k - n), o[k], v)
                return v
            ix = c
        if isinstance(ix, SBool) and isinstance(o, (list, tuple)):
            return ite(ix.e, o[1], o[0])
        if is_sym(ix):
            from . import seq
            return seq.index_concrete(self, o, ix)
        try:
            r = o[native(ix)]
            return exact(r)
        except (Unsupported, SymRaise, PathEnd):
            raise
        except Exception as e:
            raise SymRaise(e)

    def ev_Call(self, n, env):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            raise Unsupported("super()")
        f = self.ev(n.func, env)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env)
                args += self.as_list(v)
            else:
                args.append(self.ev(a, env))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                m = self.ev(k.value, env)
                if isinstance(m, Sym):
                    raise Unsupported("** of a symbolic value")
                if not hasattr(m, "keys"):
                    raise SymRaise(TypeError("argument after ** must be a mapping"))
                if not all(isinstance(x, str) for x in m):
                    raise SymRaise(TypeError("keywords must be strings"))
                kw.update(m)
            else:
                kw[k.arg] = self.ev(k.value, env)
        # list mutators
        if isinstance(f, types.BuiltinMethodType) and isinstance(f.__self__, list):
            lst = f.__self__
            if f.__name__ in ("append", "extend") and ctx.loop_effects is not None and ctx.loop_effects.owns(lst):
                ctx.loop_effects.record(f.__name__, lst, args[0])
                return None
            if f.__name__ == "extend" and isinstance(args[0], Sym):
                args = [self.as_list(args[0])]
        return self.call(f, args, kw)

    # comprehensions
    def comp(self, n, env, elt):
        from . import seq
        return seq.comprehension(self, n.generators, elt, env)

    def ev_ListComp(self, n, env):
        return self.comp(n, env, lambda e: self.ev(n.elt, e))

    def ev_GeneratorExp(self, n, env):
        return self.comp(n, env, lambda e: self.ev(n.elt, e))

    def ev_SetComp(self, n, env):
        r = self.comp(n, env, lambda e: self.ev(n.elt, e))
        if is_sym(r):
            raise Unsupported("symbolic set comprehension")
        return set(r)

    def ev_DictComp(self, n, env):
        r = self.comp(n, env, lambda e: (self.ev(n.key, e), self.ev(n.value, e)))
        if not isinstance(r, list):
            raise Unsupported("symbolic dict comprehension")
        return dict(r)

    # builtin methods of native containers given symbolic arguments
    def builtin_method(self, o, name, args, kw):
        if isinstance(o, list):
            if name in ("append", "extend", "insert", "copy", "reverse", "pop", "remove", "clear"):
                if name != "copy":
                    _mut_list(o)
                    return self.guard(getattr(o, name), args, kw)
                return ctx.born(list(o))
            if False:
                return self.guard(getattr(o, name), args, kw)
            if name == "sort" and is_sym(o):
                raise Unsupported("sort of symbolic list")
            if name == "index" and (is_sym(o) or is_sym(list(args))):
                raise Unsupported("index in symbolic list")
        if isinstance(o, dict) and name in ("get", "items", "keys", "values", "update", "pop", "copy", "setdefault"):
            if name in ("items", "keys", "values"):
                return list(getattr(o, name)())
            return self.guard(getattr(o, name), args, kw)
        if type(o).__name__ == "Pattern":
            from . import strs
            return strs.pattern_method(self, o, name, args)
        if isinstance(o, str) and name == "join":
            from . import seq
            if is_sym(list(args)):
                return seq.str_join(self, o, args[0])
        if isinstance(o, np.ndarray) and o.dtype == object and name in ("copy", "tolist", "transpose", "reshape", "ravel", "flatten"):
            return self.guard(getattr(o, name), args, kw)
        return NotImplemented


class _Splat:
    def __init__(self, v):
        self.v = v


def _noguard(p):
    br = [f for k, f in p.entries if k == "br"][1:]
    return z3.And(*br) if br else z3.BoolVal(True)


def _cint(x):
    if isinstance(x, Num):
        c = core.const_of(z3.simplify(x.e))
        if c is None:
            raise Unsupported("symbolic slice bound")
        return int(c)
    if isinstance(x, Fraction):
        return int(x)
    return x


def _arr_bin(f, a, b):
    """Elementwise on numpy arrays possibly holding symbolic objects."""
    if not (is_sym(a) or is_sym(b)):
        return f(native(a), native(b))
    A = a if isinstance(a, np.ndarray) else None
    B = b if isinstance(b, np.ndarray) else None
    if f is operator.matmul:
        return np.dot(A, B)
    if A is None:
        A = np.empty((), dtype=object)
        A[()] = a
    if B is None:
        B = np.empty((), dtype=object)
        B[()] = b
    shape = np.broadcast_shapes(A.shape, B.shape)
    A2, B2 = np.broadcast_to(A, shape), np.broadcast_to(B, shape)
    out = np.empty(shape, dtype=object)
    for ix in np.ndindex(shape):
        x, y = exact(A2[ix]), exact(B2[ix])
        if f is operator.truediv and isinstance(x, (int, Fraction)) and isinstance(y, (int, Fraction)):
            out[ix] = Fraction(x) / Fraction(y)
        elif f is operator.pow:
            out[ix] = core.power(x, y)
        else:
            out[ix] = f(x, y)
    return out


class lambda_model:
    _vf_model = True

    def __init__(self, f):
        self.f = f

    def __call__(self, *a, **k):
        return self.f(*a, **k)
