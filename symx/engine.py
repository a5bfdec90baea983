"""Path exploration by re-execution, obligations, witnesses, concrete replay."""

import hashlib
import io
import math
import random
import sys
import time
import traceback
import warnings
from contextlib import redirect_stderr, redirect_stdout
from fractions import Fraction

import mpmath
import numpy as np

from . import solver as S
from . import terms as T

mp = mpmath.mp.clone()
mp.dps = 30


class Stop(BaseException):
    """path abandoned: infeasible or assumption failed"""


class AssumptionFailed(BaseException):
    pass


def _key(f):
    if f[0] == "cmp":
        return ("cmp", T.p_key(f[1]), f[2])
    return (f[0],) + tuple(_key(x) for x in f[1:])


def neg(f):
    if f[0] == "cmp":
        op = f[2]
        if op in ("==", "!="):
            return ("cmp", f[1], "!=" if op == "==" else "==")
        return ("cmp", T.p_scale(f[1], -1), ">=" if op == ">" else ">")
    if f[0] == "not":
        return f[1]
    if f[0] == "and":
        return ("or", neg(f[1]), neg(f[2]))
    if f[0] == "or":
        return ("and", neg(f[1]), neg(f[2]))
    return ("not", f)


def f_eval(f, env, cache, margin=0):
    """numeric truth (True/False) with mpmath; None if it cannot be evaluated"""
    if f[0] == "cmp":
        v = T.p_eval(f[1], env, mp, cache)
        if hasattr(v, "imag") and v.imag != 0:
            raise ValueError("complex")
        return {">": v > 0, ">=": v >= 0, "==": v == 0, "!=": v != 0}[f[2]]
    if f[0] == "not":
        return not f_eval(f[1], env, cache)
    if f[0] == "and":
        return f_eval(f[1], env, cache) and f_eval(f[2], env, cache)
    if f[0] == "or":
        return f_eval(f[1], env, cache) or f_eval(f[2], env, cache)
    if f[0] == "true":
        return True
    raise T.Unsupported(f[0])


def env_ok(pc, env):
    cache = {}
    try:
        return all(f_eval(f, env, cache) for f in pc)
    except (ZeroDivisionError, ValueError, OverflowError, KeyError,
            TypeError, T.Unsupported):
        return False


class Var:
    __slots__ = ("name", "lo", "hi", "nice", "positive", "integer")

    def __init__(self, name, lo, hi, nice, positive, integer=False):
        self.name, self.lo, self.hi = name, lo, hi
        self.nice, self.positive, self.integer = nice, positive, integer

    def sample(self, rng):
        lo, hi = self.nice
        if self.integer:
            return Fraction(rng.randint(int(lo), int(hi)))
        if lo > 0 and hi / lo > 50:
            v = math.exp(rng.uniform(math.log(lo), math.log(hi)))
        else:
            v = rng.uniform(float(lo), float(hi))
        return Fraction(float(f"{v:.9g}"))


def seeded(*parts):
    h = hashlib.sha256("|".join(map(str, parts)).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


class Ctx:
    """Interface between a harness and the two execution modes."""

    def __init__(self, mode, env=None, choices=None, prefix=None, seed=1,
                 harness="", budget=None):
        self.mode = mode
        self.sym = mode == "sym"
        self.env = env if env is not None else {}
        self.vars = {}
        self.choices_in = dict(choices or {})
        self.choices = {}
        self.prefix = prefix or []
        self.trace = []  # decisions taken
        self.pending = []
        self.pc = []
        self.assumed = []
        self.known = {}
        self.obligations = []
        self.values = []  # (label, impl value) for encoding validation
        self.failures = []  # concrete mode
        self.checked = 0
        self.seed = seed
        self.harness = harness
        self.budget = budget
        self.witness_ok = True
        self.scratch = None
        self.cleanup = []

    # -- inputs --------------------------------------------------------------
    def real(self, name, lo=None, hi=None, nice=None, positive=None,
             integer=False):
        """symbolic input: any real in [lo, hi] (open-ended if None); ``nice``
        is the sub-range replays prefer."""
        if positive is None:
            positive = lo is not None and lo > 0
        if nice is None:
            nice = (lo if lo is not None else -10, hi if hi is not None else 10)
        if name in self.vars:
            raise T.Unsupported(f"duplicate input {name}")
        v = Var(name, lo, hi, nice, positive, integer)
        self.vars[name] = v
        if name not in self.env:
            self.env[name] = v.sample(seeded(self.seed, self.harness, name))
        if not self.sym:
            x = float(self.env[name])
            return int(x) if integer else x
        a = T.STORE.get(
            "var", name, name, positive=positive,
            lo=None if lo is None else T.to_frac(lo),
            hi=None if hi is None else T.to_frac(hi), nice=nice,
        )
        a.integer = integer
        return T.SymReal(T.p_atom(a))

    def vec(self, name, n, **kw):
        v = [self.real(f"{name}[{i}]", **kw) for i in range(n)]
        return self.arr(v)

    def arr(self, values):
        if self.sym:
            from .shims import SArr

            a = np.empty(len(values), dtype=object)
            for i, x in enumerate(values):
                a[i] = x
            return a.view(SArr)
        return np.array([float(x) for x in values])

    def choice(self, name, options):
        """finite nondeterministic choice, explored exhaustively"""
        options = list(options)
        if not self.sym:
            i = self.choices_in.get(name)
            if i is None:
                i = seeded(self.seed, self.harness, "choice", name,
                           ).randrange(len(options))
            self.choices[name] = i
            return options[i]
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            v = 0
            for alt in range(1, len(options)):
                self.pending.append((self.trace + [alt], dict(self.env)))
        self.trace.append(v)
        self.choices[name] = v
        return options[v]

    def flag(self, name):
        return self.choice(name, [False, True])

    def assume(self, cond):
        if not self.sym:
            if not bool(cond):
                raise AssumptionFailed()
            return
        if isinstance(cond, (bool, np.bool_)):
            if not cond:
                raise Stop()
            return
        f = cond.f
        self.pc.append(f)
        self.known[_key(f)] = True
        self.known[_key(neg(f))] = False
        if self.witness_ok and not env_ok([f], self.env):
            self.new_witness()

    def new_witness(self):
        env = find_env(self.pc, self.vars, self.env, self.seed)
        if env is None:
            r, _ = S.check(self.pc, timeout=3000)
            if r == "unsat":
                raise Stop()
            self.witness_ok = False
        else:
            self.env.clear()
            self.env.update(env)
            self.witness_ok = True

    # -- branching -----------------------------------------------------------
    def decide(self, sb):
        try:
            return self._decide(sb)
        except Exception as e:  # an engine error, not one of the code
            raise T.Unsupported(f"engine: {type(e).__name__}: {e}")

    def _decide(self, sb):
        f = sb.f
        k = _key(f)
        if k in self.known:
            return self.known[k]
        i = len(self.trace)
        if self.budget is not None and time.time() > self.budget:
            raise T.Unsupported("time budget for this harness exhausted")
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            here = None
            if self.witness_ok:
                try:
                    here = bool(f_eval(f, self.env, {}))
                except (ZeroDivisionError, ValueError, OverflowError, KeyError,
                        TypeError, T.Unsupported):
                    here = None
            sides = {}
            if here is not None:
                sides[here] = ("sat", self.env)
            for val in (True, False):
                if val in sides:
                    continue
                g = f if val else neg(f)
                sides[val] = S.check(self.pc + [g], timeout=2500)
            ok = [v for v in (True, False) if sides[v][0] != "unsat"]
            if not ok:
                raise Stop()
            v = here if here is not None and here in ok else ok[0]
            if len(ok) == 2:
                alt = not v
                env = None
                model = sides[alt][1]
                if model is not None:
                    env = complete(model, self.env)
                    if not env_ok(self.pc + [f if alt else neg(f)], env):
                        env = None
                if env is None:
                    env = find_env(
                        self.pc + [f if alt else neg(f)], self.vars, self.env,
                        self.seed, tries=150, ask=False,
                    )
                self.pending.append((self.trace + [alt], env))
        self.trace.append(v)
        g = f if v else neg(f)
        self.pc.append(g)
        self.known[_key(g)] = True
        self.known[_key(neg(g))] = False
        if self.witness_ok and not env_ok([g], self.env):
            self.new_witness()
        return v

    # -- obligations ---------------------------------------------------------
    def nice_env(self):
        """are all inputs in their preferred ranges?"""
        return all(v.nice[0] <= float(self.env[k]) <= v.nice[1]
                   for k, v in self.vars.items())

    def eq(self, label, impl, ref, rtol=1e-7, atol=0.0, trace=True):
        """impl must equal ref (elementwise); trace: compare the encoded value
        of impl with that of the concrete run"""
        if not trace:
            n = len(self.values)
            self.eq(label, impl, ref, rtol, atol)
            del self.values[n:]
            return
        a, b = _flat(impl), _flat(ref)
        if len(a) != len(b) and len(b) == 1:
            b = b * len(a)
        if len(a) != len(b):
            self._bad(label, f"length {len(a)} != {len(b)}")
            return
        for i, (x, y) in enumerate(zip(a, b)):
            lab = label if len(a) == 1 else f"{label}[{i}]"
            self._eq1(lab, x, y, rtol, atol)

    def _eq1(self, label, x, y, rtol, atol):
        self.checked += 1
        xs, ys = isinstance(x, T.SymReal), isinstance(y, T.SymReal)
        if not (xs or ys):
            x, y = _plain(x), _plain(y)
            if self.sym:
                self.values.append((label, x))
            if isinstance(x, float) and isinstance(y, float):
                if x != x and y != y:
                    ok = True
                elif x != x or y != y:
                    ok = False
                else:
                    ok = x == y or abs(x - y) <= atol + rtol * max(
                        abs(x), abs(y))
            else:
                ok = _same(x, y)
            if not self.sym:
                self.values.append((label, x))
            if not ok:
                self._bad(label, f"{x!r} expected {y!r}")
            elif self.sym:
                self.obligations.append(("const", label, None, None))
            return
        px, py = T._coerce(x), T._coerce(y)
        if px is None or py is None or T._isnan(x) or T._isnan(y):
            self.values.append((label, x))
            self._bad(label, f"{x!r} expected {y!r}")
            return
        self.values.append((label, x))
        self.obligations.append(("eq", label, (px, py, rtol, atol), list(self.pc)))

    def true(self, label, cond, detail=""):
        self.checked += 1
        if isinstance(cond, T.SymBool):
            self.obligations.append(("true", label, cond.f, list(self.pc)))
            return True
        if not self.sym:
            self.values.append((label, bool(cond)))
        else:
            self.values.append((label, bool(cond)))
        if not bool(cond):
            self._bad(label, detail or "condition is false")
        elif self.sym:
            self.obligations.append(("const", label, None, None))
        return bool(cond)

    def _bad(self, label, detail):
        if self.sym:
            self.obligations.append(("false", label, detail, list(self.pc)))
        else:
            self.failures.append((label, detail))

    def val(self, x):
        """concrete value of a symbolic scalar under the current witness"""
        return x


def _plain(x):
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (np.floating, np.integer)):
        return float(x)
    if isinstance(x, int):
        return float(x)
    if x is None:
        return None
    return x


def _same(x, y):
    try:
        return bool(x == y) and type(x) is type(y) or (
            isinstance(x, str) and isinstance(y, str) and str(x) == str(y))
    except Exception:
        return False


def _flat(x):
    if isinstance(x, (list, tuple)):
        out = []
        for v in x:
            out.extend(_flat(v))
        return out
    if hasattr(x, "to_numpy") and hasattr(x, "index"):
        x = x.to_numpy()
    if isinstance(x, np.ndarray):
        return list(x.ravel()) if x.ndim else [x.item()]
    return [x]


def complete(model, env):
    e = dict(env)
    for k, v in model.items():
        e[k] = v
    return e


def find_env(pc, vars_, env, seed, tries=400, ask=True):
    """a numeric assignment satisfying pc exactly (numerically evaluated)"""
    if env and env_ok(pc, env):
        return dict(env)
    base = dict(env)
    if ask:
        nice = []
        for v in vars_.values():
            a = T.STORE.index.get(("var", v.name))
            if a is not None:
                p = T.p_atom(a)
                nice.append(("cmp", T.p_add(p, T.p_const(T.to_frac(v.nice[0])), -1), ">="))
                nice.append(("cmp", T.p_add(T.p_const(T.to_frac(v.nice[1])), p, -1), ">="))
        for fs in (pc + nice, pc):
            r, m = S.check(fs, timeout=3000)
            if r == "unsat" and fs is pc:
                return None
            if m is not None:
                e = complete(m, base)
                if env_ok(pc, e):
                    return e
                base = e if env_in(e, vars_) else base
    rng = seeded(seed, len(pc), "find")
    names = list(vars_)
    t0 = time.time()
    for t in range(tries):
        if time.time() - t0 > 2.5:
            break
        e = dict(base)
        if t % 3 == 0 or len(names) < 3:
            pick = names
        else:
            pick = rng.sample(names, max(1, len(names) // (1 + t % 5)))
        for n in pick:
            e[n] = vars_[n].sample(rng)
        if env_ok(pc, e):
            return e
    return None


def env_in(e, vars_):
    for v in vars_.values():
        x = e.get(v.name)
        if x is None:
            return False
        if v.lo is not None and x < T.to_frac(v.lo):
            return False
        if v.hi is not None and x > T.to_frac(v.hi):
            return False
    return True


# ---------------------------------------------------------------------------
class Result:
    def __init__(self, name):
        self.name = name
        self.paths = 0
        self.decisions = 0
        self.obligations = 0
        self.unsat = 0
        self.const = 0
        self.traces = 0
        self.trace_mismatch = []
        self.violations = []
        self.inconclusive = []
        self.functions = set()
        self.samples = []
        self.unwitnessed = 0
        self.degraded = None
        self.stats = {}
        self.wall = 0.0
        self.bounds = ""

    def asdict(self):
        d = dict(self.__dict__)
        d["functions"] = sorted(self.functions)
        return d


class Harness:
    def __init__(self, name, fn, bounds="", kw=None, max_paths=4000,
                 time_limit=240, concrete_samples=12, rtol_wit=1e-5,
                 validate=True, trace_rtol=1e-6, trace_nice=False,
                 strict=False):
        self.name = name
        self.fn = fn
        self.bounds = bounds
        self.kw = kw or {}
        self.max_paths = max_paths
        self.time_limit = time_limit
        self.concrete_samples = concrete_samples
        self.rtol_wit = rtol_wit
        self.validate = validate
        self.trace_rtol = trace_rtol
        self.trace_nice = trace_nice  # compare only within the nice box
        # the replayed witness must satisfy the obligations too (discharges
        # the contract of a numerical routine the encoding assumes)
        self.strict = strict


def run_concrete(h, env, choices, seed=1):
    """run the harness on the unpatched code; -> (ctx, error or None)"""
    ctx = Ctx("conc", env=dict(env), choices=choices, seed=seed, harness=h.name)
    err = None
    with warnings.catch_warnings(), redirect_stdout(io.StringIO()), \
            redirect_stderr(io.StringIO()), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            h.fn(ctx, **h.kw)
        except AssumptionFailed:
            err = "assumption"
        except Exception as e:  # noqa
            err = f"{type(e).__name__}: {e}"
            ctx.failures.append(
                ("exception", err + " @ " + _where(e)))
        finally:
            for c in ctx.cleanup:
                c()
    return ctx, err


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    for fr in reversed(tb):
        if "/calkulate/" in fr.filename:
            return f"{fr.filename}:{fr.lineno}"
    return f"{tb[-1].filename}:{tb[-1].lineno}" if tb else ""


def explore(h, seed=1, log=None):
    from . import shims

    res = Result(h.name)
    res.bounds = h.bounds
    t0 = time.time()
    T.reset_store()
    for k in S.STATS:
        S.STATS[k] = 0
    S._clear_cache.clear()
    work = [([], None)]
    seen_fail = set()
    first = True
    while work:
        prefix, env = work.pop()
        if res.paths >= h.max_paths or time.time() - t0 > h.time_limit:
            res.inconclusive.append(
                f"{h.name}: exploration bound reached with {len(work) + 1} "
                f"path prefixes left ({res.paths} paths, "
                f"{time.time() - t0:.0f} s)")
            break
        ctx = Ctx("sym", env=env, prefix=prefix, seed=seed, harness=h.name,
                  budget=t0 + h.time_limit)
        exc = None
        prof = None
        if first:
            prof = shims.FunctionRecorder()
        first = False
        T.HOOK.decide = ctx.decide
        try:
            with shims.installed(ctx), warnings.catch_warnings(), \
                    redirect_stdout(io.StringIO()), \
                    redirect_stderr(io.StringIO()), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                if prof:
                    sys.setprofile(prof)
                try:
                    h.fn(ctx, **h.kw)
                finally:
                    if prof:
                        sys.setprofile(None)
        except Stop:
            work.extend(ctx.pending)
            T.HOOK.decide = None
            for c in ctx.cleanup:
                c()
            continue
        except T.Unsupported as e:
            exc = ("unsupported", str(e), _where(e))
        except RecursionError as e:
            exc = ("unsupported", "recursion", "")
        except Exception as e:
            exc = ("exception", f"{type(e).__name__}: {e}", _where(e))
            if log:
                log(traceback.format_exc())
        finally:
            T.HOOK.decide = None
            for c in ctx.cleanup:
                c()
        if prof:
            res.functions |= prof.names
        work.extend(ctx.pending)
        res.paths += 1
        res.decisions += len(ctx.trace)
        if exc is not None:
            _handle_exception(h, res, ctx, exc, seed, seen_fail)
            if exc[0] == "unsupported" and res.degraded:
                if len(seen_fail) > 12:
                    break
                continue
        _discharge_path(h, res, ctx, seed, seen_fail)
        if h.validate and exc is None:
            _validate_path(h, res, ctx, seed)
        if len(res.violations) >= 3:
            break
    if res.degraded:
        _concrete_sweep(h, res, seed)
    res.stats = dict(S.STATS)
    res.wall = time.time() - t0
    return res


LIVE = None  # called with every violation as soon as it is found


def _record_violation(h, res, label, env, choices, detail, how):
    v = {
        "harness": h.name, "label": label, "detail": str(detail)[:600],
        "env": {k: [str(v), float(v)] for k, v in env.items()},
        "choices": dict(choices), "found_by": how,
    }
    res.violations.append(v)
    if LIVE is not None:
        LIVE(v)


def _handle_exception(h, res, ctx, exc, seed, seen_fail):
    kind, msg, where = exc
    key = (kind, msg[:80], where)
    if key in seen_fail:
        res.degraded = res.degraded or f"{msg} @ {where}"
        return
    seen_fail.add(key)
    env = ctx.env if ctx.witness_ok else None
    if env is None:
        env = find_env(ctx.pc, ctx.vars, ctx.env, seed)
    if env is not None:
        c, err = run_concrete(h, env, ctx.choices, seed)
        if err != "assumption" and c.failures:
            lab, det = c.failures[0]
            _record_violation(h, res, lab, env, ctx.choices, det,
                              "symbolic path ended in " + msg)
            return
    res.degraded = f"{msg} @ {where}"
    res.inconclusive.append(
        f"{h.name}: path not encodable ({msg} @ {where}); fell back to "
        f"concrete runs for it")


def _validate_path(h, res, ctx, seed):
    if not ctx.witness_ok:
        res.unwitnessed += 1
        return
    if res.traces >= 400:
        return
    c, err = run_concrete(h, ctx.env, ctx.choices, seed)
    if err == "assumption":
        return
    res.traces += 1
    if h.strict and c.failures:
        lab, det = c.failures[0]
        _record_violation(h, res, lab, ctx.env, ctx.choices, det,
                          "replay of the witness of a path")
        return
    if len(res.samples) < 3:
        res.samples.append({
            "harness": h.name,
            "inputs": {k: float(v) for k, v in list(ctx.env.items())[:24]},
            "choices": dict(ctx.choices),
            "obligations": len(ctx.obligations),
        })
    if h.trace_nice and not ctx.nice_env():
        return
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        _compare_trace(h, res, ctx, c)


def _compare_trace(h, res, ctx, c):
    cache = {}
    cv = {}
    for lab, v in c.values:
        cv.setdefault(lab, v)
    for lab, x in ctx.values:
        if lab not in cv:
            res.trace_mismatch.append(f"{h.name}:{lab}: not reached concretely")
            break
        y = cv[lab]
        if isinstance(x, T.SymReal):
            try:
                xv = float(T.p_eval(x.p, ctx.env, mp, cache))
            except (T.Unsupported, ZeroDivisionError, ValueError, TypeError,
                    OverflowError, KeyError):
                continue
        elif isinstance(x, float):
            xv = x
        else:
            continue
        if not isinstance(y, float):
            continue
        if not (abs(xv - y) <= h.trace_rtol * max(abs(xv), abs(y)) + 1e-12
                or (xv != xv and y != y)):
            res.trace_mismatch.append(
                f"{h.name}:{lab}: encoded {xv!r} concrete {y!r} "
                f"choices={ctx.choices}")
            break


def _discharge_path(h, res, ctx, seed, seen_fail):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        _discharge(h, res, ctx, seed, seen_fail)


TIMES = None


def _discharge(h, res, ctx, seed, seen_fail):
    for kind, label, data, pc in ctx.obligations:
        res.obligations += 1
        if len(res.violations) >= 3:
            return
        if kind != "const" and ctx.budget and time.time() > ctx.budget:
            note = f"{h.name}: time limit while discharging"
            if note not in res.inconclusive:
                res.inconclusive.append(note)
            return
        if TIMES is not None:
            TIMES.append((time.time(), label))
        if kind == "const":
            res.const += 1
            continue
        if kind == "false":
            try:
                r, model = S.check(pc, timeout=4000) if pc else ("sat", {})
            except T.Unsupported:
                r, model = "unknown", None
            if r == "unsat":
                res.unsat += 1
                continue
            _witness(h, res, ctx, label, pc, None, data, model, seed, seen_fail)
        elif kind == "eq":
            px, py, rtol, atol = data
            v, model = None, None
            if ctx.witness_ok:
                # the witness of the path may already refute the equality
                rel, _ = _rel(data, ctx.env)
                if rel is not None and rel > max(1e-6, rtol):
                    v = "sat (at the witness of the path)"
            if v is None:
                v, model = decide_eq(px, py, pc)
            if v == "unsat":
                res.unsat += 1
                continue
            _witness(h, res, ctx, label, pc, (px, py, rtol, atol),
                     f"query answered {v}", model, seed, seen_fail)
        elif kind == "true":
            try:
                r, model = S.check(pc + [neg(data)], timeout=10000)
            except T.Unsupported:
                r, model = "unknown", None
            if r == "unsat":
                res.unsat += 1
                continue
            _witness(h, res, ctx, label, pc + [neg(data)], None,
                     f"query answered {r}", model, seed, seen_fail)


RAW_LIMIT = 1500
SIGNIFICANT = 3e-9  # relative to the size of the terms involved
TOL = Fraction(1, 10**9)


def _linear_ne(px, py):
    """query: two combinations of the same monomials differ for some value of
    the monomials (each monomial abstracted to a free real: linear), beyond a
    relative 1e-9 per monomial where constants were folded in floating point"""
    ms = sorted(set(px) | set(py))
    same = [m for m in ms if px.get(m, 0) == py.get(m, 0)]
    off = [m for m in ms if px.get(m, 0) != py.get(m, 0)]

    def raw(enc):
        vs = {m: S.z3.Real(f"mono{i}") for i, m in enumerate(ms)}

        def lin(p):
            ts = [S._q(p[m]) * vs[m] for m in same]
            return S.z3.Sum(*ts) if len(ts) > 1 else ts[0] if ts else S._q(0)
        ors = [lin(px) != lin(py)]
        for m in off:
            c, e = px.get(m, Fraction(0)), py.get(m, Fraction(0))
            enc.side.append(vs[m] >= 0)
            ors.append(S._q(abs(c - e)) * vs[m]
                       > S._q(TOL * max(abs(c), abs(e))) * vs[m])
        return S.z3.Or(*ors)
    return S.check([], raw=raw, want_model=False)[0]


def _groups(d):
    """split a difference into parts that share no denominator"""
    parent = {}

    def find(x):
        while parent[x] != x:
            parent[x] = parent[parent[x]]
            x = parent[x]
        return x

    tag = {}
    for m in d:
        ds = [k for k, e in m if e < 0 and T.STORE.atoms[k].kind == "pp"]
        for k in ds:
            parent.setdefault(k, k)
        for k in ds[1:]:
            parent[find(k)] = find(ds[0])
        tag[m] = ds[0] if ds else None
    out = {}
    for m, c in d.items():
        g = find(tag[m]) if tag[m] is not None else -1
        out.setdefault(g, {})[m] = c
    return list(out.values())


def decide_eq(px, py, pc, timeout=10000):
    """is px != py satisfiable under pc?  Identity of generalised polynomials
    first (solver queries on the cleared numerators, per group of terms that
    share denominators), then a coefficient-tolerance query (floating-point
    constant folding), then nonlinear with the path condition."""
    d = T.p_add(px, py, -1)
    if not d:
        return _linear_ne(px, py), None
    try:
        for _ in range(8):
            if not T.has_def(px) and not T.has_def(py):
                break
            px, py = T.unfold(px), T.unfold(py)
            d = T.p_add(px, py, -1)
            if not d:
                return _linear_ne(px, py), None
    except T.Unsupported:
        return "unknown", None
    left = {}
    try:
        for g in _groups(d):
            n, den = S.clear(g)
            if n:
                left.update(g)
                continue
            if len(g) * len(den) < RAW_LIMIT:
                neg_ = {m: -c for m, c in g.items() if c < 0}
                pos_ = {m: c for m, c in g.items() if c > 0}
                n1, d1 = S.clear(pos_) if pos_ else ({}, T.ONE)
                n2, d2 = S.clear(neg_) if neg_ else ({}, T.ONE)
                if len(n1) * len(d2) + len(n2) * len(d1) < RAW_LIMIT:
                    r, _ = S.check(
                        [], extra_polys=[n1, d1, n2, d2], timeout=timeout,
                        raw=lambda enc: enc.poly(n1) * enc.poly(d2)
                        != enc.poly(n2) * enc.poly(d1), want_model=False)
                    if r == "unsat":
                        continue
            if _linear_ne(n, {}) != "unsat":
                left.update(g)
        if not left:
            return "unsat", None
        if len(left) < len(d):
            px = {m: c for m, c in px.items() if m in left}
            py = {m: c for m, c in py.items() if m in left}
            d = left
        n, den = S.clear(d)
    except T.Unsupported:
        return "unknown", None
    # coefficient tolerance: monomials become free variables
    try:
        nx = T.p_mul(px, den)
        ny = T.p_mul(py, den)
        close = True
        for m, c in n.items():
            # denominators may survive in px*den only if cancelled in d
            ref = max(abs(nx.get(m, 0)), abs(ny.get(m, 0)))
            if abs(c) > TOL * ref:
                close = False
                break
        if close:
            def raw(enc):
                ors = []
                for i, (m, c) in enumerate(n.items()):
                    ref = max(abs(nx.get(m, 0)), abs(ny.get(m, 0)))
                    v = S.z3.Real(f"m{i}")
                    enc.side.append(v >= 0)
                    ors.append(S._q(abs(c)) * v > S._q(TOL * ref) * v)
                return S.z3.Or(*ors)
            r, _ = S.check([], raw=raw, want_model=False, timeout=timeout)
            if r == "unsat":
                return r, None
    except T.Unsupported:
        pass
    if len(n) > 4000:
        return "sat", None
    try:
        return S.check(pc + [("cmp", d, "!=")], timeout=timeout)
    except T.Unsupported:
        return "unknown", None


def p_scale_eval(p, env, cache):
    """sum of the magnitudes of the terms: the size rounding errors scale with"""
    tot = mp.mpf(0)
    for m, c in p.items():
        tot += abs(T.p_eval({m: c}, env, mp, cache))
    return tot


def _rel(eqd, env):
    px, py, rtol, atol = eqd
    cache = {}
    try:
        a = T.p_eval(px, env, mp, cache)
        b = T.p_eval(py, env, mp, cache)
        d = abs(a - b)
        if d <= atol:
            return 0.0, float(d)
        s = max(p_scale_eval(px, env, cache), p_scale_eval(py, env, cache))
        return float(d / (s or mp.mpf(1))), float(d)
    except (ZeroDivisionError, ValueError, OverflowError, KeyError, TypeError,
            T.Unsupported):
        return None, None


def _witness(h, res, ctx, label, pc, eqd, detail, model, seed, seen_fail):
    """replay a solver counterexample on the unpatched code"""
    key = ("w", label)
    n_before = sum(1 for k in seen_fail if k == key)
    if key in seen_fail:
        return
    spent = getattr(res, "witness_time", 0.0)
    t0 = time.time()
    limit = t0 + max(3.0, min(25.0, 90.0 - spent))
    cands = []
    if model:
        cands.append(complete(model, ctx.env))
    cands.append(dict(ctx.env))
    rng = seeded(seed, h.name, label)
    # candidates that satisfy the violated query numerically, in the nice box
    names = list(ctx.vars)
    tried = 0
    for t in range(160):
        e = dict(ctx.env)
        pick = names if t % 2 else rng.sample(
            names, max(1, len(names) // 3)) if names else []
        for nme in pick:
            e[nme] = ctx.vars[nme].sample(rng)
        cands.append(e)
    e2 = find_env(pc, ctx.vars, ctx.env, seed)
    if e2:
        cands.insert(0, e2)
    good = []
    for e in cands:
        if time.time() > limit:
            break
        if not env_ok(pc, e):
            continue
        if eqd is not None:
            rel, ab = _rel(eqd, e)
            if rel is None:
                good.append((0.0, len(good), e))
                continue
            if rel < SIGNIFICANT:
                continue
            good.append((-min(rel, 1.0), len(good), e))
        else:
            good.append((0.0, len(good), e))
        if len(good) > 40:
            break
    good.sort(key=lambda t: t[:2])
    tried = 0
    for j, (_, _, e) in enumerate(good[:8]):
        if j > 1 and time.time() > limit:
            break
        c, err = run_concrete(h, e, ctx.choices, seed)
        if err == "assumption":
            continue
        tried += 1
        if c.failures:
            hit = [f for f in c.failures if f[0] == label] or c.failures
            _record_violation(h, res, hit[0][0], e, ctx.choices, hit[0][1],
                              f"solver counterexample to {label} ({detail})")
            seen_fail.add(key)
            return
    res.witness_time = spent + time.time() - t0
    res.inconclusive.append(
        f"{h.name}: {label}: {detail}; no concrete counterexample among "
        f"{tried} replays")
    seen_fail.add(key)


def _concrete_sweep(h, res, seed):
    """fallback when a path could not be encoded: seeded concrete runs"""
    import itertools

    done = 0
    t0 = time.time()
    for s in range(h.concrete_samples * 10):
        if time.time() - t0 > 60 or done >= h.concrete_samples * 4:
            break
        c, err = run_concrete(h, {}, {}, seed=f"{seed}-{s}")
        if err == "assumption":
            continue
        done += 1
        if c.failures:
            lab, det = c.failures[0]
            _record_violation(h, res, lab, c.env, c.choices, det,
                              "concrete fallback run")
            return
    res.inconclusive.append(f"{h.name}: {done} concrete fallback runs passed")
