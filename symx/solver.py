"""Translation of path conditions and obligations to SMT (z3, real arithmetic)."""

import math
import threading
import time
from fractions import Fraction

import z3

from . import terms as T

STATS = {"queries": 0, "sat": 0, "unsat": 0, "unknown": 0, "time": 0.0}


_WATCH = {"until": None, "pid": None}


def _watch(seconds):
    """interrupt a query that overruns its own time limit"""
    import os

    if _WATCH["pid"] != os.getpid():
        _WATCH["pid"] = os.getpid()
        ctx = z3.main_ctx()

        def loop():
            while True:
                time.sleep(0.25)
                t = _WATCH["until"]
                if t is not None and time.time() > t:
                    _WATCH["until"] = None
                    ctx.interrupt()

        threading.Thread(target=loop, daemon=True).start()
    _WATCH["until"] = time.time() + seconds


def _q(c):
    c = Fraction(c)
    return z3.RealVal(f"{c.numerator}/{c.denominator}")


class Encoder:
    """Encodes a set of formulas; one instance per query."""

    def __init__(self):
        self.side = []
        self.vars = {}
        self.roots = {}
        self.done = set()

    # collect fractional exponents so that each atom gets one root variable
    def scan(self, polys):
        L = {}
        seen = set()
        todo = list(polys)
        while todo:
            p = todo.pop()
            for m in p:
                for k, e in m:
                    d = 1 if isinstance(e, int) else e.denominator
                    l = L.get(k, 1)
                    L[k] = l * d // math.gcd(l, d)
                    if k not in seen:
                        seen.add(k)
                        a = T.STORE.atoms[k]
                        if a.kind in ("pp", "def"):
                            todo.extend(clear(a.data))
                        for q, _ in a.constraints:
                            todo.append(clear(q)[0])
        self.L = L

    def base(self, k):
        if k in self.vars:
            return self.vars[k]
        a = T.STORE.atoms[k]
        v = z3.Real(f"a{k}_{a.name}"[:80])
        self.vars[k] = v
        if a.positive or a.kind == "exp":
            self.side.append(v > 0)
        if a.integer:
            self.side.append(z3.IsInt(v))
        if a.lo is not None:
            self.side.append(v >= _q(a.lo))
        if a.hi is not None:
            self.side.append(v <= _q(a.hi))
        if a.kind in ("pp", "def"):
            n, d = clear(a.data)
            self.side.append(v * self.poly(d) == self.poly(n))
        for q, op in a.constraints:
            self.side.append(self.cmp(q, op))
        return v

    def atom(self, k, e):
        l = self.L.get(k, 1)
        if l == 1:
            v = self.base(k)
        elif l <= 6:
            if k not in self.roots:
                w = z3.Real(f"r{k}")
                self.roots[k] = w
                self.side.append(w > 0)
                self.side.append(z3.Product(*[w] * l) == self.base(k))
            v = self.roots[k]
            e = e * l
        else:
            fr = Fraction(e) - math.floor(e)
            parts = []
            if fr:
                kk = (k, fr)
                if kk not in self.roots:
                    w = z3.Real(f"r{k}_{len(self.roots)}")
                    self.roots[kk] = w
                    self.side.append(w > 0)
                parts.append(self.roots[kk])
            parts.extend([self.base(k)] * math.floor(e))
            return parts
        return [v] * int(e)

    def mono(self, m, c):
        fs = []
        for k, e in m:
            fs.extend(self.atom(k, e))
        if not fs:
            return _q(c)
        t = fs[0]
        for f in fs[1:]:
            t = t * f
        return t if c == 1 else _q(c) * t

    def poly(self, p):
        ts = [self.mono(m, c) for m, c in p.items()]
        if not ts:
            return _q(0)
        return ts[0] if len(ts) == 1 else z3.Sum(*ts)

    def cmp(self, p, op):
        # scaling keeps numbers readable for the solver; sign preserved
        n, d = clear(p)
        t = self.poly(n)
        return {">": t > 0, ">=": t >= 0, "==": t == 0, "!=": t != 0}[op]

    def formula(self, f):
        if f[0] == "cmp":
            return self.cmp(f[1], f[2])
        if f[0] == "not":
            return z3.Not(self.formula(f[1]))
        if f[0] == "and":
            return z3.And(self.formula(f[1]), self.formula(f[2]))
        if f[0] == "or":
            return z3.Or(self.formula(f[1]), self.formula(f[2]))
        if f[0] == "true":
            return z3.BoolVal(True)
        raise T.Unsupported(f[0])


_clear_cache = {}


def clear(p):
    """numerator with sign of p (denominator positive)"""
    key = T.p_key(p)
    r = _clear_cache.get(key)
    if r is None:
        if len(_clear_cache) > 20000:
            _clear_cache.clear()
        r = T.clear_denominators(p, signed=True)
        _clear_cache[key] = r
    return r


def f_polys(f, acc=None):
    acc = [] if acc is None else acc
    if f[0] == "cmp":
        acc.append(f[1])
    elif f[0] in ("not",):
        f_polys(f[1], acc)
    elif f[0] in ("and", "or"):
        f_polys(f[1], acc)
        f_polys(f[2], acc)
    return acc


def check(formulas, extra_polys=(), timeout=3000, want_model=True, raw=None):
    """SAT check of the conjunction. -> ('sat', {var name: Fraction}) etc.
    raw: optional callback(encoder) -> z3 formula appended to the query."""
    t0 = time.time()
    enc = Encoder()
    polys = []
    for f in formulas:
        for p in f_polys(f):
            n, d = clear(p)
            polys.append(n)
    for p in extra_polys:
        polys.append(p)
    enc.scan(polys)
    s = z3.Solver()
    s.set("timeout", int(timeout))
    fs = [enc.formula(f) for f in formulas]
    if raw is not None:
        fs.append(raw(enc))
    # side conditions may grow while encoding
    i = 0
    while i < len(enc.side):
        i += 1
    for c in enc.side:
        s.add(c)
    for f in fs:
        s.add(f)
    _watch(timeout / 1000 * 1.5 + 0.5)
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    finally:
        _WATCH["until"] = None
    dt = time.time() - t0
    STATS["queries"] += 1
    STATS["time"] += dt
    name = "sat" if r == z3.sat else "unsat" if r == z3.unsat else "unknown"
    STATS[name] += 1
    model = None
    if r == z3.sat and want_model:
        m = s.model()
        model = {}
        for k, v in enc.vars.items():
            a = T.STORE.atoms[k]
            if a.kind not in ("var", "opq"):
                continue
            val = m.eval(v, model_completion=True)
            try:
                if z3.is_algebraic_value(val):
                    val = val.approx(20)
                fr = Fraction(val.numerator_as_long(), val.denominator_as_long())
            except Exception:
                continue
            if a.kind == "var":
                model[a.name] = fr
    return name, model
