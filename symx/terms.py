"""Symbolic reals: sparse generalised polynomials over atoms, exact rationals.

A term is  sum_i c_i * prod_j atom_j ** e_ij  with c_i rational, e_ij rational
(negative and fractional exponents allowed).  Atoms are
  var   base symbolic input (bounds, sign)
  pp    a multi-term polynomial q, only kept with exponent < 1 (q**-1, q**(1/2))
  exp   exp(m) for a coefficient-free monomial m
  log   log(q)
  const transcendental constant (ln 10)
  opq   opaque function value (stub results, rounding), optional constraints
Floats enter as their shortest decimal representation (0.1 means 1/10).
"""

import heapq
import math
import numbers
from fractions import Fraction


class Unsupported(BaseException):
    """The encoding cannot represent this operation (not a property verdict).

    A BaseException, so that ``except Exception`` in the code under test cannot
    swallow it."""


MAX_TERMS = 60000


class Atom:
    __slots__ = (
        "id", "kind", "name", "data", "positive", "lo", "hi", "nice",
        "constraints", "evalf", "integer",
    )

    def __init__(self, id, kind, name, data=None, positive=False, lo=None,
                 hi=None, nice=None):
        self.id = id
        self.kind = kind
        self.name = name
        self.data = data
        self.positive = positive
        self.lo = lo
        self.hi = hi
        self.nice = nice
        self.constraints = []
        self.evalf = None
        self.integer = False

    def __repr__(self):
        return self.name


class Store:
    def __init__(self):
        self.atoms = []
        self.index = {}
        self.snap = {}
        self.near = {}

    def get(self, kind, key, name, **kw):
        k = (kind, key)
        a = self.index.get(k)
        if a is None:
            a = Atom(len(self.atoms), kind, name, **kw)
            self.atoms.append(a)
            self.index[k] = a
        return a


STORE = Store()


LN10 = Fraction("2.302585092994045684017991454684364207601101488628773")


def q_log(c):
    """ln of a positive rational, as a rational (40 digits)"""
    from mpmath import mp

    with mp.workdps(60):
        return Fraction(mp.nstr(
            mp.log(mp.mpf(c.numerator) / c.denominator), 45))


def q_exp(c):
    from mpmath import mp

    with mp.workdps(60):
        k = mp.mpf(c.numerator) / c.denominator / (
            mp.mpf(LN10.numerator) / LN10.denominator)
        r = mp.nint(k)
        if abs(k - r) < mp.mpf(10) ** -13 and abs(r) < 60:
            return Fraction(10) ** int(r)  # exp(k ln 10)
        v = mp.exp(mp.mpf(c.numerator) / c.denominator)
        return Fraction(mp.nstr(v, 45))


def reset_store():
    STORE.atoms.clear()
    STORE.index.clear()
    STORE.snap.clear()
    STORE.near.clear()
    _POW_MEMO.clear()


def _n(e):
    if isinstance(e, Fraction) and e.denominator == 1:
        return int(e)
    return e


def to_frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, float):
        if math.isnan(x) or math.isinf(x):
            raise Unsupported("non-finite constant in symbolic arithmetic")
        return Fraction(repr(float(x)))
    if hasattr(x, "item"):
        return to_frac(x.item())
    raise Unsupported(f"constant of type {type(x)}")


# --- polynomials: dict mono -> Fraction; mono: tuple of (atom id, exponent) ---
ONE = {(): Fraction(1)}


def p_const(c):
    c = Fraction(c)
    return {(): c} if c else {}


def p_atom(a, e=1):
    return {((a.id, e),): Fraction(1)}


NOISE = Fraction(1, 10**13)
_BIG = 10**12


def _noise(v, a):
    """what is left of a cancellation after constants were folded in floating
    point (relative size below 1e-13) counts as zero"""
    return v.denominator > _BIG and abs(v) < abs(a) * NOISE


def p_add(p, q, f=1):
    if not q:
        return p
    r = dict(p)
    for m, c in q.items():
        old = r.get(m)
        if old is None:
            r[m] = c * f
            continue
        v = old + c * f
        if v and not _noise(v, old):
            r[m] = v
        else:
            del r[m]
    return r


def p_scale(p, c):
    if not c:
        return {}
    return {m: v * c for m, v in p.items()}


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        v = d.get(k, 0) + e
        if v:
            d[k] = _n(v)
        else:
            d.pop(k, None)
    return tuple(sorted(d.items()))


def m_pow(m, e):
    return tuple((k, _n(x * e)) for k, x in m)


def _needs_expand(m):
    for k, e in m:
        if e >= 1 and STORE.atoms[k].kind == "pp":
            return True
    return False


def p_mul(p, q):
    if not p or not q:
        return {}
    if len(p) * len(q) > MAX_TERMS:
        raise Unsupported(f"polynomial product too large ({len(p)}x{len(q)})")
    r = {}
    expand = []
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = m_mul(m1, m2)
            c = c1 * c2
            if _needs_expand(m):
                expand.append((m, c))
                continue
            old = r.get(m)
            if old is None:
                r[m] = c
                continue
            v = old + c
            if v and not _noise(v, old):
                r[m] = v
            else:
                del r[m]
    for m, c in expand:
        r = p_add(r, p_scale(_expand_mono(m), c))
    return r


WRAP = 1200


def def_atom(p):
    """a name for a large polynomial: kept folded until an equality needs it"""
    return STORE.get("def", p_key(p), f"def{len(STORE.atoms)}", data=p,
                     positive=known_positive(p))


def fold(p, limit=12):
    if len(p) <= limit:
        return p
    c, m, prim = p_content_light(p)
    if len(prim) <= limit:
        return p
    return p_mul({m: c}, p_atom(def_atom(prim)))


def _cancel(a, b):
    """a * b where every term of a carries q**-k and b is a multiple of q"""
    if not 2 <= len(b) <= 12 or not a:
        return None
    common = None
    for m in a:
        ks = {k for k, e in m if e < 0 and STORE.atoms[k].kind == "pp"}
        common = ks if common is None else common & ks
        if not common:
            return None
    for k in sorted(common):
        d = STORE.atoms[k].data
        if len(d) != len(b):
            continue
        pr = p_proportional(b, d)
        if pr is not None:
            return p_mul(p_mul(a, {((k, 1),): Fraction(1)}), {pr[1]: pr[0]})
    return None


def s_mul(a, b):
    """product that cancels inverse sums and folds large factors instead of
    expanding"""
    if len(a) > 1 or len(b) > 1:
        r = _cancel(a, b)
        if r is None:
            r = _cancel(b, a)
        if r is not None:
            return r
    if len(a) > 1 and len(b) > 1 and len(a) * len(b) > WRAP:
        a, b = fold(a), fold(b)
    return p_mul(a, b)


def has_def(p):
    return any(STORE.atoms[k].kind == "def" for k in atoms_of(p))


def unfold(p):
    """replace folded polynomials (one level) by their definitions"""
    out = {}
    for m, c in p.items():
        rest, facs = [], []
        for k, e in m:
            a = STORE.atoms[k]
            if a.kind == "def":
                if not isinstance(e, int):
                    facs.append(p_atom(pp_atom(a.data), e))
                else:
                    facs.append(p_pow(a.data, e, p_mul))
            elif a.kind == "pp" and has_def(a.data):
                d = a.data
                while has_def(d):
                    d = unfold(d)
                facs.append(p_pow(d, e, p_mul))
            else:
                rest.append((k, e))
        t = {tuple(rest): c}
        for f in facs:
            t = p_mul(t, f)
        out = p_add(out, t)
    return out


def _expand_mono(m):
    rest = []
    factors = []
    for k, e in m:
        a = STORE.atoms[k]
        if a.kind == "pp" and e >= 1:
            ip = math.floor(e)
            fr = _n(e - ip)
            factors.extend([a.data] * ip)
            if fr:
                rest.append((k, fr))
        else:
            rest.append((k, e))
    p = {tuple(rest): Fraction(1)}
    for f in factors:
        p = p_mul(p, f)
    return p


def p_key(p):
    return tuple(sorted(p.items()))


LARGE = 60


def p_content(p):
    """p = c * m * p' with p' free of common monomial factors, leading coeff 1.
    Small sums are brought to a common denominator, large ones are not."""
    if len(p) > LARGE:
        return p_content_light(p)
    mins = None
    for m in p:
        d = dict(m)
        if mins is None:
            mins = d
        else:
            for k in list(mins):
                mins[k] = min(mins[k], d.get(k, 0))
            for k, e in d.items():
                if k not in mins:
                    mins[k] = min(0, e)
    m = tuple(sorted((k, e) for k, e in (mins or {}).items() if e))
    prim = p_mul(p, {m_pow(m, -1): Fraction(1)}) if m else dict(p)
    if not prim:
        return Fraction(0), (), {}
    lead = prim[max(prim)]
    return lead, m, p_scale(prim, 1 / lead)


def p_content_light(p):
    it = iter(p)
    common = dict(next(it))
    for m in it:
        d = dict(m)
        for k in list(common):
            e = d.get(k, 0)
            x = common[k]
            if e * x <= 0:
                del common[k]
            elif abs(e) < abs(x):
                common[k] = e
        if not common:
            break
    m = tuple(sorted(common.items()))
    prim = p_mul(p, {m_pow(m, -1): Fraction(1)}) if m else dict(p)
    if not prim:
        return Fraction(0), (), {}
    lead = prim[max(prim)]
    return lead, m, p_scale(prim, 1 / lead)


def p_inv(q):
    if not q:
        raise ZeroDivisionError("symbolic division by zero")
    c, m, prim = p_content(q)
    # products with inverse atoms can cascade: normalise until stable
    guard = 0
    base = {m_pow(m, -1): 1 / c}
    while len(prim) > 1 and guard < 6:
        c2, m2, prim2 = p_content(prim)
        if not m2 and c2 == 1:
            break
        base = p_mul(base, {m_pow(m2, -1): 1 / c2})
        prim = prim2
        guard += 1
    if len(prim) == 1:
        (m3, c3), = prim.items()
        return p_mul(base, {m_pow(m3, -1): 1 / c3})
    a = pp_atom(prim)
    return p_mul(base, p_atom(a, -1))


def near(kind, p):
    """an existing polynomial of this kind equal to p up to float noise in the
    coefficients, else p itself"""
    if not any(c.denominator > _BIG or c.numerator > _BIG for c in p.values()):
        ms = tuple(sorted(p))
        STORE.near.setdefault((kind, ms), []).append(p) if p not in \
            STORE.near.get((kind, ms), []) else None
        return p
    ms = tuple(sorted(p))
    known = STORE.near.setdefault((kind, ms), [])
    for q in known:
        if all(abs(q[m] - p[m]) <= abs(q[m]) * NOISE for m in ms):
            return q
    known.append(p)
    return p


def pp_atom(prim):
    prim = near("pp", prim)
    return STORE.get(
        "pp", p_key(prim), f"pp{len(STORE.atoms)}", data=prim,
        positive=known_positive(prim),
    )


def known_positive(p):
    """syntactically > 0"""
    if not p:
        return False
    for m, c in p.items():
        if c <= 0:
            return False
        for k, e in m:
            if not STORE.atoms[k].positive:
                return False
    return True


def p_proportional(p, q):
    """if p == c*m*q return (c, m) else None"""
    if len(p) != len(q) or not q:
        return None
    mp, mq = max(p), max(q)
    m = m_mul(mp, m_pow(mq, -1))
    c = p[mp] / q[mq]
    for k, v in q.items():
        if p.get(m_mul(k, m)) != v * c:
            return None
    return c, m


def p_divide(p, q):
    if not p:
        return {}
    if len(q) > 1:
        pr = p_proportional(p, q)
        if pr is not None:
            return {pr[1]: pr[0]}
        if len(p) > 1:
            r = p_exact_div(p, q)
            if r is not None:
                return r
    return s_mul(p, p_inv(q))


def p_exact_div(p, q, limit=400):
    """p / q as a (generalised) polynomial if it divides exactly, else None"""
    if len(p) * len(q) > 20000:
        return None
    inside = {k for m in q for k, _ in m}
    # what does not occur in q only labels independent divisions
    groups = {}
    for m, c in p.items():
        a = tuple(x for x in m if x[0] in inside)
        b = tuple(x for x in m if x[0] not in inside)
        groups.setdefault(b, {})[a] = c
    ids = sorted(inside)
    keys = {}

    def key(m):
        v = keys.get(m)
        if v is None:
            d = dict(m)
            v = keys[m] = tuple(-d.get(k, 0) for k in ids)
        return v

    out = {}
    lq = min(q, key=key)
    tq = max(q, key=key)
    for b in sorted(groups, key=lambda b: len(groups[b])):
        g = groups[b]
        if len(g) < 2:
            return None
        r = _group_div(g, q, lq, tq, key, limit)
        if r is None:
            return None
        for m, c in r.items():
            out[m_mul(m, b)] = c
    return out


def _group_div(p, q, lq, tq, key, limit):
    cq = q[lq]
    inv = m_pow(lq, -1)
    rest = [(m, c) for m, c in q.items() if m != lq]
    # the trailing terms must divide as well: bounds the quotient
    low = key(m_mul(max(p, key=key), m_pow(tq, -1)))
    out = {}
    r = dict(p)
    heap = [(key(m), m) for m in r]
    heapq.heapify(heap)
    for _ in range(min(limit, len(p) * 2 + 4)):
        lr = None
        while heap:
            _, lr = heapq.heappop(heap)
            if lr in r:
                break
            lr = None
        if lr is None:
            return out
        m = m_mul(lr, inv)
        if key(m) > low:
            return None
        c = r.pop(lr) / cq
        out[m] = c
        for mq, cc in rest:
            mm = m_mul(m, mq)
            old = r.get(mm, 0)
            v = old - c * cc
            if v and not (old and _noise(v, old)):
                if not old:
                    heapq.heappush(heap, (key(mm), mm))
                r[mm] = v
            else:
                r.pop(mm, None)
    return None if r else out


def p_reduce(p):
    """cancel inverse sums: terms sharing q**-k whose cofactor is divisible by
    q are simplified"""
    for _ in range(12):
        done = True
        pps = {}
        for m in p:
            for k, e in m:
                if e < 0 and STORE.atoms[k].kind == "pp":
                    pps.setdefault((k, e), []).append(m)
        for (k, e), ms in sorted(pps.items()):
            if len(ms) < 2:
                continue
            data = STORE.atoms[k].data
            inside = {kk for m in data for kk, _ in m}
            groups = {}
            for m in ms:
                cofm = tuple(x for x in m if x[0] != k)
                out = tuple(x for x in cofm if x[0] not in inside)
                groups.setdefault(out, {})[cofm] = (p[m], m)
            hit = None
            for out, cof in sorted(groups.items()):
                if len(cof) < 2:
                    continue
                r = p_exact_div({m: v[0] for m, v in cof.items()}, data)
                if r is not None:
                    hit = (r, {v[1] for v in cof.values()})
                    break
            if hit is None:
                continue
            r, gone = hit
            rest = {m: c for m, c in p.items() if m not in gone}
            e2 = _n(e + 1)
            p = p_add(rest, p_mul(r, {((k, e2),): Fraction(1)} if e2 else ONE))
            done = False
            break
        if done:
            return p
    return p


def snap_simple(c):
    c = Fraction(c)
    if c.denominator > _BIG:
        s = c.limit_denominator(24)
        if s and abs(s - c) <= abs(c) * NOISE:
            return s
    return c


def p_pow(p, e, mul=None):
    mul = mul or s_mul
    e = _n(snap_simple(e))
    if isinstance(e, int):
        if e == 0:
            return dict(ONE)
        if e < 0:
            return p_pow(p_inv(p), -e, mul)
        r = ONE
        for _ in range(e):
            r = mul(r, p)
        return r
    if not p:
        if e > 0:
            return {}
        raise ZeroDivisionError
    # fractional
    key = (e, p_key(p))
    r = _POW_MEMO.get(key)
    if r is None:
        r = _POW_MEMO[key] = _p_pow_frac(p, e)
    return dict(r)


_POW_MEMO = {}


def _p_pow_frac(p, e):
    c, m, prim = p_content(p)
    out = dict(ONE)
    keep = []
    for k, x in m:
        a = STORE.atoms[k]
        if a.positive or a.kind in ("pp", "def"):
            out = p_mul(out, {((k, _n(x * e)),): Fraction(1)})
        else:
            keep.append((k, x))
    if keep:
        prim = p_mul(prim, {tuple(keep): Fraction(1)})
    if c < 0:
        prim = p_scale(prim, -1)
        c = -c
    if c != 1:
        out = p_mul(out, const_pow(c, e))
    if prim != ONE:
        if len(prim) == 1 and not keep:
            (mm, cc), = prim.items()
            out = p_mul(out, p_pow({mm: cc}, e))
        else:
            out = p_mul(out, p_atom(pp_atom(prim), e))
    return out


def const_pow(c, e):
    # exact rational root?
    d = Fraction(e).denominator
    nume = Fraction(e).numerator

    def root(n):
        r = round(n ** (1.0 / d)) if n < 2**200 else None
        if r is None:
            return None
        for x in (r - 1, r, r + 1):
            if x >= 0 and x**d == n:
                return x
        return None

    rn, rd = root(c.numerator), root(c.denominator)
    if rn is not None and rd is not None:
        return p_const(Fraction(rn, rd) ** nume)
    if d == 2:
        # sqrt(a/b) = s * sqrt(r): canonical up to squares of small primes
        r, out = c.numerator * c.denominator, Fraction(1, c.denominator)
        for q in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31):
            while r % (q * q) == 0:
                r //= q * q
                out *= q
        if out != 1:
            return p_scale(const_pow(Fraction(r), e), out**nume)
    a = STORE.get("pp", (("const", c),), f"c{c}", data={(): c}, positive=True)
    ip = math.floor(e)
    return p_scale(p_atom(a, _n(Fraction(e) - ip)), Fraction(c) ** ip)


def p_exp(p):
    p = p_reduce(p)
    out = dict(ONE)
    for m, c in p.items():
        c = _n(snap_simple(c))
        if not m:
            out = p_scale(out, q_exp(Fraction(c)))
            continue
        if len(m) == 1 and m[0][1] == 1:
            a = STORE.atoms[m[0][0]]
            if a.kind == "log":
                out = p_mul(out, p_pow(a.data, c))
                continue
        a = STORE.get(
            "exp", m, f"exp[{m_str(m)}]", data=m, positive=True
        )
        out = p_mul(out, {((a.id, _snap(a.id, c)),): Fraction(1)})
    return out


def _snap(k, c):
    """float constants folded in a different order give exponents that differ
    in the last bits: identify exponents within 1e-13 of each other."""
    if isinstance(c, int):
        return c
    known = STORE.snap.setdefault(k, [])
    for s in known:
        if abs(s - c) <= abs(s) * SNAP:
            return s
        if abs(s + c) <= abs(s) * SNAP:
            return -s
    known.append(c)
    return c


SNAP = Fraction(1, 10**13)


def p_log(p):
    p = p_reduce(p)
    if not p:
        raise Unsupported("log(0)")
    c, m, prim = p_content(p)
    out = {}
    keep = []
    for k, e in m:
        a = STORE.atoms[k]
        if not a.positive and a.kind not in ("pp", "def"):
            keep.append((k, e))
            continue
        if a.kind == "exp":
            out = p_add(out, {a.data: Fraction(e)})
        elif a.kind in ("pp", "def"):
            out = p_add(out, p_scale(p_log_atom(a.data), Fraction(e)))
        else:
            out = p_add(out, p_scale(p_log_atom(p_atom(a)), Fraction(e)))
    if keep:
        prim = p_mul(prim, {tuple(keep): Fraction(1)})
    if c < 0:
        prim = p_scale(prim, -1)
        c = -c
    if c != 1:
        if prim != ONE and not known_positive(prim):
            pass
        out = p_add(out, p_const(q_log(c)))
    if prim != ONE:
        out = p_add(out, p_log_atom(prim))
    return out


def p_log_atom(q):
    q = near("log", q)
    a = STORE.get("log", p_key(q), f"log[{p_str(q)}]", data=q)
    return p_atom(a)


def m_str(m):
    return "*".join(
        STORE.atoms[k].name + ("" if e == 1 else f"^{e}") for k, e in m
    ) or "1"


def p_str(p, limit=6):
    items = list(p.items())
    s = " + ".join(
        (f"{float(c):.6g}*" if c != 1 or not m else "") + m_str(m)
        for m, c in items[:limit]
    )
    if len(items) > limit:
        s += f" + ...({len(items)} terms)"
    return s or "0"


def atoms_of(p, acc=None):
    acc = set() if acc is None else acc
    for m in p:
        for k, _ in m:
            if k not in acc:
                acc.add(k)
                a = STORE.atoms[k]
                if a.kind in ("pp", "log", "def"):
                    atoms_of(a.data, acc)
                elif a.kind == "exp":
                    atoms_of({a.data: 1}, acc)
                elif a.kind == "opq" and a.data is not None:
                    for q in a.data:
                        atoms_of(q, acc)
    return acc


def clear_denominators(p, signed=False):
    """Return (N, D) with p = N / D; D a product of atom powers (as poly), N has
    no negative exponents.  If signed, D is made positive."""
    p = dict(p)
    D = dict(ONE)
    for _ in range(60):
        neg = {}
        for m in p:
            for k, e in m:
                if e < 0:
                    neg[k] = max(neg.get(k, 0), math.ceil(-e))
        if not neg:
            return p, D
        k = max(neg)
        e = neg[k]
        a = STORE.atoms[k]
        if signed and not a.positive and e % 2 == 1:
            e += 1
        f = (
            p_pow(a.data, e, p_mul) if a.kind == "pp" else {((k, e),): Fraction(1)}
        )
        p = p_mul(p, f) if a.kind != "pp" else _mul_pp(p, k, e)
        D = p_mul(D, f)
    raise Unsupported("denominator clearing did not terminate")


def _mul_pp(p, k, e):
    """multiply p by atom_k**e, cancelling against negative exponents first."""
    r = {}
    for m, c in p.items():
        r = p_add(r, p_mul({m: c}, {((k, e),): Fraction(1)}))
    return r


# --------------------------------------------------------------------------
# numeric evaluation (mpmath)
def p_eval(p, env, mp, cache=None):
    cache = {} if cache is None else cache
    tot = mp.mpf(0)
    for m, c in p.items():
        v = float(c) if mp is FloatCtx else \
            mp.mpf(c.numerator) / mp.mpf(c.denominator)
        for k, e in m:
            b = a_eval(k, env, mp, cache)
            if isinstance(e, int):
                v *= b**e
            else:
                v *= mp.power(b, mp.mpf(e.numerator) / e.denominator)
        tot += v
    return tot


def a_eval(k, env, mp, cache):
    if k in cache:
        return cache[k]
    a = STORE.atoms[k]
    if a.kind == "var":
        v = env[a.name]
        v = (mp.mpf(v.numerator) / v.denominator
             if isinstance(v, Fraction) and mp is not FloatCtx else mp.mpf(v))
    elif a.kind in ("pp", "def"):
        v = p_eval(a.data, env, mp, cache)
    elif a.kind == "exp":
        v = mp.exp(p_eval({a.data: Fraction(1)}, env, mp, cache))
    elif a.kind == "log":
        v = mp.log(p_eval(a.data, env, mp, cache))
    elif a.kind == "opq":
        if a.evalf is None:
            raise Unsupported(f"no numeric value for {a.name}")
        v = mp.mpf(a.evalf(lambda q: p_eval(q, env, mp, cache), env))
    else:
        raise Unsupported(a.kind)
    cache[k] = v
    return v


class FloatCtx:
    """double-precision stand-in for the mpmath context"""

    mpf = float

    @staticmethod
    def exp(x):
        return math.exp(x)

    @staticmethod
    def log(x):
        return math.log(x)

    @staticmethod
    def power(b, e):
        v = b**e
        if isinstance(v, complex):
            raise ValueError("complex")
        return v


# --------------------------------------------------------------------------
class _Hook:
    decide = None  # set by the explorer
    floats = None  # tag registry


HOOK = _Hook()


def _coerce(x):
    """poly of x, or None if not a scalar number."""
    if isinstance(x, SymReal):
        return x.p
    if isinstance(x, SymBool):
        return {(): Fraction(1)} if bool(x) else {}
    if isinstance(x, (int, float, Fraction)):
        return p_const(to_frac(x))
    if hasattr(x, "dtype") and getattr(x, "ndim", 1) == 0:
        v = x.item()
        if isinstance(v, SymReal):
            return v.p
        if isinstance(v, (int, float)):
            return p_const(to_frac(v))
    return None


def _isnan(x):
    try:
        return isinstance(x, float) and math.isnan(x) or (
            hasattr(x, "dtype") and getattr(x, "ndim", 1) == 0
            and isinstance(x.item(), float) and math.isnan(x.item())
        )
    except Exception:
        return False


def _isinf(x):
    try:
        return isinstance(x, float) and math.isinf(x)
    except Exception:
        return False


NAN = float("nan")


class SymReal:
    __slots__ = ("p",)
    __array_priority__ = 0

    def __init__(self, p):
        self.p = p

    # arithmetic -----------------------------------------------------------
    def _bin(self, other, f, swap=False):
        if _isnan(other):
            return NAN
        if _isinf(other):
            raise Unsupported("infinite operand")
        q = _coerce(other)
        if q is None:
            return NotImplemented
        return SymReal(f(q, self.p) if swap else f(self.p, q))

    def __add__(self, o):
        return self._bin(o, p_add)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: p_add(a, b, -1))

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: p_add(a, b, -1), swap=True)

    def __mul__(self, o):
        return self._bin(o, s_mul)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, p_divide)

    def __rtruediv__(self, o):
        return self._bin(o, p_divide, swap=True)

    def __neg__(self):
        return SymReal(p_scale(self.p, -1))

    def __pos__(self):
        return self

    def __pow__(self, o):
        if isinstance(o, SymReal):
            if len(o.p) == 0:
                return SymReal(dict(ONE))
            if len(o.p) == 1 and () in o.p:
                return SymReal(p_pow(self.p, o.p[()]))
            return SymReal(p_exp(p_mul(o.p, p_log(self.p))))
        if _isnan(o):
            return NAN
        q = _coerce(o)
        if q is None:
            return NotImplemented
        return SymReal(p_pow(self.p, q.get((), Fraction(0))))

    def __rpow__(self, o):
        if _isnan(o):
            return NAN
        q = _coerce(o)
        if q is None:
            return NotImplemented
        if not q or q[()] <= 0:
            raise Unsupported("non-positive constant to symbolic power")
        return SymReal(p_exp(p_mul(self.p, p_log(q))))

    def __abs__(self):
        return self if bool(self >= 0) else -self

    def __floordiv__(self, o):
        raise Unsupported("//")

    __rfloordiv__ = __mod__ = __rmod__ = __floordiv__

    def square(self):
        return self * self

    def conjugate(self):
        return self

    def reciprocal(self):
        return 1 / self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def exp(self):
        return SymReal(p_exp(self.p))

    def log(self):
        return SymReal(p_log(self.p))

    def log10(self):
        return SymReal(p_scale(p_log(self.p), 1 / LN10))

    def log2(self):
        return self.log() / SymReal(p_log(p_const(2)))

    def log1p(self):
        return (self + 1).log()

    def expm1(self):
        return self.exp() - 1

    def exp2(self):
        return 2**self

    def sqrt(self):
        return SymReal(p_pow(self.p, Fraction(1, 2)))

    def cbrt(self):
        return SymReal(p_pow(self.p, Fraction(1, 3)))

    def rint(self):
        return _round_atom(self.p, Fraction(1), "rint")

    def floor(self):
        return _round_atom(self.p, Fraction(1), "floor")

    def ceil(self):
        return _round_atom(self.p, Fraction(1), "ceil")

    def trunc(self):
        return _round_atom(self.p, Fraction(1), "trunc")

    __trunc__ = trunc
    __floor__ = floor
    __ceil__ = ceil

    def __round__(self, n=None):
        return _round_atom(self.p, Fraction(1, 10 ** (n or 0)), "rint")

    def __format__(self, spec):
        if HOOK.floats is None:
            return f"<{p_str(self.p)}>"
        return HOOK.floats.format(self, spec)

    # comparison -----------------------------------------------------------
    def _cmp(self, o, op):
        if _isnan(o):
            return op == "!="
        if _isinf(o):
            pos = o > 0
            return {"<": pos, "<=": pos, ">": not pos, ">=": not pos,
                    "==": False, "!=": True}[op]
        q = _coerce(o)
        if q is None:
            return NotImplemented
        d = p_add(self.p, q, -1)
        return cmp0(d, op)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        r = self._cmp(o, "==")
        return False if r is NotImplemented and not hasattr(o, "__array__") else r

    def __ne__(self, o):
        r = self._cmp(o, "!=")
        return True if r is NotImplemented and not hasattr(o, "__array__") else r

    def __hash__(self):
        return hash(p_key(self.p))

    def __bool__(self):
        r = self != 0
        return bool(r)

    def __float__(self):
        if len(self.p) == 0:
            return 0.0
        if len(self.p) == 1 and () in self.p:
            return float(self.p[()])
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        if len(self.p) == 0:
            return 0
        if len(self.p) == 1 and () in self.p:
            return int(self.p[()])
        if HOOK.floats is not None:
            return HOOK.floats.int_tag(self)
        raise Unsupported("int() of a symbolic value")

    def __complex__(self):
        raise Unsupported("complex()")

    def is_integer(self):
        return False

    def item(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return f"<{p_str(self.p)}>"

    __str__ = __repr__


numbers.Number.register(SymReal)


def _round_atom(p, unit, how):
    if len(p) == 0 or (len(p) == 1 and () in p):
        c = p.get((), Fraction(0)) / unit
        v = {"rint": round, "floor": math.floor, "ceil": math.ceil,
             "trunc": math.trunc}[how](c)
        return SymReal(p_const(v * unit))
    a = STORE.get(
        "opq", (how, unit, p_key(p)), f"{how}[{p_str(p, 2)}]", data=(p,)
    )
    if not a.constraints:
        q = p_atom(a)
        d = p_add(q, p, -1)  # rounded - value
        lo, hi = {
            "rint": (-unit / 2, unit / 2), "floor": (-unit, 0),
            "ceil": (0, unit), "trunc": (-unit, unit),
        }[how]
        a.constraints = [
            (p_add(d, p_const(-lo)), ">="), (p_add(p_const(hi), d, -1), ">=")
        ]

        def ev(evp, env, p=p, unit=unit, how=how):
            x = evp(p) * unit.denominator / unit.numerator
            f = {"rint": round, "floor": math.floor, "ceil": math.ceil,
                 "trunc": math.trunc}[how]
            return f(float(x)) * float(unit)

        a.evalf = ev
    return SymReal(p_atom(a))


def cmp0(d, op):
    """comparison d op 0 -> python bool if syntactically decided, else SymBool"""
    if not d:
        return op in ("<=", ">=", "==")
    if len(d) == 1 and () in d:
        c = d[()]
        return {"<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0,
                "==": c == 0, "!=": c != 0}[op]
    if op in ("<", "<="):
        d = p_scale(d, -1)
        op = {"<": ">", "<=": ">="}[op]
    d = p_reduce(d)
    if not d:
        return op in ("<=", ">=", "==")
    d2 = _delog(d)
    if d2 is not None:
        d = d2
        if not d:
            return op in ("<=", ">=", "==")
    if known_positive(d):
        return op in (">", ">=", "!=")
    if known_positive(p_scale(d, -1)):
        return op == "!="
    if len(d) > 1:
        c = d[max(d)]
        if c != 1:
            # thresholds that differ by float noise only are one threshold
            d = p_scale(near("cmp", p_scale(d, 1 / c)), 1 if c > 0 else -1)
        else:
            d = near("cmp", d)
    return SymBool(("cmp", d, op))


def _delog(d):
    """d = constant + sum of c_i log(q_i) with the c_i in small integer ratio:
    d <op> 0  iff  exp(d / |c|) - 1 <op> 0, which is algebraic."""
    if len(d) > 40:
        return None
    scale = None
    for m, c in d.items():
        if not m:
            continue
        if len(m) != 1 or m[0][1] != 1 or STORE.atoms[m[0][0]].kind != "log":
            return None
        scale = abs(c) if scale is None else min(scale, abs(c))
    if scale is None:
        return None
    den = 1
    r = {}
    for m, c in d.items():
        v = c / scale
        if m:
            v = snap_simple(v)
            if v.denominator > 2:
                return None
            den = max(den, v.denominator)
        r[m] = v
    d = p_scale(r, den)
    if max(abs(c) for m, c in d.items() if m) > 8:
        return None
    size = 1
    for m, c in d.items():
        if m:
            size *= max(1, len(STORE.atoms[m[0][0]].data)) ** math.ceil(abs(c))
    if size > 400:
        return None
    pos = p_exp({m: c for m, c in d.items() if c > 0})
    neg = p_exp({m: -c for m, c in d.items() if c < 0})
    return p_add(pos, neg, -1)


NEG = {">": "<=", ">=": "<", "==": "!=", "!=": "=="}


class SymBool:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        if HOOK.decide is None:
            raise Unsupported("symbolic branch outside exploration")
        return HOOK.decide(self)

    def __and__(self, o):
        if isinstance(o, (bool,)) or type(o).__name__ in ("bool_", "bool"):
            return self if o else False
        if isinstance(o, SymBool):
            return SymBool(("and", self.f, o.f))
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool,)) or type(o).__name__ in ("bool_", "bool"):
            return True if o else self
        if isinstance(o, SymBool):
            return SymBool(("or", self.f, o.f))
        return NotImplemented

    __ror__ = __or__

    def __invert__(self):
        return SymBool(("not", self.f))

    logical_not = __invert__

    def logical_and(self, o):
        return self & o

    def logical_or(self, o):
        return self | o

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __repr__(self):
        return f"<SymBool {f_str(self.f)}>"


def f_str(f):
    if f[0] == "cmp":
        return f"{p_str(f[1])} {f[2]} 0"
    if f[0] == "not":
        return f"!({f_str(f[1])})"
    return f"({f_str(f[1])} {f[0]} {f_str(f[2])})"


reset_store()
