"""Terms of the verification conditions.

Numbers are polynomials with rational coefficients over variables that are either mathematical
integers ('I') or reals ('R').  Machine integers are mathematical integers plus explicit range
obligations, so nothing here ever wraps.  Formulas are nested tuples over the atoms
('le', p) p<=0, ('lt', p) p<0 (only when p is not integral), ('eq', p) p=0 and ('bv', name).
"""
from fractions import Fraction
from math import gcd


class VarInfo:
    __slots__ = ("name", "sort", "lo", "hi")

    def __init__(self, name, sort, lo=None, hi=None):
        self.name, self.sort, self.lo, self.hi = name, sort, lo, hi


VARS = []          # id -> VarInfo
BYNAME = {}        # name -> id
DEFS = {}          # var id -> list of defining formulas (definitional side constraints)
BDEFS = {}         # bool var name -> list of formulas


def reset():
    VARS.clear()
    BYNAME.clear()
    DEFS.clear()
    BDEFS.clear()
    _SGN.clear()
    _SGN_OF.clear()
    _DIVC.clear()


def var(name, sort="I", lo=None, hi=None):
    """The variable of that name (created at first use); lo/hi are inclusive bounds for 'I' and
    strict bounds for 'R'."""
    if name not in BYNAME:
        BYNAME[name] = len(VARS)
        VARS.append(VarInfo(name, sort, lo, hi))
    return Poly({(BYNAME[name],): 1})


_fresh = [0]


def fresh(prefix, sort="I", lo=None, hi=None):
    while True:
        _fresh[0] += 1
        n = "%s!%d" % (prefix, _fresh[0])
        if n not in BYNAME:
            return var(n, sort, lo, hi)


class Poly:
    __slots__ = ("m", "_h")

    def __init__(self, m):
        self.m = m
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.m.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.m == o.m

    def is_const(self):
        return not self.m or (len(self.m) == 1 and () in self.m)

    def const(self):
        return self.m.get((), 0)

    def vars(self):
        return {v for k in self.m for v in k}

    def degree(self):
        return max((len(k) for k in self.m), default=0)

    def is_int(self):
        return all(isinstance(c, int) for c in self.m.values()) and all(
            VARS[v].sort == "I" for v in self.vars())

    def __add__(self, o):
        o = P(o)
        r = dict(self.m)
        for k, c in o.m.items():
            n = r.get(k, 0) + c
            if n == 0:
                r.pop(k, None)
            else:
                r[k] = _n(n)
        return Poly(r)

    __radd__ = __add__

    def __neg__(self):
        return Poly({k: -c for k, c in self.m.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def __mul__(self, o):
        o = P(o)
        r = {}
        for k1, c1 in self.m.items():
            for k2, c2 in o.m.items():
                k = tuple(sorted(k1 + k2)) if k1 and k2 else (k1 or k2)
                n = r.get(k, 0) + c1 * c2
                if n == 0:
                    r.pop(k, None)
                else:
                    r[k] = _n(n)
        return Poly(r)

    __rmul__ = __mul__

    def subst(self, s):
        """s: var id -> Poly"""
        if not (self.vars() & s.keys()):
            return self
        r = ZERO
        for k, c in self.m.items():
            t = Poly({(): c})
            for v in k:
                t = t * (s[v] if v in s else Poly({(v,): 1}))
            r = r + t
        return r

    def __repr__(self):
        if not self.m:
            return "0"
        out = []
        for k, c in sorted(self.m.items(), key=lambda x: (len(x[0]), x[0])):
            n = "*".join(VARS[v].name for v in k)
            if not k:
                out.append(str(c))
            elif c == 1:
                out.append(n)
            elif c == -1:
                out.append("-" + n)
            else:
                out.append("%s*%s" % (c, n))
        return " + ".join(out).replace("+ -", "- ")


def _n(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return int(c)
    return c


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        raise TypeError("bool as number")
    return Poly({(): _n(x)} if x != 0 else {})


ZERO = Poly({})
ONE = Poly({(): 1})

# ---------------------------------------------------------------- formulas
T = ("T",)
F = ("F",)


def bvar(name):
    return ("bv", name)


def fresh_bool(prefix):
    _fresh[0] += 1
    return ("bv", "%s!%d" % (prefix, _fresh[0]))


def le(a, b=ZERO):
    p = P(a) - P(b)
    if p.is_const():
        return T if p.const() <= 0 else F
    p, _ = _scale(p)
    if p.is_int():
        g = 0
        for k, c in p.m.items():
            if k:
                g = gcd(g, abs(c))
        if g > 1:
            m = {k: c // g for k, c in p.m.items() if k}
            c0 = p.m.get((), 0)
            c0 = -((-c0) // g)          # ceil(c0/g): sum + c0/g <= 0  <=>  sum + ceil(c0/g) <= 0
            if c0:
                m[()] = c0
            p = Poly(m)
    return _sgn_le(p)


def lt(a, b=ZERO):
    p = P(a) - P(b)
    if p.is_const():
        return T if p.const() < 0 else F
    p, _ = _scale(p)
    if p.is_int():
        return le(p + 1)
    return ("lt", p)


def ge(a, b=ZERO):
    return le(b, a)


def gt(a, b=ZERO):
    return lt(b, a)


def _scale(p):
    """clear denominators (positive factor)"""
    d = 1
    for c in p.m.values():
        if isinstance(c, Fraction):
            d = d * c.denominator // gcd(d, c.denominator)
    if d != 1:
        p = Poly({k: int(c * d) for k, c in p.m.items()})
    return p, d


def eq(a, b=ZERO):
    p = P(a) - P(b)
    if p.is_const():
        return T if p.const() == 0 else F
    p, _ = _scale(p)
    g = 0
    for k, c in p.m.items():
        if k:
            g = gcd(g, abs(c))
    c0 = p.m.get((), 0)
    if g > 1:
        if c0 % g == 0:
            p = Poly({k: c // g for k, c in p.m.items()})
        elif p.is_int():
            return F
    if len(p.m) == 1:
        (k, _), = p.m.items()
        p = Poly({tuple(sorted(set(k))): 1})
    lead = min(p.m, key=lambda k: (-len(k), k))
    if p.m[lead] < 0:
        p = -p
    if len(p.m) == 2 and p.m.get(()) == -1 and len(lead) == 2 and lead[0] == lead[1] and p.m[lead] == 1 \
            and (VARS[lead[0]].sort, VARS[lead[0]].lo, VARS[lead[0]].hi) == ("I", -1, 1):
        return not_(eq(Poly({lead[:1]: 1})))           # r*r = 1 for a remainder of 2
    return _sgn_eq(p)


def ne(a, b=ZERO):
    return not_(eq(a, b))


def not_(f):
    t = f[0]
    if t == "T":
        return F
    if t == "F":
        return T
    if t == "not":
        return f[1]
    if t == "le":
        return gt(f[1])
    if t == "lt":
        return ge(f[1])
    if t == "and":
        return or_(*[not_(x) for x in f[1]])
    if t == "or":
        return and_(*[not_(x) for x in f[1]])
    return ("not", f)


def and_(*fs):
    out = []
    seen = set()
    for f in fs:
        for g in (f[1] if f[0] == "and" else (f,)):
            if g == F:
                return F
            if g == T or g in seen:
                continue
            if not_(g) in seen:
                return F
            seen.add(g)
            out.append(g)
    if not out:
        return T
    if len(out) == 1:
        return out[0]
    return ("and", tuple(out))


def or_(*fs):
    out = []
    seen = set()
    for f in fs:
        for g in (f[1] if f[0] == "or" else (f,)):
            if g == T:
                return T
            if g == F or g in seen:
                continue
            if g[0] in ("bv", "not", "le", "eq") and not_(g) in seen:
                return T
            seen.add(g)
            out.append(g)
    if not out:
        return F
    if len(out) == 1:
        return out[0]
    return ("or", tuple(out))


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    if a == b:
        return T
    if a in (T, F):
        return b if a == T else not_(b)
    if b in (T, F):
        return a if b == T else not_(a)
    return and_(implies(a, b), implies(b, a))


def ite(c, a, b):
    return and_(implies(c, a), implies(not_(c), b))


# ------------------------------------------------ sign atoms: sgn(p) in {-1,0,1}
_SGN = {}      # poly -> var id
_SGN_OF = {}   # var id -> poly


def sgn(p):
    p = P(p)
    if p.is_const():
        c = p.const()
        return P((c > 0) - (c < 0))
    if p not in _SGN:
        v = fresh("sgn", "I", -1, 1)
        vid = next(iter(v.vars()))
        _SGN[p] = vid
        _SGN_OF[vid] = p
        DEFS[vid] = [or_(and_(lt(p), ("eq", v + 1)), and_(eq(p), ("eq", v)), and_(gt(p), ("eq", v - 1)))]
    return Poly({(_SGN[p],): 1})


def _is_k(p, c):
    if c == 1:
        return gt(p)
    if c == 0:
        return eq(p)
    if c == -1:
        return lt(p)
    return F


def _sgn_eq(p):
    vs = [k for k in p.m if k]
    if any(len(k) != 1 or k[0] not in _SGN_OF for k in vs):
        return ("eq", p)
    return _sgn_enum(p, vs, lambda x: x == 0, ("eq", p))


def _sgn_le(p):
    vs = [k for k in p.m if k]
    if any(len(k) != 1 or k[0] not in _SGN_OF for k in vs):
        return ("le", p)
    return _sgn_enum(p, vs, lambda x: x <= 0, ("le", p))


def _sgn_enum(p, vs, test, orig):
    if len(vs) == 1:
        q = _SGN_OF[vs[0][0]]
        return or_(*[_is_k(q, c) for c in (-1, 0, 1) if test(p.m[vs[0]] * c + p.const())])
    if len(vs) == 2:
        q, r = _SGN_OF[vs[0][0]], _SGN_OF[vs[1][0]]
        return or_(*[and_(_is_k(q, a), _is_k(r, b)) for a in (-1, 0, 1) for b in (-1, 0, 1)
                     if test(p.m[vs[0]] * a + p.m[vs[1]] * b + p.const())])
    return orig


# ------------------------------------------------ division by a constant
_DIVC = {}


def divmod_const(p, c, kind):
    """(q, r) with p = c*q + r; kind 'trunc' (Rust / and %) or 'floor' (shift, mask)."""
    p = P(p)
    assert c != 0
    if p.is_const():
        a = p.const()
        if kind == "floor":
            return P(a // c), P(a % c)
        q = abs(a) // abs(c)
        if (a < 0) != (c < 0):
            q = -q
        return P(q), P(a - c * q)
    if p.is_int() and all(x % c == 0 for x in p.m.values()):
        return Poly({k: x // c for k, x in p.m.items()}), ZERO
    if (p, c, kind) not in _DIVC and c == 2 and kind == "floor":
        # in terms of the truncating pair, so that mask, shift, / and % agree on the same variables
        t, r = divmod_const(p, 2, "trunc")
        q = fresh("q")
        DEFS[next(iter(q.vars()))] = [("eq", 2 * q + r * r - 2 * t - r)]
        _DIVC[(p, c, kind)] = (q, r * r)
    if (p, c, kind) not in _DIVC:
        m = abs(c) - 1
        q = fresh("q")
        r = fresh("r", "I", -m if kind == "trunc" else 0, m)
        d = [("eq", (c * q + r - p) if True else None)]
        if kind == "trunc":
            d += [implies(ge(p), ge(r)), implies(le(p), le(r))]
        for x in (q, r):
            DEFS[next(iter(x.vars()))] = d
        _DIVC[(p, c, kind)] = (q, r)
    return _DIVC[(p, c, kind)]


# ------------------------------------------------ traversal helpers
def fvars(f, out=None):
    """numeric variable ids and bool names of a formula"""
    if out is None:
        out = (set(), set())
    t = f[0]
    if t in ("le", "lt", "eq"):
        out[0].update(f[1].vars())
    elif t == "bv":
        out[1].add(f[1])
    elif t == "not":
        fvars(f[1], out)
    elif t in ("and", "or"):
        for g in f[1]:
            fvars(g, out)
    return out


def closure(fs):
    """the formulas plus the definitions of every variable they mention, transitively"""
    fs = list(fs)
    nums, bools = set(), set()
    out = []
    seen = set()
    todo = list(fs)
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.add(f)
        out.append(f)
        a, b = fvars(f)
        for v in a - nums:
            todo.extend(DEFS.get(v, ()))
        for v in b - bools:
            todo.extend(BDEFS.get(v, ()))
        nums |= a
        bools |= b
    return out, nums, bools


def fsubst(f, s):
    t = f[0]
    if t == "le":
        return le(f[1].subst(s))
    if t == "lt":
        return lt(f[1].subst(s))
    if t == "eq":
        return eq(f[1].subst(s))
    if t == "not":
        return not_(fsubst(f[1], s))
    if t == "and":
        return and_(*[fsubst(g, s) for g in f[1]])
    if t == "or":
        return or_(*[fsubst(g, s) for g in f[1]])
    return f


def show(f):
    t = f[0]
    if t in "TF":
        return t
    if t == "le":
        return "%r <= 0" % f[1]
    if t == "lt":
        return "%r < 0" % f[1]
    if t == "eq":
        return "%r = 0" % f[1]
    if t == "bv":
        return f[1]
    if t == "not":
        return "!(" + show(f[1]) + ")"
    return "(" + (" & " if t == "and" else " | ").join(show(g) for g in f[1]) + ")"
