"""Back ends: z3 (linear abstraction, product lemmas, non-linear) and cvc5 as a second opinion."""
import itertools
import time
from fractions import Fraction
import z3
from terms import *

STATS = {"calls": 0, "time": 0.0, "feas": 0}


class Enc:
    """formulas -> z3; mode 'lin' abstracts non-linear monomials, 'nl' keeps them;
    real=True relaxes integers to reals"""

    def __init__(self, nl=False, real=False):
        self.nl, self.real = nl, real
        self.vs, self.bs, self.ms, self.cache = {}, {}, {}, {}

    def v(self, i):
        if i not in self.vs:
            vi = VARS[i]
            self.vs[i] = z3.Int("v%d" % i) if vi.sort == "I" and not self.real else z3.Real("v%d" % i)
        return self.vs[i]

    def mono(self, k):
        if len(k) == 1:
            return self.v(k[0])
        if k not in self.ms:
            if self.nl:
                r = self.v(k[0])
                for x in k[1:]:
                    r = r * self.v(x)
            elif all(VARS[x].sort == "I" for x in k) and not self.real:
                r = z3.Int("m" + "_".join(map(str, k)))
            else:
                r = z3.Real("m" + "_".join(map(str, k)))
            self.ms[k] = r
        return self.ms[k]

    def poly(self, p):
        isint = p.is_int() and not self.real
        ts = []
        for k, c in p.m.items():
            cc = (z3.IntVal(c) if isint else z3.RealVal(c if isinstance(c, int) else "%d/%d" % (c.numerator, c.denominator)))
            if not k:
                ts.append(cc)
            else:
                m = self.mono(k)
                if not isint and m.sort() == z3.IntSort():
                    m = z3.ToReal(m)
                ts.append(m if c == 1 else cc * m)
        if not ts:
            return z3.IntVal(0)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def f(self, f):
        if f in self.cache:
            return self.cache[f]
        t = f[0]
        if t == "T":
            r = z3.BoolVal(True)
        elif t == "F":
            r = z3.BoolVal(False)
        elif t == "le":
            r = self.poly(f[1]) <= 0
        elif t == "lt":
            r = self.poly(f[1]) < 0
        elif t == "eq":
            r = self.poly(f[1]) == 0
        elif t == "bv":
            if f[1] not in self.bs:
                self.bs[f[1]] = z3.Bool("b_" + f[1])
            r = self.bs[f[1]]
        elif t == "not":
            r = z3.Not(self.f(f[1]))
        elif t == "and":
            r = z3.And([self.f(g) for g in f[1]])
        else:
            r = z3.Or([self.f(g) for g in f[1]])
        self.cache[f] = r
        return r

    def bounds(self, nums):
        out = []
        for i in nums:
            vi = VARS[i]
            x = self.v(i)
            if vi.sort == "I":
                if vi.lo is not None:
                    out.append(x >= vi.lo)
                if vi.hi is not None:
                    out.append(x <= vi.hi)
            else:
                if vi.lo is not None:
                    out.append(x > vi.lo)
                if vi.hi is not None:
                    out.append(x < vi.hi)
        return out


def atoms(f, out):
    t = f[0]
    if t in ("le", "lt", "eq"):
        out.append(f)
    elif t == "not":
        atoms(f[1], out)
    elif t in ("and", "or"):
        for g in f[1]:
            atoms(g, out)
    return out


def var_bounds(nums):
    """bounds of variables as formulas"""
    out = []
    for i in nums:
        vi = VARS[i]
        x = Poly({(i,): 1})
        if vi.sort == "I":
            if vi.lo is not None:
                out.append(le(vi.lo, x))
            if vi.hi is not None:
                out.append(le(x, vi.hi))
        else:
            if vi.lo is not None:
                out.append(lt(P(vi.lo), x))
            if vi.hi is not None:
                out.append(lt(x, P(vi.hi)))
    return out


def top_atoms(fs):
    for f in fs:
        if f[0] in ("le", "lt", "eq"):
            yield f
        elif f[0] == "and":
            yield from top_atoms(f[1])


def product_hints(fs, goal, limit=1500):
    """valid consequences p*q>=0 of pairs of known facts p>=0, q>=0 (linear p, q), chosen so that
    every resulting monomial already occurs in the problem or the product has a wanted monomial"""
    monos = set()
    for f in fs + [goal]:
        for a in atoms(f, []):
            monos.update(k for k in a[1].m if len(k) >= 2)
    if not monos:
        return []
    lins = []
    seen = set()
    allnums = set()
    for f in fs + [goal]:
        allnums |= fvars(f)[0]
    cand = list(top_atoms(fs)) + list(top_atoms([not_(goal)])) + var_bounds(allnums)
    for a in cand:
        if a[0] not in ("le", "lt"):
            continue
        p = -a[1]
        if a in seen or p.degree() > 2 or len(p.m) > 12:
            continue
        seen.add(a)
        c = abs(p.m.get((), 0))
        if c > 4 :
            continue                      # machine-range bounds: not useful in products
        lins.append((p, a[0] == "lt"))
    out = []
    for (p, sp), (q, sq) in itertools.combinations_with_replacement(lins, 2):
        if p.degree() + q.degree() > 4:
            continue
        r = p * q
        ks = [k for k in r.m if len(k) >= 2]
        if not ks or not all(k in monos for k in ks):
            continue
        out.append(lt(ZERO, r) if sp and sq else le(ZERO, r))
        if len(out) >= limit:
            break
    return out


class Solver:
    def __init__(self, feas_ms=3000):
        self.feas_ms = feas_ms
        self.enc = Enc()
        self.memo = {}
        self.s = None
        self.stack = []

    def reset(self):
        self.enc = Enc()
        self.memo = {}
        self.s = None
        self.stack = []

    def _sync(self, pc):
        """incremental solver with the path condition pushed one formula per level"""
        if self.s is None:
            self.s = z3.Solver()
            self.s.set("timeout", self.feas_ms)
            self.stack = []
            self.known = []
        n = 0
        while n < len(self.stack) and n < len(pc) and self.stack[n] == pc[n]:
            n += 1
        if len(self.stack) > n:
            self.s.pop(len(self.stack) - n)
            del self.stack[n:]
            del self.known[n:]
        for f in pc[n:]:
            self.s.push()
            prev = self.known[-1] if self.known else (frozenset(), frozenset())
            fs, nums, bools = closure([f])
            new = nums - prev[0]
            for g in fs:
                self.s.add(self.enc.f(g))
            for b in self.enc.bounds(new):
                self.s.add(b)
            self.stack.append(f)
            self.known.append((prev[0] | nums, prev[1] | bools))

    def feasible(self, pc):
        """False only if the path condition is contradictory (linear abstraction)"""
        STATS["feas"] += 1
        t = time.time()
        self._sync(pc)
        r = self.s.check()
        STATS["time"] += time.time() - t
        return r != z3.unsat

    def entails(self, pc, f):
        return not self.feasible(tuple(pc) + (not_(f),))


def _check(enc, fs, goal, ms, want_model=False, hints=(), tactic=None):
    s = z3.Solver() if tactic is None else z3.Tactic(tactic).solver()
    s.set("timeout", int(ms))
    allf, nums, bools = closure(list(fs) + [not_(goal)] + list(hints))
    for f in allf:
        s.add(enc.f(f))
    for b in enc.bounds(nums):
        s.add(b)
    r = s.check()
    if r == z3.sat and want_model:
        return r, s.model(), nums, bools
    return r, None, nums, bools


def satisfiable(pc, ms):
    """is there an input with this path condition (integers as integers)?"""
    return _check(Enc(nl=True), list(pc), F, ms)[0] == z3.sat


def extract(enc, m, nums, bools):
    out = {}
    for i in nums:
        v = m.eval(enc.v(i), model_completion=True)
        if z3.is_int_value(v):
            out[VARS[i].name] = v.as_long()
        elif z3.is_rational_value(v):
            out[VARS[i].name] = Fraction(v.numerator_as_long(), v.denominator_as_long())
        elif z3.is_algebraic_value(v):
            a = v.approx(20)
            out[VARS[i].name] = Fraction(a.numerator_as_long(), a.denominator_as_long())
    for b in bools:
        v = m.eval(enc.f(("bv", b)), model_completion=True)
        out[b] = z3.is_true(v)
    return out


def solve_eqs(fs, goal):
    """use unit-coefficient linear equations of the path condition to eliminate variables"""
    fs = list(fs)
    allf, nums, _ = closure(fs + [not_(goal)])
    fs = [f for f in allf if f != not_(goal)]
    for _ in range(60):
        pick = None
        for f in top_atoms(fs):
            if f[0] != "eq":
                continue
            p = f[1]
            for k, c in p.m.items():
                if len(k) == 1 and (abs(c) == 1 or VARS[k[0]].sort == "R") and not any(k[0] in k2 for k2 in p.m if k2 != k):
                    v = k[0]
                    if VARS[v].sort == "I" and not p.is_int():
                        continue
                    pick = (f, v, (p - Poly({k: c})) * P(-Fraction(1) / c))
                    break
            if pick:
                break
        if not pick:
            break
        f, v, r = pick
        s = {v: r}
        vi = VARS[v]
        extra = var_bounds([v])
        fs = [fsubst(g, s) for g in fs if g != f] + [fsubst(g, s) for g in extra]
        goal = fsubst(goal, s)
        if F in fs:
            return [F], goal
        fs = [g for g in fs if g != T]
        if goal == T:
            return fs, T
    return fs, goal


def strip(p):
    """drop factors known to be positive: v and 1-v for a variable v in (0,1)"""
    again = True
    while again and not p.is_const():
        again = False
        for v in p.vars():
            vi = VARS[v]
            if vi.sort != "R" or vi.lo != 0:
                continue
            if all(v in k for k in p.m):
                m = {}
                for k, c in p.m.items():
                    k = list(k)
                    k.remove(v)
                    m[tuple(k)] = c
                p, again = Poly(m), True
                break
            if vi.hi == 1 and p.subst({v: P(1)}).m == {}:
                # p = sum c_k v^k with p(1) = 0: quotient by (1-v) has coefficients c_0, c_0+c_1, ...
                by = {}
                for k, c in p.m.items():
                    n = sum(1 for x in k if x == v)
                    by.setdefault(n, {})[tuple(x for x in k if x != v)] = c
                acc, q = Poly({}), Poly({})
                for n in range(max(by)):
                    acc = acc + Poly(by.get(n, {}))
                    q = q + acc * Poly({(v,) * n: 1})
                p, again = q, True
                break
    return p


def simplify(f):
    t = f[0]
    if t in ("le", "lt", "eq"):
        q = strip(f[1])
        return f if q is f[1] else (le if t == "le" else lt if t == "lt" else eq)(q)
    if t == "not":
        return not_(simplify(f[1]))
    if t == "and":
        return and_(*[simplify(g) for g in f[1]])
    if t == "or":
        return or_(*[simplify(g) for g in f[1]])
    return f


def _has_eq(f):
    if f[0] == "eq":
        return True
    if f[0] in ("and", "or"):
        return any(_has_eq(g) for g in f[1])
    return False


def cases(pc, limit=256):
    """split disjunctions that hide equations (they come from merged paths); None if there is none"""
    todo = [list(pc)]
    out = []
    split = False
    while todo:
        fs = todo.pop()
        flat = []
        for f in fs:
            flat.extend(f[1] if f[0] == "and" else (f,))
        for i, f in enumerate(flat):
            if f[0] == "or" and len(f[1]) <= 64 and any(g[0] == "and" and len(g[1]) > 2 and _has_eq(g) for g in f[1]):
                split = True
                rest = flat[:i] + flat[i + 1:]
                for g in f[1]:
                    todo.append(rest + [g])
                break
        else:
            out.append(flat)
        if len(out) + len(todo) > limit:
            return None
    return out if split else None


def prove(pc, goal, budget=60.0, hints=(), want_model=True):
    """(verdict, backend, model): verdict proved | refuted | unknown"""
    t0 = time.time()
    STATS["calls"] += 1

    def left(cap):
        return max(0.2, min(cap, budget - (time.time() - t0))) * 1000
    if goal == T or goal in pc:
        return "proved", "normalisation", None
    if goal[0] == "and":
        bes = set()
        for g in goal[1]:
            r = prove(pc, g, budget, hints, want_model)
            if r[0] != "proved":
                return r
            bes.add(r[1])
        return "proved", "+".join(sorted(bes)), None
    pc = list(pc)
    enc = Enc()
    r, _, nums, bools = _check(enc, pc, goal, left(10))
    if r == z3.unsat:
        return "proved", "z3-linear", None
    nonlinear = any(len(k) > 1 for f in closure(pc + [not_(goal)])[0] for a in atoms(f, []) for k in a[1].m)
    if not nonlinear:
        if r == z3.sat and want_model:
            r, m, nums, bools = _check(Enc(), pc, goal, left(20), True)
            e = Enc()
            r, m, nums, bools = _check(e, pc, goal, left(20), True)
            return "refuted", "z3-linear", (extract(e, m, nums, bools) if m is not None else None)
        return ("refuted" if r == z3.sat else "unknown"), "z3-linear", None
    fs, g = solve_eqs(pc, goal)
    fs, g = [simplify(f) for f in fs], simplify(g)
    if g == T or F in fs or g in fs:
        return "proved", "normalisation", None
    r, _, _, _ = _check(Enc(), fs, g, left(10))
    if r == z3.unsat:
        return "proved", "z3-linear", None
    if hints:
        r, _, _, _ = _check(Enc(), pc + list(hints), goal, left(5))
        if r == z3.unsat:
            return "proved", "z3-linear+lemma", None
    cs = cases(pc)
    if cs is not None:
        bes = set()
        for c in cs:
            r = prove(c, goal, max(0.5, budget - (time.time() - t0)), hints, want_model)
            if r[0] != "proved":
                return r
            bes.update(r[1].split("+"))
        return "proved", "+".join(sorted(bes)), None
    if hints:
        r, _, _, _ = _check(Enc(), pc + list(hints), goal, left(15))
        if r == z3.unsat:
            return "proved", "z3-linear+lemma", None
    ph = product_hints(fs, g)
    if ph:
        r, _, _, _ = _check(Enc(), fs + list(hints), g, left(15), hints=ph)
        if r == z3.unsat:
            return "proved", "z3-linear+products", None
    e = Enc(nl=True, real=True)
    r, _, _, _ = _check(e, fs + list(hints), g, left(8))
    if r == z3.unsat:
        return "proved", "z3-nra", None
    e = Enc(nl=True)
    r, m, nums, bools = _check(e, pc, goal, left(15), want_model)
    if r == z3.unsat:
        return "proved", "z3-nia", None
    if r == z3.sat:
        return "refuted", "z3-nia", extract(e, m, nums, bools) if m is not None else None
    r = cvc5_check(fs + list(hints), g, left(20))
    if r == "unsat":
        return "proved", "cvc5", None
    return "unknown", "z3+cvc5", None


def cvc5_check(fs, goal, ms):
    try:
        import cvc5
    except ImportError:
        return "unknown"
    e = Enc(nl=True)
    s = z3.Solver()
    allf, nums, bools = closure(list(fs) + [not_(goal)])
    for f in allf:
        s.add(e.f(f))
    for b in e.bounds(nums):
        s.add(b)
    txt = s.to_smt2()
    try:
        tm = cvc5.TermManager()
        sv = cvc5.Solver(tm)
        sv.setOption("tlimit-per", str(int(ms)))
        p = cvc5.InputParser(sv)
        sv.setLogic("ALL")
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "q")
        sm = p.getSymbolManager()
        out = ""
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            out += c.invoke(sv, sm)
        if "unsat" in out:
            return "unsat"
        return "sat" if "sat" in out else "unknown"
    except Exception:
        return "unknown"
