"""Failing-input search on the real code: exact oracle, directed (solver model) and random inputs.

Used to replay counterexamples of failed obligations and, where the proof does not reach, as the
bounded stand-in.  Everything reported here is a concrete public API call whose outcome contradicts
the property.
"""
import multiprocessing as mp
import os
import random
import select
import signal
import subprocess
import sys
import tempfile
import time
from fractions import Fraction as Fr
from multiprocessing.connection import wait
from campaign import die_with_parent
from oracle import *
from replay import Driver

LIMIT = 300
sys.setrecursionlimit(20000)                 # expressions may be nested deeply
CONST = [0, 1, -1, 2, -2, 3, -3, 4, -4]
EDGE = sorted({s * v for k in (15, 16, 31, 32, 33, 53, 61, 62, 63, 64) for o in (-2, -1, 0, 1, 2) for s in (1, -1) for v in ((1 << k) + o,)}
              | {s * (IMAX // k + o) for k in (1, 2, 3, 4, 5, 8) for o in (-1, 0, 1) for s in (1, -1)} | {IMIN, IMIN + 1, IMAX, IMAX - 1})
IEDGE = [v for v in EDGE if IMIN <= v <= IMAX]
UEDGE = [v for v in EDGE if 0 <= v <= UMAX] + [UMAX, UMAX - 1]


class Gen:
    def __init__(self, rng):
        self.r = rng

    def mode(self):
        return self.r.choice("sssmmlex")

    def int(self, m=None):
        r = self.r
        m = m or self.mode()
        if m == "t":
            return r.randint(-9, 9)
        if m == "s":
            return r.randint(-9, 9)
        if m == "m":
            return r.randint(-1000, 1000)
        if m == "l":
            return r.randint(-(1 << r.randint(10, 63)), (1 << r.randint(10, 63)) - 1)
        if m == "e":
            return r.choice(IEDGE)
        return r.choice(CONST)

    def uint(self, m=None):
        r = self.r
        m = m or self.mode()
        if m in "ls" and r.random() < .5:
            return r.getrandbits(r.randint(1, 64))
        if m == "e":
            return r.choice(UEDGE)
        return abs(self.int(m)) if m != "l" else r.getrandbits(64)

    def ratio(self, m=None, zero=0.02):
        r = self.r
        if m is None and r.random() < .03:
            n, d = self.straddle(1)
            return ("r", n, d)
        if r.random() < .75 or m == "t":
            n, d = self.int(m), self.int(m)
            if d == 0 and r.random() > zero:
                d = 1 + r.randint(0, 8)
            return ("r", n, d)
        n, d = self.uint(m), self.uint(m)
        if d == 0 and r.random() > zero:
            d = 1 + r.randint(0, 8)
        return ("u", r.randint(0, 1), n, d)

    def coefs(self, n, m=None):
        r = self.r
        m = m or self.mode()
        c = [self.int(m if r.random() < .8 else None) if r.random() < .8 else r.choice((0, 0, 1, -1, 2)) for _ in range(n)]
        if m == "t":
            c = [self.int("t") if r.random() < .8 else r.choice((0, 0, 1, -1, 2)) for _ in range(n)]
        return tuple(c)

    def homo(self, depth=1, m=None):
        r = self.r
        x = self.num(depth - 1, m)
        c = self.coefs(4, m)
        k = r.random()
        if k < .12:
            c = r.choice([(1, 0, 0, 1), (-1, 0, 0, 1), (0, 1, 1, 0), (0, -1, 1, 0), (2, 0, 0, 1), (1, 0, 0, 2), (1, 1, 0, 1), (1, -1, 1, 1), (1, 0, 1, 1)])
        elif k < .3:
            c = self.aim_homo(x, c)
        elif k < .38 and m is None:
            c = self.straddle(2)
        return ("h", c, x)

    def straddle(self, n):
        """large coefficients whose quotient stays very close to a value where the next symbol changes"""
        r = self.r
        p, q = r.choice(((0, 1), (1, 2), (1, 2), (1, 1), (2, 1), (-1, 1), (-1, 2), (-2, 1)))
        b = 1 << r.randint(20, 61)
        b = b if r.random() < .6 else r.randint(b // 2, b)
        near = lambda: r.choice((0, 0, 1, -1, 2, -2, r.randint(-9, 9)))
        top, low = [near() for _ in range(n)], [r.choice((0, 0, near())) for _ in range(n)]
        for i in {n - 1} if r.random() < .7 else {n - 1, r.randrange(n)}:
            top[i], low[i] = p * b // q + near(), b
        return tuple(top + low)

    def aim_homo(self, x, c):
        """make the denominator, the numerator or a difference vanish, or nearly so"""
        try:
            v = value(x)
        except DivZero:
            return c
        p, q = v.numerator, v.denominator
        k = self.r.randint(-3, 3) or 1
        o = self.r.choice((0, 0, 0, 1, -1))
        z = [(q * k, -p * k + o)]
        t = self.r.randint(0, 3)
        nx, n, dx, d = c
        if t == 0:
            dx, d = z[0]
        elif t == 1:
            nx, n = z[0]
        elif t == 2:
            nx, n = dx + z[0][0], d + z[0][1]
        else:
            nx, n = -dx + z[0][0], -d + z[0][1]
        c2 = (nx, n, dx, d)
        return c2 if all(IMIN <= i <= IMAX for i in c2) else c

    def comb(self, depth=1, m=None):
        r = self.r
        x, y = self.num(depth - 1, m), self.num(depth - 1, m)
        c = self.coefs(8, m)
        k = r.random()
        if k < .3:
            c = r.choice([(0, 1, 1, 0, 0, 0, 0, 1), (0, 1, -1, 0, 0, 0, 0, 1), (1, 0, 0, 0, 0, 0, 0, 1), (0, 1, 0, 0, 0, 0, 1, 0),
                          (0, 1, 1, 0, -1, 0, 0, 1), (0, 1, 1, 0, 1, 0, 0, 1), (1, 1, 1, 1, 1, 2, 3, 5), (0, 1, -1, 0, 0, 1, 1, 0)])
        elif k < .42:
            try:
                p, q = value(x).numerator, value(x).denominator
                a, b = r.randint(-2, 2), r.randint(-2, 2)
                t = r.randint(0, 1)
                z = (q * a, q * b, -p * a, -p * b)
                c2 = c[:4] + z if t else z + c[4:]
                if all(IMIN <= i <= IMAX for i in c2):
                    c = c2
            except DivZero:
                pass
        elif k < .5 and m is None:
            c = self.straddle(4)
        return ("c", c, x, y)

    def tail(self, n):
        """n symbols, as the transformations (inmost first) that put them in front of a value in (0,1)"""
        r = self.r
        k = r.random()
        pat = "A" if k < .4 or n > 2000 else "U" if k < .55 else "AU"[:1] * r.randint(1, 70) + "U" if k < .8 else "".join(r.choice("AAU") for _ in range(r.randint(2, 40)))
        out, m, lim = [], (1, 0, 0, 1), 1 << (60 if n > 2000 else r.choice((4, 8, 30, 60 if pat == "A" else 29)))
        for i in range(n):
            a, b, c, d = m
            m = (a, 2 * b, c, 2 * d) if pat[i % len(pat)] == "A" else (b, a + b, d, c + d)
            if max(m) >= lim:
                out.append(m)
                m = (1, 0, 0, 1)
        return (out + [m])[::-1]

    def deep(self, n=None, ts=None, leaf=None):
        """a value whose stream has n symbols before the ratio at its end"""
        r = self.r
        e = leaf
        while e is None or not 0 < value(e) < 1:
            e = ("r", r.randint(1, 9), r.randint(2, 10 ** r.randint(1, 18)))
        for m in ts or self.tail(n or r.choice((70, 130, 140, 260, 300, 600))):
            e = ("h", m, e)
        if r.random() < .3:
            e = ("h", r.choice(((-1, 0, 0, 1), (0, 1, 1, 0), (0, -1, 1, 0))), e)
        return e

    def num(self, depth, m=None):
        r = self.r
        if m is None and r.random() < .01:
            return self.deep()
        if depth <= 0 or r.random() < .35:
            if r.random() < .12:
                return ("r", r.choice((-1, 0, 1)), 1)
            return self.ratio(m)
        k = r.random()
        if k < .55:
            return self.homo(depth, m)
        if k < .85:
            return self.comb(depth, m)
        if k < .93:
            return ("k", self.num(depth - 1, m))
        return ("p", r.randint(0, 4), self.num(depth - 1, m))


# ------------------------------------------------------------------ judging
def judge(e, res, limit=LIMIT):
    """(category, expected) or None.  categories: value, undefined, division, panic, overflow, unclear, hang, crash"""
    if res == "SKIPPED":
        return None
    if res == "HANG":
        return "hang", "a result"
    if res == "CRASH":
        return "crash", "a result"
    pre, msg = panic_of(res)
    c = classify(msg) if msg is not None else None
    try:
        exp = shown(value(e), limit)
    except DivZero:
        if c == "division":
            return None
        if c == "overflow":
            return "overflow", "division by zero"
        if msg is None or pre:
            return "undefined", "panic 'division by zero'"
        return ("nodivision" if c == "unclear" else "panic"), "panic 'division by zero'"
    if msg is None:
        return None if res == exp else ("value", exp)
    if not exp.startswith(pre):
        return "value", exp
    return {"division": "division", "other": "panic", "overflow": "overflow", "unclear": "unclear"}[c], exp


def small(e):
    """no overflow is possible: a single operation on tiny ratios (bounds argued in DESIGN.md)"""
    if e[0] == "r":
        return max(abs(e[1]), abs(e[2])) <= 9
    if e[0] in "hc":
        return all(abs(i) <= 9 for i in e[1]) and all(x[0] == "r" and small(x) for x in e[2:])
    return False


def never_overflows(e):
    return e[0] in "ru"


def fits(v):
    return abs(v.numerator) <= IMAX and v.denominator <= IMAX


class Search:
    """cases(rng) yields (line, judge) pairs; judge(result, profile) -> explanation or None"""

    def __init__(self, prop, seed, directed=(), soft=False):
        self.prop, self.seed, self.directed, self.soft = prop, seed, list(directed), soft

    def cases(self, worker):
        g = Gen(random.Random("%s-%s-%s" % (self.prop, self.seed, worker)))
        f = getattr(self, "case_" + self.prop)
        for i, e in enumerate(self.directed):
            if i % 8 == worker % 8:
                yield from self.around(g, e)
        while True:
            yield from f(g, None)

    def around(self, g, e):
        f = getattr(self, "case_" + self.prop)
        for v in variants(g, e):
            yield from f(g, v)

    # ------------------------------------------------ per property
    def show(self, e, cats, limit=LIMIT):
        def j(res, profile):
            r = judge(e, res, limit)
            if r is None:
                return None
            c, exp = r
            if c in cats or (c == "overflow" and "small" in cats and (small(e) or never_overflows(e))) \
                    or (c == "unclear" and "small" in cats and (small(e) or never_overflows(e))):
                return "%s: expected %s" % (c, exp)
            return None
        return "show %d %s" % (limit, text(e)), j

    def case_C01(self, g, e):
        e = e if e is not None and e[0] in "ru" else g.ratio(zero=.3)
        yield self.show(e, ("value", "undefined", "nodivision", "division", "panic", "overflow", "unclear", "hang", "crash"), 3)

    def case_C02(self, g, e):
        e = e if e is not None and e[0] in "ru" else g.ratio(zero=0)
        yield self.show(e, ("value", "division", "panic", "overflow", "unclear", "hang", "crash"), 600)

    def case_C04(self, g, e):
        e = e if e is not None and e[0] == "h" else g.homo(g.r.choice((1, 1, 1, 2, 3)))
        yield self.show(e, ("value", "undefined"))

    def case_C05(self, g, e):
        e = e if e is not None and e[0] == "c" else g.comb(g.r.choice((1, 1, 1, 1, 2)), g.r.choice((None, "t", "s", "m")))
        yield self.show(e, ("value", "undefined"))

    def some(self, g):
        k = g.r.random()
        if k < .02:
            return g.deep()
        if k < .15:
            return g.ratio(zero=.1)
        if k < .5:
            return g.homo(g.r.choice((1, 1, 2, 3)), "t" if g.r.random() < .3 else None)
        if k < .9:
            return g.comb(g.r.choice((1, 1, 2)), g.r.choice((None, "t", "s", "m")))
        return g.num(3)

    def case_C03(self, g, e):
        r = g.r
        big = False
        if e is not None and e[0] == "cmp":
            x, y = e[1], e[2]
        else:
            x = e if e is not None and e[0] in "ruhckp" else self.some(g)
            y = self.some(g)
            if e is None and r.random() < .05:
                # a long common beginning
                ts = g.tail(r.choice((70, 130, 140, 260, 300, 600, 1100) if r.random() < .9995 else (33000, 66000)))
                big = len(ts) > 400
                q = r.randint(2, 10 ** r.randint(1, 18))
                l = [("r", r.randint(1, q - 1), q) for _ in "xy"]
                t = r.random() < .5
                x, y = [g.deep(ts=ts + [m] if t else ts, leaf=a) for a, m in zip(l, [r.choice(((1, 0, 0, 1), (-1, 0, 0, 1), (0, 1, 1, 0)))] * 2)]
            try:
                v = value(x)
                k = r.random()
                if k < .5:
                    w = v
                    if k < .4:
                        dd = r.choice((Fr(1, 1 << r.randint(1, 60)), Fr(1, r.randint(1, 10 ** r.randint(1, 18)))))
                        w = v + r.choice((0, 0, dd, -dd))
                    if k > .45:
                        w = -v
                    if fits(w):
                        y = ("r", w.numerator, w.denominator)
                        if r.random() < .5:
                            x, y = y, x
            except DivZero:
                return
        try:
            vx, vy = value(x), value(y)
        except DivZero:
            return
        exp = "<" if vx < vy else "=" if vx == vy else ">"

        def j(res, profile):
            if res == "SKIPPED":
                return None
            pre, msg = panic_of(res)
            if res in ("HANG", "CRASH"):
                return None if big else "hang: expected %s" % exp
            if msg is not None:
                if classify(msg) == "overflow" and not (never_overflows(x) and never_overflows(y)):
                    return None
                if classify(msg) == "division":
                    return None
                if not (never_overflows(x) and never_overflows(y)):
                    return None
                return "panic: expected %s" % exp
            return None if res == exp else "value: expected %s" % exp
        yield "cmp %s %s" % (text(x), text(y)), j

    def case_C06(self, g, e):
        x = e[1] if e is not None and e[0] == "con" else e if e is not None and e[0] in "ruhckp" else self.some(g) if g.r.random() < .6 else g.ratio(zero=0)
        try:
            v = value(x)
        except DivZero:
            return

        def j(res, profile):
            if res == "SKIPPED":
                return None
            if res in ("HANG", "CRASH"):
                return "hang: expected coefficients"
            pre, msg = panic_of(res)
            if msg is not None and not pre:
                return "panic: consuming never panics" if never_overflows(x) else None
            f = pre.split(" ", 4)
            nx, n, dx, d = map(int, f[:4])
            if f[4] == "none":
                y = HALF
            else:
                if max(map(abs, (nx, n, dx, d))) < IMAX // 4:
                    return "early: stopped although no coefficient has reached a quarter of the range"
                if not f[4].startswith("O - "):
                    return "value: the rest is not in (0,1)"
                if dx * v - nx == 0:
                    return "value: no rest fits the coefficients"
                y = (n - d * v) / (dx * v - nx)
                if not 0 < y < 1:
                    return "value: the rest would have to be %s" % y
                got = f[4][4:]
                w = symbols(y, 40)
                if not (w.startswith(got) if msg is not None else w == got):
                    return "value: expected the rest %s" % w
                return None
            den = dx * y + d
            if den == 0 or (nx * y + n) / den != v:
                return "value: the coefficients do not reproduce %s" % v
            return None
        yield "con 40 %s" % text(x), j

    def case_C07(self, g, e):
        if e is not None and e[0] == "con":
            yield from self.case_C06(g, e)
            return
        if e is not None and e[0] == "cmp":
            yield from self.case_C03(g, e)
            return
        e = e if e is not None and e[0] in "ruhc" else self.some(g) if g.r.random() < .7 else g.r.choice((g.homo, g.comb))(1, "t")
        cats = ("panic", "crash", "small") + (("value",) if self.soft else ())
        line, j0 = self.show(e, cats)
        yield line, j0
        # an overflow must panic in every profile: same outcome class in both
        yield line, ("both", lambda a, b: self.profiles(e, a, b))
        if g.r.random() < .1:
            yield from self.case_C06(g, ("con", g.ratio(zero=0)))

    def profiles(self, e, dbg, rel):
        """debug panics on overflow, release must not return something else"""
        pd, md = panic_of(dbg)
        pr, mr = panic_of(rel)
        if md is not None and classify(md) == "overflow" and mr is None and rel not in ("HANG", "CRASH", "SKIPPED"):
            return "the checked build reports '%s', the release build continues with %s" % (md, rel)
        return None

    def case_C08(self, g, e):
        r = g.r
        if e is None or e[0] not in "ruhc":
            k = r.random()
            if k < .1:
                e = g.ratio(zero=.5)
            elif k < .5:
                x = g.num(r.choice((0, 0, 1)), r.choice(("t", None)))
                e = ("h", g.coefs(4, r.choice(("t", None))), x)
                try:
                    v = value(x)
                    p, q = v.numerator, v.denominator
                    t = r.randint(-3, 3)
                    if r.random() < .7 and IMIN <= min(q * t, -p * t) and max(q * t, -p * t) <= IMAX:
                        e = ("h", e[1][:2] + (q * t, -p * t), x)
                except DivZero:
                    pass
            else:
                x, y = g.num(r.choice((0, 0, 1)), r.choice(("t", None))), g.num(r.choice((0, 0, 1)), r.choice(("t", None)))
                c = g.coefs(8, r.choice(("t", "t", None)))
                try:
                    vx, vy = value(x), value(y)
                    if r.random() < .4:
                        p, q = vx.numerator, vx.denominator
                        a, b = r.randint(-2, 2), r.randint(-2, 2)
                        c = c[:4] + (q * a, q * b, -p * a, -p * b)
                    elif r.random() < .5:
                        p, q = vy.numerator, vy.denominator
                        a, b = r.randint(-2, 2), r.randint(-2, 2)
                        c = c[:4] + (q * a, -p * a, q * b, -p * b)
                    elif r.random() < .5:
                        f = c[4:7]
                        w = f[0] * vx * vy + f[1] * vx + f[2] * vy
                        m = w.denominator
                        c = c[:4] + tuple(i * m for i in f) + (-w.numerator,)
                    if not all(IMIN <= i <= IMAX for i in c):
                        return
                except DivZero:
                    pass
                e = ("c", c, x, y)
        yield self.show(e, ("undefined", "nodivision", "division"), 40)

    def case_C09(self, g, e):
        if e is not None and e[0] == "cmp":
            yield "cmp %s %s" % (text(e[1]), text(e[2])), lambda res, p: "hang" if res in ("HANG", "CRASH") else None
            return
        e = e if e is not None and e[0] in "ruhc" else self.some(g)
        line, _ = self.show(e, ())

        def j(res, profile):
            if res in ("HANG", "CRASH"):
                return "does not finish: %s" % res.lower()
            if res.endswith("+"):
                try:
                    w = shown(value(e), LIMIT)
                except DivZero:
                    return None
                if not w.endswith("+") and len(w) < 200:
                    return "the stream does not end: expected %s" % w
            return None
        yield line, j
        if g.r.random() < .2:
            yield "cmp %s %s" % (text(e), text(e)), lambda res, p: "does not finish" if res in ("HANG", "CRASH") else None
            yield "con 40 %s" % text(e), lambda res, p: "does not finish" if res in ("HANG", "CRASH") else None

    NEUTRAL = [("h", (1, 0, 0, 1), 1), ("h", (-1, 0, 0, 1), -1), ("h", (1, 0, 0, -1), -1), ("h", (-1, 0, 0, -1), 1),
               ("h", (0, 1, 1, 0), "i"), ("h", (0, -1, -1, 0), "i"), ("h", (0, -1, 1, 0), "j"), ("h", (0, 1, -1, 0), "j")]
    NEUTRAL_C = [((0, 1, 1, 0, 0, 0, 0, 1), 0), ((0, 1, -1, 0, 0, 0, 0, 1), 0), ((1, 0, 0, 0, 0, 0, 0, 1), 1), ((1, 0, 0, 0, 0, 0, 0, 1), -1),
                 ((0, 1, 0, 0, 0, 0, 1, 0), 1), ((0, 1, 0, 0, 0, 0, 1, 0), -1)]

    def case_C10(self, g, e):
        r = g.r
        x = e[2] if e is not None and e[0] in "hc" else g.ratio(zero=0) if r.random() < .7 else self.some(g)
        if e is not None and e[0] in "ru":
            x = e
        plain = never_overflows(x)
        depth = r.choice((1, 1, 1, 2, 3, 5))
        y = x
        for _ in range(depth):
            if r.random() < .6:
                y = ("h", r.choice(self.NEUTRAL)[1], y)
            else:
                c, s = r.choice(self.NEUTRAL_C)
                y = ("c", c, y, ("r", s, 1))
                if c == (0, 1, 1, 0, 0, 0, 0, 1) and r.random() < .5:
                    y = ("c", (0, 1, 1, 0, 0, 0, 0, 1), ("r", 0, 1), y[2])
                elif c == (1, 0, 0, 0, 0, 0, 0, 1) and r.random() < .5:
                    y = ("c", c, ("r", s, 1), y[2])
        try:
            value(x)
        except DivZero:
            return
        bad = ("value",) + (("panic", "overflow", "unclear", "division", "hang", "crash") if plain else ())
        try:
            value(y)
        except DivZero:
            return
        yield self.show(y, bad, 600)
        if not plain:
            yield "show 600 " + text(y), ("other", "show 600 " + text(x), self.spoiled)
        if plain and r.random() < .05:
            c = r.choice(((1, 0, 0, 1), (-1, 0, 0, 1), (0, 1, 1, 0), (0, -1, 1, 0)))
            n = 2 * r.randint(1, 60)
            try:
                v = value(x)
            except DivZero:
                return
            if v == 0 and c[0] == 0:
                return
            exp = shown(v, 600)
            yield "nest 600 %d %s %s" % (n, " ".join(map(str, c)), text(x)), lambda res, p: None if res == exp else "expected %s" % exp

    @staticmethod
    def spoiled(a, b):
        """b: the operand, a: the operand after neutral operations"""
        if panic_of(b)[1] is None and b not in ("HANG", "CRASH", "SKIPPED") and a != "SKIPPED" and (panic_of(a)[1] is not None or a in ("HANG", "CRASH")):
            return "the operand alone gives %s" % b
        return None

    def case_C12(self, g, e):
        e = e if e is not None and e[0] in "ruhckp" else self.some(g)
        try:
            v = value(e)
        except DivZero:
            return
        if not fits(v):
            return
        ref = ("r", v.numerator, v.denominator)
        r = g.r.random()
        if r < .8:
            yield "show 300 " + text(e), ("other", "show 300 " + text(ref), self.same)
        elif r < .9:
            yield "show 300 " + text(e), ("other", "show 300 k " + text(ref), self.same)
        else:
            # reading or dropping another number in between changes nothing
            o = self.some(g)
            try:
                value(o)
            except DivZero:
                return
            yield "pair 300 %d %s %s" % (g.r.randint(0, 5), text(e), text(o)), ("other", "show 300 " + text(ref), self.same)

    @staticmethod
    def same(a, b):
        if "SKIPPED" in (a, b):
            return None
        (pa, ma), (pb, mb) = panic_of(a), panic_of(b)
        if a in ("HANG", "CRASH") or b in ("HANG", "CRASH"):
            return None
        n = min(len(pa), len(pb))
        if (ma is None and mb is None and pa != pb) or pa[:n] != pb[:n] or (ma is None and len(pb) > len(pa)) or (mb is None and len(pa) > len(pb)):
            return "the same value computed differently gives %s" % b
        return None


def variants(g, e):
    """the expression itself, then neighbours of it"""
    yield e
    if e is None:
        return
    for _ in range(60):
        yield mutate(g, e)


def mutate(g, e):
    r = g.r

    def i(v):
        k = r.random()
        if k < .5:
            return v
        w = v + r.choice((1, -1, 2, -2)) if k < .7 else -v if k < .8 else v // 2 if k < .9 else r.choice((0, 1, -1, IMAX, IMIN))
        return w if IMIN <= w <= IMAX else v
    if e[0] == "r":
        return ("r", i(e[1]), i(e[2]) or 1)
    if e[0] == "u":
        return ("u", e[1], abs(i(e[2])), abs(i(e[3])) or 1)
    if e[0] in "hc" and e[0] != "cmp" and e[0] != "con":
        return (e[0], tuple(i(x) for x in e[1]) if r.random() < .5 else e[1]) + tuple(
            (mutate(g, x) if r.random() < .5 else g.ratio(zero=0)) if r.random() < .7 else x for x in e[2:])
    if e[0] in ("cmp", "con"):
        return (e[0],) + tuple(mutate(g, x) for x in e[1:])
    return e


# ------------------------------------------------------------------ running
def worker(search, w, exes, until, batch, conn):
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    die_with_parent()
    dr = {k: Driver(x) for k, x in exes.items()}
    gen = search.cases(w)
    n = 0
    found = None
    try:
        while found is None and time.time() < until:
            cs = []
            for c in gen:
                cs.append(c)
                if len(cs) >= batch:
                    break
            prof = "release" if (n // max(1, batch)) % 3 else "debug"
            found = check(dr, cs, prof, both=search.prop == "C07")
            n += len(cs)
            conn.send((n, found))
    finally:
        for d in dr.values():
            d.stop()
    os._exit(0)


def check(dr, cs, prof, both=False):
    lines = [c[0] for c in cs]
    other = [c[1][1] for c in cs if isinstance(c[1], tuple) and c[1][0] == "other"]
    res = dr[prof].run(lines + other)
    res2 = dr["debug" if prof == "release" else "release"].run(lines) if both else None
    k = len(lines)
    for n, (line, j) in enumerate(cs):
        if isinstance(j, tuple) and j[0] == "other":
            why = j[2](res[n], res[k]) if k < len(res) else None
            k += 1
            extra = j[1]
        elif isinstance(j, tuple):
            a, b = (res[n], res2[n]) if prof == "debug" else (res2[n], res[n])
            why = j[1](a, b)
            extra = None
        else:
            why = j(res[n], prof)
            extra = None
            if why is None and res2 is not None:
                why = j(res2[n], None)
                if why:
                    return {"line": line, "got": res2[n], "why": why, "profile": "debug" if prof == "release" else "release"}
        if why:
            return {"line": line, "got": res[n], "why": why, "profile": prof, "other": extra}
    return None


def run(prop, exes, seed, seconds, directed=(), soft=False, procs=None, batch=200):
    """(cases tried, failing case or None)"""
    s = Search(prop, seed, directed, soft)
    until = time.time() + seconds
    procs = procs or min(8, os.cpu_count() or 1)
    ctx = mp.get_context("fork")
    ws, tried, found = {}, {}, None
    for w in range(procs):
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=worker, args=(s, w, exes, until, batch, b))
        p.start()
        b.close()
        ws[a] = p
    live = set(ws)
    while live and found is None and time.time() < until + 60:
        for c in wait(list(live), timeout=1.0):
            try:
                tried[c], f = c.recv()
                found = found or f
            except (EOFError, OSError):
                live.discard(c)
    for c, p in ws.items():
        p.kill()
        p.join()
        c.close()
    return sum(tried.values()), found


def silent(exes, seed, directed=(), seconds=4):
    """C11: does any public operation write to the standard streams, or answer differently when repeated?
    (calls made, failing case or None)"""
    g = Gen(random.Random("C11-%s" % seed))
    s = Search("C11", seed)
    es = [v for e in directed for v in variants(g, e)]
    until = time.time() + seconds
    total = 0
    while True:
        es += [s.some(g) for _ in range(400)]
        n, found = silent_batch(exes, s, g, es)
        total += n
        if found or time.time() > until:
            return total, found
        es = []


def silent_batch(exes, s, g, es):
    lines = []
    for i, e in enumerate(es):
        if e[0] == "cmp":
            lines.append("cmp %s %s" % (text(e[1]), text(e[2])))
            continue
        if e[0] == "con":
            lines.append("con 20 " + text(e[1]))
            continue
        lines.append("show 60 " + text(e))
        if i % 4 == 0:
            lines.append("con 20 " + text(e))
            lines.append("cmp %s %s" % (text(e), text(s.some(g))))

    def out(ls, exe):
        r, w = os.pipe()
        with tempfile.TemporaryFile() as o, tempfile.TemporaryFile() as err, tempfile.TemporaryFile() as inp:
            inp.write(("\n".join(ls) + "\n").encode())
            inp.seek(0)
            p = subprocess.Popen([exe, str(w)], stdin=inp, stdout=o, stderr=err, pass_fds=(w,))
            os.close(w)
            data = b""
            end = time.time() + 60
            while select.select([r], [], [], max(0, end - time.time()))[0]:
                b = os.read(r, 1 << 20)
                if not b:
                    break
                data += b
            os.close(r)
            p.kill()
            p.wait()
            o.seek(0)
            err.seek(0)
            return o.read() + err.read(), data.decode().split("\n")[:-1]
    for prof, exe in exes.items():
        text_, res = out(lines, exe)
        if text_:
            lo = lines
            while len(lo) > 1:
                h = lo[:len(lo) // 2]
                t, _ = out(h, exe)
                lo = h if t else lo[len(lo) // 2:]
            return len(lines), {"line": lo[0], "got": repr(out(lo, exe)[0][:200]), "why": "writes to a standard stream", "profile": prof}
        # no state between calls: the reverse order gives the same answers
        back = out(lines[::-1], exe)[1][::-1]
        for l, a, b in zip(lines, res, back):
            if a != b:
                return len(lines), {"line": l, "got": a, "why": "the answer depends on earlier calls: %s" % b, "profile": prof}
    return len(lines), None
