"""Contracts: what each function must do, in terms of exact rational values (ghost state)."""
from fractions import Fraction
from terms import *
from mir import Unsupported, Program
from execu import *
from solve import prove, solve_eqs, Solver

PRIMERS = (None, "Turn", "Reflect", "Ground")
SPECIALS = {"NegOne": -1, "Zero": 0, "PosOne": 1}
DIV0 = "division by zero"
ISIZE_MAX = (1 << 63) - 1
ISIZE_MIN = -(1 << 63)


def primed(primer, p, q):
    """the number denoted by a primer and a value p/q, as a fraction"""
    if primer is None:
        return p, q
    if primer == "Turn":
        return q, p
    if primer == "Reflect":
        return -p, q
    return -q, p


unprimed = primed        # every primer is an involution on values


class Model:
    """recognition of the crate's types in the compiler's type table"""

    def __init__(self, prog):
        self.prog = prog
        n = prog.tyname
        self.t_clog = self.need("clarith::Clog")
        self.t_number = self.need("clarith::Number")
        self.t_red = self.need("clarith::protocol::Reduction")
        self.t_primer = self.need("clarith::protocol::Primer")
        self.t_special = self.need("clarith::protocol::Special")
        self.kinds = {}
        self.guessed = set()          # structs whose coefficients are told apart by their order only
        for t, x in prog.types.items():
            if x["k"] == "adt" and x["kind"] == "Struct" and x["name"].startswith("clarith::"):
                k = self.shape(t)
                if k:
                    self.kinds[t] = k

    def need(self, name):
        if name not in self.prog.tyname:
            raise Unsupported("type %s not found" % name)
        return self.prog.tyname[name]

    def is_clogish(self, t):
        if t == self.t_clog:
            return True
        x = self.prog.types[t]
        if x["k"] == "adt" and (x["is_box"] or x["name"].endswith("::Rc") or x["name"] == "std::option::Option"):
            return self.is_clogish(x["args"][0]["ty"])
        return False

    def leaves(self, t, path=(), name=""):
        """[(path, name, type)] of the integers and operands kept in a struct; None if it keeps anything else"""
        x = self.prog.types[t]
        if x["k"] == "int" or (path and self.is_clogish(t)):
            return [(path, name, t)]
        if x["k"] == "tuple":
            parts = list(enumerate(x["elems"]))
        elif x["k"] == "array" and isinstance(x["len"], int) and x["len"] <= 16:
            parts = [(i, x["elem"]) for i in range(x["len"])]
        elif x["k"] == "adt" and x["kind"] == "Struct" and x["name"].startswith("clarith::") and t != self.t_clog:
            parts = [(f["name"], f["ty"]) for f in x["variants"][0]["fields"]]
        else:
            return None
        out = []
        for i, (n, e) in enumerate(parts):
            sub = self.leaves(e, path + (i,), "%s.%s" % (name, n) if path else str(n))
            if sub is None:
                return None
            out += sub
        return out

    def shape(self, t):
        fs = self.leaves(t)
        if fs is None:
            return None
        clogs = [f for f in fs if self.is_clogish(f[2])]
        ints = [f for f in fs if not self.is_clogish(f[2])]
        sgn_ = [self.prog.types[f[2]]["signed"] for f in ints]

        def roles(default, *orders):
            nm = {f[1]: f for f in fs}
            for names in orders:
                if all(n in nm for n in names):
                    return [nm[n] for n in names]
            self.guessed.add(t)
            return default
        if not clogs and len(ints) == 2 and not any(sgn_):
            return ("ratio", roles(ints, ("num", "den")), [])
        if len(clogs) == 1 and len(ints) == 4 and all(sgn_):
            return ("homo", roles(ints, ("nx", "n", "dx", "d")), clogs)
        if len(clogs) == 2 and len(ints) == 8 and all(sgn_):
            return ("comb", roles(ints, "abcdefgh", ("nxy", "nx", "ny", "n", "dxy", "dx", "dy", "d")), roles(clogs, ("x", "y")))
        return None


def at(v, path):
    for i in path:
        v = v.fields[i]
    return v


RANK = {"ratio": 0, "homo": 1, "comb": 2}


class Spec:
    def __init__(self, prog):
        self.prog = prog
        self.m = Model(prog)

    # ---------------------------------------------------------- reading ghost values
    def clog(self, ex, st, v):
        """(p, q, steps, dyn) of a clog-like value"""
        while True:
            if isinstance(v, (BoxV, RcV)):
                v = st.store[v.alloc]
            elif isinstance(v, Ptr):
                v = ex.read(st, v.alloc, v.path)
            elif isinstance(v, Tup) and v.ty == self.m.t_clog:
                v = v.fields[0]
            elif isinstance(v, En) and v.tag == ONE and self.m.is_clogish(v.ty):
                v = v.alts[1][0]
            else:
                break
        if not isinstance(v, Dyn):
            raise Unsupported("not a clog: %r" % (type(v).__name__,))
        return v

    def coefs(self, v):
        k, ints, clogs = self.m.kinds[v.ty]
        return k, [at(v, f[0]).p for f in ints], [at(v, f[0]) for f in clogs]

    def compose(self, ty, val, path=()):
        """a struct with val[path] at its leaves"""
        if path in val:
            return val[path]
        x = self.prog.types[ty]
        es = x["elems"] if x["k"] == "tuple" else [x["elem"]] * x["len"] if x["k"] == "array" else [f["ty"] for f in x["variants"][0]["fields"]]
        return Tup(ty, tuple(self.compose(e, val, path + (i,)) for i, e in enumerate(es)))

    def clogs_of(self, ex, st, v):
        return [self.clog(ex, st, c) for c in self.coefs(v)[2]]

    def frac(self, ex, st, v):
        """(numerator, denominator) of the value denoted by a strategy struct"""
        k, c, cl = self.coefs(v)
        if k == "ratio":
            return c[0], c[1]
        ds = [self.clog(ex, st, x) for x in cl]
        return transform(k, c, [(d.p, d.q) for d in ds])

    def wf(self, v):
        k, c, _ = self.coefs(v)
        return wf(k, c)

    def rc_ok(self, ex, st, v):
        """shared operands are uniquely owned"""
        k, c, cl = self.coefs(v)
        ok = True
        seen = set()
        for x in cl:
            if isinstance(x, RcV):
                ok = ok and st.store.get(("rc", x.alloc)) == 1 and x.alloc not in seen
                seen.add(x.alloc)
        return ok

    def fold(self, ex, st, v):
        """Box<T> -> Box<dyn Strategy>: T must satisfy its invariant, then only its value is kept"""
        if not isinstance(v, Tup) or v.ty not in self.m.kinds:
            raise Unsupported("unknown strategy object")
        k = self.m.kinds[v.ty][0]
        g = self.wf(v)
        ex.obligate(st, g if self.rc_ok(ex, st, v) else F, "inv", "%s object satisfies its invariant when published" % k)
        p, q = self.frac(ex, st, v)
        st.assume(unit_interval(p, q))           # lemma wf => 0 < value < 1 (proved separately)
        return Dyn(p, q, fresh("steps", "I", 0), P(RANK[k]), True)

    # ---------------------------------------------------------- fresh objects
    def fresh_clog(self, ex, st, name):
        a = ex.alloc(st, name, None)
        v = fresh(name, "R", 0, 1)
        st.store[a] = Dyn(v, ONE, fresh("steps", "I", 0), fresh("rank", "I", 0, 2), True)
        return Tup(self.m.t_clog, (BoxV(a),))

    def fresh_struct(self, ex, st, ty, name, raw=False):
        k, ints, clogs = self.m.kinds[ty]
        out = {}
        for f, n, t in ints:
            lo, hi = int_range(self.prog.types[t])
            out[f] = I(fresh("%s.%s" % (name, n), "I", lo, hi))
        for f, n, t in clogs:
            out[f] = self.wrap_clog(ex, st, t, self.fresh_clog(ex, st, "%s.%s" % (name, n)))
        v = self.compose(ty, out)
        if not raw:
            st.assume(self.wf(v))
        return v

    def wrap_clog(self, ex, st, ty, c):
        x = self.prog.types[ty]
        if ty == self.m.t_clog:
            return c
        inner = self.wrap_clog(ex, st, x["args"][0]["ty"], c)
        if x["is_box"]:
            return BoxV(ex.alloc(st, "box", inner))
        if x["kind"] == "Enum":
            return ex.mk_enum(ty, 1, (inner,))
        a = ex.alloc(st, "rc", inner)
        st.store[("rc", a)] = 1
        return RcV(a)

    def input_struct(self, ex, st, ty, name, case):
        """entry value satisfying the invariant; case splits on the sign of the denominators"""
        k, ints, clogs = self.m.kinds[ty]
        out = {}
        if k == "comb":
            # same values, parametrised by the corner values (a unimodular change of variables)
            for half in (0, 4):
                c = [var("%s.%s" % (name, "nd"[half // 4] + z), "I") for z in ("00", "01", "10", "11")]
                for (f, _, t), p in zip(ints[half:half + 4], (c[3] - c[2] - c[1] + c[0], c[2] - c[0], c[1] - c[0], c[0])):
                    lo, hi = int_range(self.prog.types[t])
                    out[f] = I(p)
                    st.assume(ge(p, lo)).assume(le(p, hi))
        else:
            for f, n, t in ints:
                lo, hi = int_range(self.prog.types[t])
                out[f] = I(var("%s.%s" % (name, n), "I", lo, hi))
        for f, n, t in clogs:
            a = ("in", "%s.%s" % (name, n))
            st.store[a] = Dyn(var(a[1], "R", 0, 1), ONE, var(a[1] + ".steps", "I", 0), var(a[1] + ".rank", "I", 0, 2), True)
            out[f] = self.wrap_clog(ex, st, t, Tup(self.m.t_clog, (BoxV(a),)))
        v = self.compose(ty, out)
        if case is not None:
            st.assume(wf_case(k, self.coefs(v)[1], case))
            p, q = self.frac(ex, st, v)
            st.assume(unit_interval_case(p, q, case))       # lemma
        return v

    def input_number(self, ex, st, name, shape):
        """shape: special name or ('Other', primer)"""
        m = self.m
        T_ = self.prog.types[m.t_number]
        vs = [v["name"] for v in T_["variants"]]
        if shape in SPECIALS:
            s = ex.mk_enum(m.t_special, ex.variant(m.t_special, shape))
            return ex.mk_enum(m.t_number, vs.index("Special"), (s,)), (P(SPECIALS[shape]), ONE)
        oty, cty = [f["ty"] for f in T_["variants"][vs.index("Other")]["fields"]]
        a = ("in", name)
        x = var(name, "R", 0, 1)
        st.store[a] = Dyn(x, ONE, var(name + ".steps", "I", 0), var(name + ".rank", "I", 0, 2), True)
        c = Tup(m.t_clog, (BoxV(a),))
        pr = self.primer_value(ex, oty, shape[1])
        return ex.mk_enum(m.t_number, vs.index("Other"), (pr, c)), primed(shape[1], x, ONE)

    def primer_value(self, ex, oty, primer):
        if primer is None:
            return ex.mk_enum(oty, ex.variant(oty, "None"))
        return ex.mk_enum(oty, ex.variant(oty, "Some"), (ex.mk_enum(self.m.t_primer, ex.variant(self.m.t_primer, primer)),))

    # ---------------------------------------------------------- reading results
    def const_tag(self, v):
        if not isinstance(v, En) or not v.tag.is_const():
            raise Unsupported("symbolic result tag")
        return self.prog.types[v.ty]["variants"][v.tag.const()]["name"], v.alts[v.tag.const()]

    def primer_of(self, v):
        n, f = self.const_tag(v)
        return None if n == "None" else self.const_tag(f[0])[0]

    def describe(self, ex, st, v):
        """('special', s) or ('other', primer, payload value) for a Number or a tuple of options"""
        if isinstance(v, En) and v.ty == self.m.t_number:
            n, f = self.const_tag(v)
            if n == "Special":
                return "special", self.const_tag(f[0])[0]
            return "other", self.primer_of(f[0]), f[1]
        if isinstance(v, Tup) and isinstance(v.ty, int) and self.tuple_shape(v.ty):
            sp, pr, structs = self.tuple_shape(v.ty)
            n, f = self.const_tag(v.fields[sp])
            if n == "Some":
                return "special", self.const_tag(f[0])[0]
            primer = self.primer_of(v.fields[pr])
            for i in structs:
                n, f = self.const_tag(v.fields[i])
                if n == "Some":
                    return "other", primer, f[0]
            return "nothing",
        raise Unsupported("result shape")

    def tuple_shape(self, ty):
        """(special index, primer index, [struct indexes]) of a tuple of options"""
        t = self.prog.types[ty]
        if t["k"] != "tuple":
            return None
        sp = pr = None
        structs = []
        for i, e in enumerate(t["elems"]):
            x = self.prog.types[e]
            if x["k"] != "adt" or x["name"] != "std::option::Option":
                return None
            a = x["args"][0]["ty"]
            if a == self.m.t_special:
                sp = i
            elif a == self.m.t_primer:
                pr = i
            elif a in self.m.kinds:
                structs.append(i)
            else:
                return None
        if sp is None or pr is None or not structs:
            return None
        return sp, pr, structs

    def describes_number(self, ty):
        return ty == self.m.t_number or self.tuple_shape(ty) is not None

    def number_cases(self, ex, st, ty, n, d):
        """every result a function specified to return the number n/d may give: [(state, value)]"""
        out = []
        st = st.copy()
        self.note(st, (n, d), (n, d))       # keeps the continuations of different calls apart
        m = self.m
        for s, k in SPECIALS.items():
            t = st.copy()
            t.assume(eq(n, k * d)).assume(ne(d))
            if not ex.feasible(t):
                continue
            sv = ex.mk_enum(m.t_special, ex.variant(m.t_special, s))
            out.append((t, self.build(ex, ty, sv, None, None, None)))
        for primer in PRIMERS:
            p, q = unprimed(primer, n, d)
            t0 = st.copy().assume(unit_interval(p, q))
            if not ex.feasible(t0):
                continue
            if ty == m.t_number:
                t = t0.copy()
                a = ex.alloc(t, "res", None)
                t.store[a] = Dyn(p, q, fresh("steps", "I", 0), fresh("rank", "I", 0, 2), True)
                out.append((t, self.build(ex, ty, None, primer, None, Tup(m.t_clog, (BoxV(a),)))))
                continue
            for i in self.tuple_shape(ty)[2]:
                t = t0.copy()
                oty = self.prog.types[ty]["elems"][i]
                sty = self.prog.types[oty]["args"][0]["ty"]
                s = self.fresh_struct(ex, t, sty, "res")
                self.note(t, self.frac(ex, t, s), (p, q))
                out.append((t, self.build(ex, ty, None, primer, i, s)))
        return out

    def build(self, ex, ty, special, primer, idx, payload):
        m = self.m
        T_ = self.prog.types[ty]
        if ty == m.t_number:
            vs = [v["name"] for v in T_["variants"]]
            if special is not None:
                return ex.mk_enum(ty, vs.index("Special"), (special,))
            oty = T_["variants"][vs.index("Other")]["fields"][0]["ty"]
            return ex.mk_enum(ty, vs.index("Other"), (self.primer_value(ex, oty, primer), payload))
        sp, pr, structs = self.tuple_shape(ty)
        fs = []
        for i, e in enumerate(T_["elems"]):
            if i == sp:
                fs.append(ex.mk_enum(e, ex.variant(e, "Some"), (special,)) if special is not None else ex.mk_enum(e, ex.variant(e, "None")))
            elif i == pr:
                fs.append(self.primer_value(ex, e, primer))
            else:
                fs.append(ex.mk_enum(e, ex.variant(e, "Some"), (payload,)) if i == idx else ex.mk_enum(e, ex.variant(e, "None")))
        return Tup(ty, tuple(fs))

    def note(self, st, a, b):
        """ghost fact: fractions a and b are equal (and their denominators vanish together)"""
        st.notes = st.notes + ((a[0], a[1], b[0], b[1]),)

    # ---------------------------------------------------------- obligations on results
    def value_obl(self, ex, st, a, b, desc, extra=T):
        """fraction a equals fraction b"""
        ex.obls.append(Obl(st.pc, ("frac", a, b, st.notes, extra), ex.kind(st, "value"), desc, ex.where(st), {"ghost": st.ghost, "bounded": st.bounded}))

    def number_result(self, ex, st, v, n, d, what):
        """v describes the number n/d"""
        r = self.describe(ex, st, v)
        if r[0] == "nothing":
            ex.obligate(st, F, "value", "%s: result denotes a number" % what)
            return
        if r[0] == "special":
            s = SPECIALS[r[1]]
            ex.obligate(st, eq(n, s * d), "value", "%s: result %s is exact" % (what, r[1]))
            ex.obligate(st, ne(d), "divzero", "%s: no result when the denominator vanishes" % what)
            return
        _, primer, pay = r
        if isinstance(pay, Tup) and pay.ty in self.m.kinds:
            g = self.wf(pay) if self.rc_ok(ex, st, pay) else F
            ex.obligate(st, g, "inv", "%s: returned object satisfies its invariant" % what)
            p, q = self.frac(ex, st, pay)
            st.assume(unit_interval(p, q))
        else:
            dy = self.clog(ex, st, pay)
            ex.obligate(st, T if dy.alive else F, "inv", "%s: returned object is alive" % what)
            p, q = dy.p, dy.q
        self.value_obl(ex, st, primed(primer, p, q), (n, d), "%s: result with primer %s is exact" % (what, primer))


# ------------------------------------------------------------------ values and invariants
def transform(k, c, ops):
    if k == "homo":
        (p, q), = ops
        nx, n, dx, d = c
        return nx * p + n * q, dx * p + d * q
    (p, q), (r, s) = ops
    a, b, c_, d, e, f, g, h = c
    return (a * p * r + b * p * s + c_ * q * r + d * q * s,
            e * p * r + f * p * s + g * q * r + h * q * s)


def corners(k, c):
    if k == "ratio":
        return [(c[0], c[1])]
    if k == "homo":
        nx, n, dx, d = c
        return [(n, d), (n + nx, d + dx)]
    a, b, c_, d, e, f, g, h = c
    return [(d, h), (c_ + d, g + h), (b + d, f + h), (a + b + c_ + d, e + f + g + h)]


def wf_case(k, c, case):
    """invariant with positive (case +1) or negative (case -1) denominators"""
    cs = [(n * case, d * case) for n, d in corners(k, c)]
    fs = [gt(d) for _, d in cs]
    if k == "homo":
        for n, d in cs:
            fs += [ge(n), le(n, d)]
        fs.append(or_(*[gt(n) for n, _ in cs]))
        fs.append(or_(*[lt(n, d) for n, d in cs]))
    else:
        for n, d in cs:
            fs += [gt(n), lt(n, d)]
    return and_(*fs)


def wf(k, c):
    if k == "ratio":
        return wf_case(k, c, 1)
    return or_(wf_case(k, c, 1), wf_case(k, c, -1))


def unit_interval_case(p, q, case):
    return and_(gt(q * case), gt(p * case), lt(p * case, q * case))


def unit_interval(p, q):
    return or_(unit_interval_case(p, q, 1), unit_interval_case(p, q, -1))


# ------------------------------------------------------------------ contracts used at call sites
class DynEgest:
    """the contract of `Strategy::egest`, used for calls through `dyn Strategy`"""

    def __init__(self, spec):
        self.spec = spec

    def apply(self, ex, st, args, rty):
        sp = self.spec
        a = args[0]
        d = ex.read(st, a.alloc, a.path)
        if not isinstance(d, Dyn):
            raise Unsupported("dynamic call on %r" % type(d).__name__)
        if not d.alive:
            ex.obligate(st, F, "inv", "a replaced strategy object is not used again")
            return []
        out = []
        for t, red, new in egest_cases(ex, st, d):
            ex.write(t, a.alloc, a.path, new)
            out.append((t, mk_egest_result(sp, ex, rty, red)))
        t = st.copy()
        rk = fresh("rank", "I", 0, 2)
        t.assume(lt(rk, d.rank))
        if ex.feasible(t):
            al = ex.alloc(t, "dyn", Dyn(d.p, d.q, d.steps, rk, True))
            ex.write(t, a.alloc, a.path, d._replace(alive=False))
            out.append((t, ex.mk_enum(rty, ex.variant(rty, "Err"), (BoxV(al),))))
        return out


def egest_cases(ex, st, d):
    """(state, reduction, new Dyn) of one symbol extraction from value p/q"""
    out = []
    t = st.copy().assume(eq(2 * d.p, d.q)).assume(eq(d.steps))
    if ex.feasible(t):
        out.append((t, None, d))
    t = st.copy().assume(lt(2 * d.p, d.q)).assume(gt(d.steps))
    if ex.feasible(t):
        out.append((t, "Amplify", d._replace(p=2 * d.p, steps=d.steps - 1)))
    t = st.copy().assume(gt(2 * d.p, d.q)).assume(gt(d.steps))
    if ex.feasible(t):
        out.append((t, "Uncover", d._replace(p=d.q - d.p, q=d.p, steps=d.steps - 1)))
    return out


def mk_red(sp, ex, oty, red):
    if red is None:
        return ex.mk_enum(oty, ex.variant(oty, "None"))
    r = sp.m.t_red
    return ex.mk_enum(oty, ex.variant(oty, "Some"), (ex.mk_enum(r, ex.variant(r, red)),))


def mk_egest_result(sp, ex, rty, red):
    k = ex.variant(rty, "Ok")
    oty = ex.ty(rty)["variants"][k]["fields"][0]["ty"]
    return ex.mk_enum(rty, k, (mk_red(sp, ex, oty, red),))


class ClogEgest:
    """contract of Clog::egest"""

    def __init__(self, spec, measure=None):
        self.spec = spec

    def apply(self, ex, st, args, rty):
        sp = self.spec
        c = ex.read(st, args[0].alloc, args[0].path)
        b = c.fields[0]
        d = st.store[b.alloc]
        if not isinstance(d, Dyn):
            raise Unsupported("clog content")
        if not d.alive:
            ex.obligate(st, F, "inv", "a replaced strategy object is not used again")
            return []
        if ex.root_measure is not None and ex.root_kind == "clog":
            ex.obligate(st, lt(ex.root_measure(d), ex.entry_measure), "term", "the recursive call works on a simpler object")
        out = []
        for t, red, new in egest_cases(ex, st, d):
            t.store[b.alloc] = new._replace(rank=fresh("rank", "I", 0, 2))
            out.append((t, mk_red(sp, ex, rty, red)))
        return out


class ImplEgest:
    """contract of a concrete `Strategy::egest`, used at (recursive) direct calls"""

    def __init__(self, spec, ty):
        self.spec, self.ty = spec, ty

    def apply(self, ex, st, args, rty):
        sp = self.spec
        a = args[0]
        v = ex.read(st, a.alloc, a.path)
        ex.obligate(st, sp.wf(v) if sp.rc_ok(ex, st, v) else F, "inv", "object satisfies its invariant at the call of egest")
        n, d = sp.frac(ex, st, v)
        if ex.root_kind == "impl" and ex.entry_measure is not None:
            ex.obligate(st, lt(sum_steps(sp, ex, st, v), ex.entry_measure), "term", "the recursive call has consumed an input symbol")
        out = []
        for red, f in ((None, (n, d)), ("Amplify", (2 * n, d)), ("Uncover", (d - n, n))):
            t = st.copy()
            if red is None:
                t.assume(eq(2 * n, d))
            elif red == "Amplify":
                t.assume(or_(and_(lt(2 * n, d), gt(d)), and_(gt(2 * n, d), lt(d))))
            else:
                t.assume(or_(and_(gt(2 * n, d), gt(d)), and_(lt(2 * n, d), lt(d))))
            s = sp.fresh_struct(ex, t, v.ty, "rec")
            sp.note(t, sp.frac(ex, t, s), f)
            if ex.feasible(t):
                ex.write(t, a.alloc, a.path, s)
                out.append((t, mk_egest_result(sp, ex, rty, red)))
        t = st.copy()
        al = ex.alloc(t, "dyn", Dyn(n, d, fresh("steps", "I", 0), fresh("rank", "I", 0, 2), True))
        t.assume(lt(t.store[al].rank, P(RANK[sp.m.kinds[v.ty][0]])))
        t.assume(unit_interval(n, d))
        if ex.feasible(t):
            ex.write(t, a.alloc, a.path, U)
            out.append((t, ex.mk_enum(rty, ex.variant(rty, "Err"), (BoxV(al),))))
        return out


def sum_steps(sp, ex, st, v):
    return sum((d.steps for d in sp.clogs_of(ex, st, v)), ZERO)


class NumberFn:
    """a (recursive) function of one strategy struct that returns the number it denotes"""

    def __init__(self, spec, ty, byref):
        self.spec, self.ty, self.byref = spec, ty, byref

    def raw(self, ex, st, arg):
        return ex.read(st, arg.alloc, arg.path) if self.byref else arg

    def pre(self, c, k):
        if k == "homo":
            return or_(ne(c[2]), ne(c[3]))
        return T

    def apply(self, ex, st, args, rty):
        sp = self.spec
        v = self.raw(ex, st, args[0])
        k, c, _ = sp.coefs(v)
        ex.obligate(st, self.pre(c, k) if sp.rc_ok(ex, st, v) else F, "inv", "the denominator is not identically zero at the call")
        if ex.root_kind == "number" and ex.entry_measure is not None and RANK[k] >= RANK[ex.entry_rank]:
            ex.obligate(st, lt(sum_steps(sp, ex, st, v), ex.entry_measure) if k == ex.entry_rank else F, "term", "the recursive call has consumed an input symbol")
        n, d = sp.frac(ex, st, v)
        return sp.number_cases(ex, st, rty, n, d)
