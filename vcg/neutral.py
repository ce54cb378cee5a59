"""C10: identity, negation, reciprocal and negated reciprocal never overflow.

The coefficients of these transformations are constants, so the states an object can reach while the
operand delivers arbitrary symbols are enumerated exactly (the operand stays opaque, under its
contract).  The enumeration closes after finitely many coefficient tuples; every step of every state is
executed symbolically and must neither overflow nor panic and must keep the value.
"""
from terms import *
from mir import Unsupported
from execu import *
from spec import *
from verify import Proc
import time

FORMS = [(1, 0, 0, 1), (-1, 0, 0, -1), (-1, 0, 0, 1), (1, 0, 0, -1), (0, 1, 1, 0), (0, -1, -1, 0), (0, -1, 1, 0), (0, 1, -1, 0)]
#        coefficients, special operand, its sides
PAIRS = [((0, 1, 1, 0, 0, 0, 0, 1), "Zero", "xy"), ((0, 1, -1, 0, 0, 0, 0, 1), "Zero", "y"),
         ((1, 0, 0, 0, 0, 0, 0, 1), "PosOne", "xy"), ((1, 0, 0, 0, 0, 0, 0, 1), "NegOne", "xy"),
         ((0, 1, 0, 0, 0, 0, 1, 0), "PosOne", "y"), ((0, 1, 0, 0, 0, 0, 1, 0), "NegOne", "y")]
MAX_STATES = 400


class Neutral:
    def __init__(self, ver):
        self.v, self.sp, self.prog = ver, ver.spec, ver.prog
        self.pub = {}
        self.todo, self.seen = [], {}

    def fold(self, ex, st, v):
        d = self.sp.fold(ex, st, v)
        self.pub[d.steps] = v
        return d

    def loop(self, ex, st):
        k = ("iter",) + st.loc()
        st.cnt[k] = st.cnt.get(k, 0) + 1
        if st.cnt[k] > 64:
            raise Unsupported("loop of more than 64 iterations on constant coefficients")
        return ex.block(st)

    def mk(self, root):
        v = self.v
        cs = {k: c for k, c in v.contracts.items() if isinstance(c, (DynEgest, ClogEgest))}
        ex = Exec(self.prog, v.solver, cs, unroll=24)
        ex.fold = self.fold
        ex.root, ex.root_kind = root, "neutral"
        ex.root_measure = ex.entry_measure = None
        ex.scc = set()
        ex.loop_rule = self.loop
        ex.spec = self.sp
        return ex

    def reach(self, v, path):
        """queue a strategy object by its (constant) coefficients"""
        k, c, _ = self.sp.coefs(v)
        if not all(x.is_const() for x in c):
            raise Unsupported("coefficients depend on the operand")
        key = (v.ty, tuple(x.const() for x in c))
        if key not in self.seen:
            if len(self.seen) >= MAX_STATES:
                raise Unsupported("coefficients keep growing (%d states reached)" % MAX_STATES)
            self.seen[key] = path
            self.todo.append(key)

    def never(self, ex, o, den=None):
        """a panic or an overflow on this path is the defect; True if the path ends here"""
        st = o.state
        if o.kind == "panic":
            if o.payload == DIV0 and den is not None:
                ex.obligate(st, eq(den), "never", "'division by zero' only where the reciprocal does not exist")
            else:
                ex.obligate(st, F, "never", "no %s on the path" % ("integer overflow" if st.over else "panic"))
            return True
        return False

    def collect(self, ex, st, pay, path):
        d = self.sp.clog(ex, st, pay)
        if d.steps in self.pub:
            self.reach(self.pub[d.steps], path)
        # otherwise the operand itself was handed back: nothing more can happen to it

    def start(self, p, fn, args, st, n, d, path, expr):
        ex = self.mk(fn)
        st.ghost = {"proc": "neutral", "expr": expr}
        ex.run(fn, [(st, args)])
        for o in ex.outs:
            self.v.cover(p, o)
            if self.never(ex, o, d):
                continue
            self.sp.number_result(ex, o.state, o.payload, n, d, path)
            r = self.sp.describe(ex, o.state, o.payload)
            if r[0] == "other":
                self.collect(ex, o.state, r[2], path)
        self.take(p, ex)

    def take(self, p, ex):
        p.cases += 1
        p.paths += len(ex.outs)
        p.returns += sum(1 for o in ex.outs if o.kind == "return")
        p.obls += [o for o in ex.obls if o.kind != "wrap"]
        p.inlined |= ex.inlined
        p.builtins |= ex.builtins_used

    def step(self, p, ty, coefs, path):
        sp = self.sp
        k, ints, clogs = sp.m.kinds[ty]
        fn = self.v.impl[ty]
        ex = self.mk(fn)
        st = State()
        out = {f[0]: I(P(c)) for f, c in zip(ints, coefs)}
        for f, n, t in clogs:
            a = ("in", "self.%s" % n)
            st.store[a] = Dyn(var(a[1], "R", 0, 1), ONE, var(a[1] + ".steps", "I", 0), var(a[1] + ".rank", "I", 0, 2), True)
            out[f] = sp.wrap_clog(ex, st, t, Tup(sp.m.t_clog, (BoxV(a),)))
        v = sp.compose(ty, out)
        if wf(k, [P(c) for c in coefs]) != T:
            raise Unsupported("state %s violates the invariant" % (coefs,))
        n, d = sp.frac(ex, st, v)
        st.assume(unit_interval(n, d))
        st.ghost = {"proc": "neutral", "expr": self.v.struct_expr(v, ex, st)}
        st.store[("in", "self")] = v
        ex.run(fn, [(st, [Ptr(("in", "self"), (), None)])])
        for o in ex.outs:
            self.v.cover(p, o)
            if self.never(ex, o):
                continue
            self.v.post_impl(ex, o, k, n, d)
            tag, f = sp.const_tag(o.payload)
            if tag == "Err":
                self.collect(ex, o.state, f[0], path)
            else:
                self.reach(o.state.store[("in", "self")], path)
        self.take(p, ex)

    def run(self):
        p = Proc("closure of the neutral transformations", "neutral")
        t0 = time.time()
        v, sp = self.v, self.sp
        try:
            fn = v.root("homographic")
            for c in FORMS:
                for sh in v.SHAPES:
                    st = State()
                    ex = self.mk(fn)
                    x, (a, b) = sp.input_number(ex, st, "x", sh)
                    n, d = transform("homo", [P(i) for i in c], [(a, b)])
                    self.start(p, fn, [x] + [I(P(i)) for i in c], st, n, d, "homographic%s of %s" % (c, sh),
                               lambda ev, c=c, a=a, b=b: ("h", c, operand_of(ev, a, b)))
            fn = v.root("combine")
            for c, special, sides in PAIRS:
                for side in sides:
                    for sh in v.SHAPES:
                        st = State()
                        ex = self.mk(fn)
                        x, fx = sp.input_number(ex, st, "x", sh)
                        y, fy = sp.input_number(ex, st, "y", special)
                        ops, fr = ([x, y], [fx, fy]) if side == "y" else ([y, x], [fy, fx])
                        n, d = transform("comb", [P(i) for i in c], fr)
                        self.start(p, fn, ops + [I(P(i)) for i in c], st, n, d, "combine%s of %s with %s" % (c, sh, special),
                                   lambda ev, c=c, fr=fr: ("c", c, operand_of(ev, *fr[0]), operand_of(ev, *fr[1])))
            while self.todo:
                ty, c = self.todo.pop()
                self.step(p, ty, c, self.seen[(ty, c)])
        except (Unsupported, NeedContract) as e:
            p.error = str(e)
        p.wall = time.time() - t0
        p.states = len(self.seen)
        return p


def operand_of(ev, p, q):
    from verify import operand
    return operand(ev, p, q)
