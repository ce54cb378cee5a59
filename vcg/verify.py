"""Verification of each procedure against its contract: entry assumptions, execution, exit goals."""
import re
import time
from terms import *
from mir import Unsupported
from execu import *
from spec import *
import solve


class Proc:
    """result of one symbolic execution campaign"""

    def __init__(self, name, what):
        self.name, self.what = name, what
        self.obls = []
        self.cases = 0
        self.paths = 0
        self.returns = 0
        self.inlined = set()
        self.builtins = set()
        self.error = None
        self.wall = 0.0
        self.bounded = False
        self.prints = []
        self.covers = {}           # kind of result -> path conditions that reach it (vacuity guard)
        self.loops = []


class Verifier:
    def __init__(self, prog):
        self.prog = prog
        self.spec = Spec(prog)
        self.solver = Solver()
        self.contracts = {}
        self.derived = {}          # fn -> NumberFn (contracts derived for recursive functions)
        self.scc = set()
        self.base_contracts()
        import loops
        self.loops = loops

    # ------------------------------------------------------------ contract table
    def base_contracts(self):
        sp = self.spec
        self.impl = {}
        for k, f in self.prog.funcs.items():
            n = f["name"]
            if f["kind"] == "virtual" and n.endswith("Strategy>::egest"):
                self.contracts[k] = DynEgest(sp)
            elif n == "clarith::Clog::egest":
                self.contracts[k] = ClogEgest(sp)
                self.clog_egest = k
            elif f["local"] and n.endswith(" as clarith::strategy::Strategy>::egest") and f["body"]:
                t = self.prog.types[f["body"]["locals"][1]["ty"]]["elem"]
                if t in sp.m.kinds:
                    self.contracts[k] = ImplEgest(sp, t)
                    self.impl[t] = k

    def derive(self, fn):
        """contract of a recursive function from its type: it must return the number its argument denotes"""
        b = self.prog.funcs[fn]["body"]
        rty = b["locals"][0]["ty"]
        args = [b["locals"][i + 1]["ty"] for i in range(b["arg_count"])]
        if len(args) == 1 and self.spec.describes_number(rty):
            t, byref = args[0], False
            if self.prog.types[t]["k"] == "ref":
                t, byref = self.prog.types[t]["elem"], True
            if t in self.spec.m.kinds:
                return NumberFn(self.spec, t, byref)
        raise Unsupported("recursive function %s has no contract" % self.prog.funcs[fn]["name"])

    def unshared(self, ty, seen=()):
        """no Rc inside values of this type"""
        t = self.prog.types[ty]
        if ty in seen or t["k"] in ("int", "bool", "ref", "ptr", "dyn"):
            return True
        if t["k"] == "tuple":
            return all(self.unshared(e, seen + (ty,)) for e in t["elems"])
        if t["k"] == "adt":
            if t["is_box"]:
                return self.unshared(t["args"][0]["ty"], seen + (ty,))
            if t["name"].endswith(("::Rc", "::Arc")):
                return False
            return all(self.unshared(f["ty"], seen + (ty,)) for v in t["variants"] for f in v["fields"])
        return False

    def callees(self, fn):
        """functions called directly from a body"""
        b = self.prog.funcs[fn]["body"]
        out = []
        for blk in b["blocks"] if b else ():
            k = blk["terminator"]["kind"]
            if isinstance(k, dict) and "Call" in k:
                f = k["Call"]["func"]
                t = f.get("Constant", {}).get("const_", {}).get("ty") if isinstance(f, dict) else None
                inst = self.prog.types[t].get("inst") if t is not None else None
                if inst is not None:
                    out.append(inst)
        return out

    def derive_all(self):
        """contracts of the recursive functions reachable from the public constructors"""
        def dfs(fn, stack, done):
            if fn in done or fn in self.contracts or not self.prog.funcs[fn]["local"]:
                return
            stack.append(fn)
            for c in self.callees(fn):
                if c in stack and c not in self.contracts:
                    try:
                        self.contracts[c] = self.derived[c] = self.derive(c)
                    except Unsupported:
                        pass
                else:
                    dfs(c, stack, done)
            stack.pop()
            done.add(fn)
        for short in ("homographic", "combine", "ratio", "ratio_u", "compare", "consume"):
            fn = self.prog.find("clarith::Number::" + short)
            if fn is not None:
                dfs(fn, [], set())

    def published(self):
        """strategy types that are ever turned into a `dyn Strategy`"""
        out = set()
        for fn, f in self.prog.funcs.items():
            if not f["local"] or not f["body"]:
                continue
            for blk in f["body"]["blocks"]:
                for s in blk["statements"]:
                    k = s["kind"]
                    if isinstance(k, dict) and "Assign" in k and "Cast" in k["Assign"][1]:
                        kind, o, ty = k["Assign"][1]["Cast"]
                        if isinstance(kind, dict) and kind.get("PointerCoercion") == "Unsize":
                            v = next(iter(o.values()))
                            src = f["body"]["locals"][v["local"]]["ty"] if "local" in v and not v["projection"] else None
                            t = self.prog.types[src] if src is not None else None
                            if t and t["k"] == "adt" and t["is_box"]:
                                out.add(t["args"][0]["ty"])
        return {t for t in out if t in self.spec.m.kinds}

    def mk(self, root, kind):
        ex = Exec(self.prog, self.solver, self.contracts)
        ex.fold = lambda e, st, v: self.spec.fold(e, st, v)
        ex.root = root
        ex.root_kind = kind
        ex.root_measure = None
        ex.entry_measure = None
        ex.scc = set(self.derived)
        ex.loop_rule = self.loops.rule(self)
        ex.spec = self.spec
        return ex

    def guarded(self, name, what, gen):
        """run a generator of (exec, states, post) with contract discovery"""
        t0 = time.time()
        while True:
            p = Proc(name, what)
            try:
                for ex, fn, st, args, post in gen():
                    p.cases += 1
                    ex.run(fn, [(st, args)])
                    for o in ex.outs:
                        self.cover(p, o)
                        post(ex, o)
                    p.returns += sum(1 for o in ex.outs if o.kind == "return")
                    p.paths += len(ex.outs)
                    p.obls += [o._replace(info=dict(o.info, hints=ex.hints)) for o in ex.obls] if ex.hints else ex.obls
                    p.inlined |= ex.inlined
                    p.builtins |= ex.builtins_used
                    p.prints += ex.prints
                    p.loops += getattr(ex, "loops_done", [])
                break
            except NeedContract as e:
                if e.fn in self.contracts:
                    raise Unsupported("recursion through %s" % self.prog.funcs[e.fn]["name"])
                try:
                    c = self.derive(e.fn)
                except Unsupported as u:
                    if self.prog.unrecurse(e.fn, self.unshared):
                        continue
                    p.error = str(u)
                    break
                self.contracts[e.fn] = c
                self.derived[e.fn] = c
            except Unsupported as e:
                p.error = str(e)
                break
        p.wall = time.time() - t0
        p.bounded = any(o.info.get("bounded") for o in p.obls)
        return p

    def cover(self, p, o):
        label = "panic" if o.kind == "panic" else self.label(o.payload)
        l = p.covers.setdefault(label, [])
        if len(l) < 12:
            l.append(o.state.pc)

    def label(self, v):
        """constructor names of a result, outermost first"""
        if isinstance(v, En):
            if not v.tag.is_const():
                return "value"
            t = self.prog.types[v.ty]["variants"][v.tag.const()]
            sub = [self.label(f) for f in v.alts[v.tag.const()] or () if isinstance(f, En)]
            return "/".join([t["name"]] + sub)
        if isinstance(v, Tup):
            return "(%s)" % ",".join(self.label(f) for f in v.fields if isinstance(f, En))
        return "value"

    def panic_post(self, ex, o, den=None, limits=False):
        """limits: running out of machine integers is an excuse"""
        st, msg = o.state, o.payload
        if msg == DIV0:
            if den is None:
                ex.obligate(st, F, "panic", "no division-by-zero panic here")
            else:
                ex.obligate(st, eq(den), "divzero", "'division by zero' is reported only when the denominator vanishes")
        elif not (st.over and limits):
            ex.obligate(st, F, "overflow" if st.over else "panic", "panic (%s) is unreachable" % (msg or "?"))

    def struct_expr(self, v, ex, st):
        """the public call that starts from this internal state (for replaying solver models)"""
        k, c, _ = self.spec.coefs(v)
        ds = [] if k == "ratio" else [(d.p, d.q) for d in self.spec.clogs_of(ex, st, v)]
        if k == "ratio":
            return lambda ev: ("u", 1, ev(c[0]), ev(c[1]))
        return lambda ev: ({"homo": "h", "comb": "c"}[k], tuple(ev(x) for x in c)) + tuple(operand(ev, *d) for d in ds)

    # ------------------------------------------------------------ procedures
    def v_impl(self, ty):
        sp = self.spec
        k = sp.m.kinds[ty][0]
        fn = self.impl[ty]
        name = self.prog.funcs[fn]["name"]

        def gen():
            for case in ((1,) if k == "ratio" else (1, -1)):
                ex = self.mk(fn, "impl")
                st = State()
                v = sp.input_struct(ex, st, ty, "self", case)
                st.store[("in", "self")] = v
                n, d = sp.frac(ex, st, v)
                st.ghost = {"proc": "impl", "kind": k, "expr": self.struct_expr(v, ex, st)}
                if k != "ratio":
                    ex.entry_measure = sum_steps(sp, ex, st, v)
                if k == "comb":
                    ex.hints = frac_order_hints(corners(k, sp.coefs(v)[1]), case)
                yield ex, fn, st, [Ptr(("in", "self"), (), None)], (lambda e, o, n=n, d=d: self.post_impl(e, o, k, n, d))
        return self.guarded(name, "impl-" + k, gen)

    def post_impl(self, ex, o, k, n, d):
        sp = self.spec
        st = o.state
        if o.kind == "panic":
            return self.panic_post(ex, o, limits=k != "ratio")
        tag, f = sp.const_tag(o.payload)
        if tag == "Err":
            dy = st.store[f[0].alloc]
            ex.obligate(st, T if dy.alive else F, "inv", "replacement object is alive")
            ex.obligate(st, lt(dy.rank, RANK[k]), "term", "replacement object is of a simpler kind")
            sp.value_obl(ex, st, (dy.p, dy.q), (n, d), "the replacement object has the same value")
            return
        tag, g = sp.const_tag(f[0])
        v = st.store[("in", "self")]
        red = None if tag == "None" else sp.const_tag(g[0])[0]
        ex.obligate(st, sp.wf(v) if sp.rc_ok(ex, st, v) else F, "inv", "the object satisfies its invariant after egesting %s" % red)
        fin = sp.frac(ex, st, v)
        st.assume(unit_interval(*fin))
        if red is None:
            sp.value_obl(ex, st, (n, d), (ONE, P(2)), "no symbol: the value is one half")
            sp.value_obl(ex, st, fin, (n, d), "no symbol: the value is unchanged")
        elif red == "Amplify":
            sp.value_obl(ex, st, fin, (2 * n, d), "Amplify: the value was doubled")
        else:
            sp.value_obl(ex, st, fin, (d - n, n), "Uncover: the value became 1/v - 1")

    def v_clog(self):
        sp = self.spec
        fn = self.clog_egest

        def gen():
            ex = self.mk(fn, "clog")
            st = State()
            v = var("self", "R", 0, 1)
            a = ("in", "self")
            d0 = Dyn(v, ONE, var("self.steps", "I", 0), var("self.rank", "I", 0, 2), True)
            st.store[a] = d0
            st.store[("in", "clog")] = Tup(sp.m.t_clog, (BoxV(a),))
            st.ghost = {"proc": "clog"}
            ex.root_measure = lambda d: d.rank
            ex.entry_measure = d0.rank
            yield ex, fn, st, [Ptr(("in", "clog"), (), None)], (lambda e, o: self.post_clog(e, o, d0))
        return self.guarded(self.prog.funcs[fn]["name"], "clog", gen)

    def post_clog(self, ex, o, d0):
        sp = self.spec
        st = o.state
        if o.kind == "panic":
            return self.panic_post(ex, o)
        red = None
        tag, g = sp.const_tag(o.payload)
        if tag == "Some":
            red = sp.const_tag(g[0])[0]
        dy = sp.clog(ex, st, st.store[("in", "clog")])
        ex.obligate(st, T if dy.alive else F, "inv", "the stored strategy object is alive")
        n, d = d0.p, d0.q
        if red is None:
            ex.obligate(st, eq(2 * n, d), "value", "no symbol: the value is one half")
            sp.value_obl(ex, st, (dy.p, dy.q), (n, d), "no symbol: the value is unchanged")
            ex.obligate(st, eq(dy.steps), "term", "no symbol: the stream has ended")
        else:
            ex.obligate(st, lt(2 * n, d) if red == "Amplify" else gt(2 * n, d), "value", "%s: symbol is right" % red)
            sp.value_obl(ex, st, (dy.p, dy.q), (2 * n, d) if red == "Amplify" else (d - n, n), "%s: remaining value is right" % red)
            ex.obligate(st, eq(dy.steps, d0.steps - 1), "term", "the symbol was taken off the stream")

    def v_number_fn(self, fn):
        sp = self.spec
        c = self.contracts[fn]
        k = sp.m.kinds[c.ty][0]

        def gen():
            for case in ((0,) if k == "ratio" else (1, 0, -1)):
                ex = self.mk(fn, "number")
                st = State()
                v = sp.input_struct(ex, st, c.ty, "self", None)
                st.assume(c.pre(sp.coefs(v)[1], k))
                n, d = sp.frac(ex, st, v)
                d0 = corners(k, sp.coefs(v)[1])[0][1]
                if k != "ratio":
                    st.assume(gt(d0 * case) if case else eq(d0))
                if k == "comb":
                    ex.hints = frac_order_hints(corners(k, sp.coefs(v)[1]), case or 1)
                st.ghost = {"proc": "number", "kind": k, "expr": self.struct_expr(v, ex, st)}
                ex.entry_measure = sum_steps(sp, ex, st, v)
                ex.entry_rank = k
                arg = v
                if c.byref:
                    st.store[("in", "self")] = v
                    arg = Ptr(("in", "self"), (), None)
                yield ex, fn, st, [arg], (lambda e, o, n=n, d=d: self.post_number(e, o, n, d, "normal form"))
        return self.guarded(self.prog.funcs[fn]["name"], "number-" + k, gen)

    def post_number(self, ex, o, n, d, what):
        if o.kind == "panic":
            return self.panic_post(ex, o, d, limits=what not in ("ratio", "ratio_u"))
        self.spec.number_result(ex, o.state, o.payload, n, d, what)

    def root(self, short):
        fn = self.prog.find("clarith::Number::" + short)
        if fn is None or self.prog.funcs[fn]["body"] is None:
            raise Unsupported("Number::%s not found" % short)
        return fn

    def ints(self, ex, st, fn, first, names):
        b = self.prog.funcs[fn]["body"]
        out = []
        for i, n in enumerate(names):
            out.append(ex.fresh_value(st, b["locals"][first + i + 1]["ty"], "%s.%s" % (self.prog.funcs[fn]["name"].split("::")[-1], n)))
        return out

    def v_ratio(self):
        fn = self.root("ratio")

        def gen():
            ex = self.mk(fn, "root")
            st = State()
            a = self.ints(ex, st, fn, 0, ("num", "den"))
            st.ghost = {"proc": "ratio", "expr": lambda ev: ("r", ev(a[0].p), ev(a[1].p))}
            yield ex, fn, st, a, (lambda e, o: self.post_number(e, o, a[0].p, a[1].p, "ratio"))
        return self.guarded(self.prog.funcs[fn]["name"], "root", gen)

    def v_ratio_u(self):
        fn = self.root("ratio_u")

        def gen():
            for pos in (True, False):
                ex = self.mk(fn, "root")
                st = State()
                a = self.ints(ex, st, fn, 1, ("num", "den"))
                st.ghost = {"proc": "ratio_u", "expr": lambda ev, a=a, pos=pos: ("u", int(pos), ev(a[0].p), ev(a[1].p))}
                n = a[0].p if pos else -a[0].p
                yield ex, fn, st, [B(T if pos else F)] + a, (lambda e, o, n=n: self.post_number(e, o, n, a[1].p, "ratio_u"))
        return self.guarded(self.prog.funcs[fn]["name"], "root", gen)

    SHAPES = tuple(SPECIALS) + tuple(("Other", p) for p in PRIMERS)

    def v_homographic(self):
        fn = self.root("homographic")

        def gen():
            for sh in self.SHAPES:
                ex = self.mk(fn, "root")
                st = State()
                x, (p, q) = self.spec.input_number(ex, st, "x", sh)
                a = self.ints(ex, st, fn, 1, ("nx", "n", "dx", "d"))
                st.ghost = {"proc": "homographic", "expr": lambda ev, a=a, p=p, q=q: ("h", tuple(ev(c.p) for c in a), operand(ev, p, q))}
                n, d = transform("homo", [c.p for c in a], [(p, q)])
                yield ex, fn, st, [x] + a, (lambda e, o, n=n, d=d: self.post_number(e, o, n, d, "homographic"))
        return self.guarded(self.prog.funcs[fn]["name"], "root", gen)

    def v_combine(self):
        fn = self.root("combine")

        def gen():
            for sx in self.SHAPES:
                for sy in self.SHAPES:
                    ex = self.mk(fn, "root")
                    st = State()
                    x, fx = self.spec.input_number(ex, st, "x", sx)
                    y, fy = self.spec.input_number(ex, st, "y", sy)
                    a = self.ints(ex, st, fn, 2, ("nxy", "nx", "ny", "n", "dxy", "dx", "dy", "d"))
                    st.ghost = {"proc": "combine", "expr": lambda ev, a=a, fx=fx, fy=fy: ("c", tuple(ev(c.p) for c in a), operand(ev, *fx), operand(ev, *fy))}
                    n, d = transform("comb", [c.p for c in a], [fx, fy])
                    yield ex, fn, st, [x, y] + a, (lambda e, o, n=n, d=d: self.post_number(e, o, n, d, "combine"))
        return self.guarded(self.prog.funcs[fn]["name"], "root", gen)

    def v_compare(self):
        fn = self.root("compare")

        def gen():
            for sx in self.SHAPES:
                for sy in self.SHAPES:
                    ex = self.mk(fn, "root")
                    st = State()
                    x, fx = self.spec.input_number(ex, st, "x", sx)
                    y, fy = self.spec.input_number(ex, st, "y", sy)
                    st.ghost = {"proc": "compare", "expr": lambda ev, fx=fx, fy=fy: ("cmp", operand(ev, *fx), operand(ev, *fy))}
                    yield ex, fn, st, [x, y], (lambda e, o, fx=fx, fy=fy: self.post_compare(e, o, fx, fy))
        return self.guarded(self.prog.funcs[fn]["name"], "root", gen)

    def post_compare(self, ex, o, fx, fy):
        if o.kind == "panic":
            return self.panic_post(ex, o)
        st = o.state
        v = o.payload
        if not isinstance(v, En):
            raise Unsupported("ordering")
        # sign of fx - fy: the denominators are 1 or +-value of x (positive) -> make them positive
        (a, b), (c, d) = fx, fy
        delta = a * d - c * b
        for cond, sg in ((lt, 0), (eq, 1), (gt, 2)):
            ex.obligate(st, implies(eq(v.tag, sg), cond(delta)), "value", "the ordering is that of the values")

    def v_consume(self):
        fn = self.root("consume")

        def gen():
            for sh in self.SHAPES:
                ex = self.mk(fn, "root")
                st = State()
                x, f = self.spec.input_number(ex, st, "x", sh)
                st.ghost = {"proc": "consume", "expr": lambda ev, f=f: ("con", operand(ev, *f))}
                yield ex, fn, st, [x], (lambda e, o, f=f: self.post_consume(e, o, f))
        return self.guarded(self.prog.funcs[fn]["name"], "root", gen)

    def post_consume(self, ex, o, f):
        sp = self.spec
        if o.kind == "panic":
            return self.panic_post(ex, o)
        st = o.state
        t = o.payload
        on, cs = t.fields[0], [x.p for x in t.fields[1:]]
        tag, g = sp.const_tag(on)
        if tag == "None":
            # the rest is one half, or does not matter
            s1 = transform("homo", cs, [(ONE, P(2))])
            sp.value_obl(ex, st, s1, f, "the coefficients reproduce the input")
            return
        r = sp.describe(ex, st, g[0])
        if r[0] == "special":
            p, q = P(SPECIALS[r[1]]), ONE
        else:
            dy = sp.clog(ex, st, r[2])
            ex.obligate(st, T if dy.alive else F, "inv", "the remainder is alive")
            p, q = primed(r[1], dy.p, dy.q)
        sp.value_obl(ex, st, transform("homo", cs, [(p, q)]), f, "coefficients and remainder reproduce the input")
        lim = ISIZE_MAX // 4
        ex.obligate(st, or_(*[or_(ge(c, lim), le(c, -lim)) for c in cs]), "early", "stopping early only when a coefficient has reached a quarter of the range")

    def v_accessor(self, short):
        """unwrap_special / unwrap_other expose exactly what the Number holds"""
        fn = self.root(short)
        sp = self.spec

        def gen():
            for sh in self.SHAPES:
                ex = self.mk(fn, "root")
                st = State()
                x, f = sp.input_number(ex, st, "x", sh)
                right = (sh in SPECIALS) == (short == "unwrap_special")
                st.ghost = {"proc": short}
                yield ex, fn, st, [x], (lambda e, o, sh=sh, right=right: self.post_accessor(e, o, sh, right))
        return self.guarded(self.prog.funcs[fn]["name"], "root", gen)

    def post_accessor(self, ex, o, sh, right):
        sp, st = self.spec, o.state
        if o.kind == "panic":
            if right:
                ex.obligate(st, F, "panic", "no panic on a Number of the right kind")
            else:
                ex.obligate(st, T, "panic", "documented panic on the wrong kind of Number")
            return
        if not right:
            ex.obligate(st, F, "value", "nothing is returned for the wrong kind of Number")
        elif sh in SPECIALS:
            ex.obligate(st, T if sp.const_tag(o.payload)[0] == sh else F, "value", "the Special is the one held")
        else:
            d = sp.clog(ex, st, o.payload.fields[1])
            same = sp.primer_of(o.payload.fields[0]) == sh[1]
            ex.obligate(st, T if same and d.alive else F, "value", "the primer is the one held")
            sp.value_obl(ex, st, (d.p, d.q), (var("x", "R", 0, 1), ONE), "the stream is the one held, unread")

    def v_equality(self):
        """the derived == of the protocol enums distinguishes exactly different symbols"""
        todo = []
        for k, f in self.prog.funcs.items():
            m = re.match(r"<clarith::protocol::(\w+) as std::cmp::PartialEq>::eq$", f["name"])
            if m and f["body"]:
                todo.append((k, self.prog.tyname["clarith::protocol::" + m.group(1)]))

        def gen():
            for fn, ty in todo:
                n = len(self.prog.types[ty]["variants"])
                for i in range(n):
                    for j in range(n):
                        ex = self.mk(fn, "root")
                        st = State()
                        st.store[("in", "a")] = ex.mk_enum(ty, i)
                        st.store[("in", "b")] = ex.mk_enum(ty, j)
                        st.ghost = {"proc": "eq"}
                        yield ex, fn, st, [Ptr(("in", "a"), (), None), Ptr(("in", "b"), (), None)], (lambda e, o, same=i == j: self.post_eq(e, o, same))
        return self.guarded("protocol equality", "root", gen)

    def post_eq(self, ex, o, same):
        if o.kind == "panic":
            return self.panic_post(ex, o)
        ex.obligate(o.state, o.payload.f if same else not_(o.payload.f), "value", "== tells symbols apart")

    def uniqueness(self):
        """a value has one special-or-primer and one payload"""
        p = Proc("uniqueness of the representation", "lemma")
        a, b = var("ua", "R", 0, 1), var("ub", "R", 0, 1)

        def add(pc, goal, desc):
            p.obls.append(Obl(tuple(pc), goal, "axiom", desc, "lemma", {"ghost": {"proc": "lemma"}, "bounded": False}))
        for p1 in PRIMERS:
            for p2 in PRIMERS:
                (n1, d1), (n2, d2) = primed(p1, a, ONE), primed(p2, b, ONE)
                add([eq(n1 * d2, n2 * d1)], eq(a, b) if p1 == p2 else F, "primers %s and %s denote %s" % (p1, p2, "equal values only for equal payloads" if p1 == p2 else "different values"))
            for s, k in SPECIALS.items():
                n1, d1 = primed(p1, a, ONE)
                add([eq(n1, k * d1)], F, "primer %s never denotes %s" % (p1, s))
        add([], or_(lt(2 * a, ONE), eq(2 * a, ONE), gt(2 * a, ONE)), "the next symbol is determined by the value")
        add([lt(2 * a, ONE), eq(b, 2 * a)], and_(gt(b), lt(b, ONE)), "Amplify leads to a value in (0,1)")
        add([gt(2 * a, ONE), eq(b * a, ONE - a)], and_(gt(b), lt(b, ONE)), "Uncover leads to a value in (0,1)")
        return p

    def library(self):
        """axioms of library integer functions against the bodies the compiler has for them"""
        import builtins_mir, owners
        p = Proc("library axioms", "lemma")
        p.open = set()             # functions that stay axioms
        for fn, f in self.prog.funcs.items():
            ax = None if f["local"] or not f["body"] else builtins_mir.lookup(f)
            if ax is None or builtins_mir.is_output(f):
                continue
            b = f["body"]
            tys = [b["locals"][i + 1]["ty"] for i in range(b["arg_count"])]
            refs = [self.prog.types[t]["elem"] if self.prog.types[t]["k"] == "ref" else None for t in tys]
            name = f["def"] or f["name"]
            if not all(self.prog.types[t if r is None else r]["k"] in ("int", "bool") for t, r in zip(tys, refs)):
                p.open.add(name)
                continue
            try:
                outs = [self.library_outs(fn, tys, refs, g) for g in (ax, None)]
            except (Unsupported, NeedContract):
                p.open.add(name)
                continue
            for i, (pc, pre, kind, res) in enumerate(outs[0]):
                for j, (pc2, _, kind2, res2) in enumerate(outs[1]):
                    hyp = tuple(pc) + tuple(x for x in pre + pc2 if x not in pc)
                    goal = F
                    if kind == kind2:
                        goal = and_(*[self.same(x, y) for x, y in zip(res, res2)]) if kind == "return" else T
                    p.obls.append(Obl(hyp, goal, "library", "%s: case %d of the axiom agrees with path %d of the body" % (f["name"], i, j), name,
                                      {"ghost": {"proc": "library"}, "bounded": False}))
        for name, desc, pc, goal in owners.Owners(self.prog, self.solver).obligations():
            if pc is None:
                p.open.add(name)
                continue
            p.obls.append(Obl(tuple(pc), goal, "library", desc, name, {"ghost": {"proc": "library"}, "bounded": False}))
        return p

    def library_outs(self, fn, tys, refs, axiom):
        """[(path condition, required by the axiom, kind, [result, final contents of reference arguments])]"""
        f = self.prog.funcs[fn]
        ex = self.mk(fn, "library")
        st = State()
        args = []
        for i, (t, r) in enumerate(zip(tys, refs)):
            v = self.named(ex, st, t if r is None else r, "lib%s.%d" % (fn, i))
            if r is not None:
                st.store[("in", "a%d" % i)] = v
                v = Ptr(("in", "a%d" % i), (), None)
            args.append(v)
        if axiom is None:
            ex.run(fn, [(st, args)])
        else:
            st.frames = (Frame(fn, 0, None, None),)
            for s, v in axiom(ex, st, args, f["body"]["locals"][0]["ty"], f):
                ex.outs.append(Out(s, "return", v))
        pre = tuple(implies(and_(*o.pc), o.goal) for o in ex.obls)
        return [(o.state.pc, pre, o.kind, [o.payload] + [o.state.store[("in", "a%d" % i)] for i, r in enumerate(refs) if r is not None]) for o in ex.outs]

    def named(self, ex, st, ty, name):
        t = self.prog.types[ty]
        if t["k"] == "bool":
            return B(ge(var(name, "I", 0, 1), 1))
        return I(var(name, "I", *int_range(t)))

    def same(self, x, y):
        if isinstance(x, I) and isinstance(y, I):
            return eq(x.p, y.p)
        if isinstance(x, B) and isinstance(y, B):
            return iff(x.f, y.f)
        if isinstance(x, En) and isinstance(y, En):
            fs = [eq(x.tag, y.tag)]
            for k, (a, b) in enumerate(zip(x.alts, y.alts)):
                if a and b:
                    fs += [implies(eq(x.tag, k), self.same(u, v)) for u, v in zip(a, b)]
            return and_(*fs)
        if isinstance(x, Tup) and isinstance(y, Tup) and len(x.fields) == len(y.fields):
            return and_(*[self.same(u, v) for u, v in zip(x.fields, y.fields)])
        if x == y:
            return T
        raise Unsupported("comparison of library results")

    def lemmas(self):
        """mathematical facts used as axioms by the contracts, proved here once per run"""
        p = Proc("lemmas", "lemma")
        x, y = var("lx", "R", 0, 1), var("ly", "R", 0, 1)

        def add(pc, goal, desc, kind="lemma"):
            p.obls.append(Obl(tuple(pc), goal, kind, desc, "lemma", {"ghost": {"proc": "lemma"}, "bounded": False}))
        for case in (1, -1):
            for k, names in (("homo", ("nx", "n", "dx", "d")), ("comb", "abcdefgh")):
                cs = [var("l%d%s" % (case, n), "I", ISIZE_MIN, ISIZE_MAX) for n in names]
                ops = [(x, ONE)] if k == "homo" else [(x, ONE), (y, ONE)]
                n, d = transform(k, cs, ops)
                w = wf_case(k, cs, case)
                pc = list(w[1])
                if k == "homo":
                    ws = [ONE - x, x]
                else:
                    ws = [(ONE - x) * (ONE - y), (ONE - x) * y, x * (ONE - y), x * y]
                hints = []
                for wt, (cn, cd) in zip(ws, corners(k, cs)):
                    # weights are positive (product of positive reals), so products keep the sign
                    for t in (cn, cd, cd - cn):
                        hints.append((t * case, wt))
                # instantiate: weight > 0 and t >= 0 (resp > 0)  =>  weight*t >= 0 (resp > 0)
                inst = []
                for t, wt in hints:
                    inst.append(implies(ge(t), ge(t * wt)))
                    inst.append(implies(gt(t), gt(t * wt)))
                add(pc + inst, unit_interval_case(n, d, case), "%s invariant implies a value strictly between 0 and 1 (sign %+d)" % (k, case))
        # instances of the product axiom used above: w > 0, t >= 0 -> t*w >= 0
        t, w = var("lt", "R"), var("lw", "R")
        add([gt(w), ge(t)], ge(t * w), "product of a positive and a non-negative number", "axiom")
        add([gt(w), gt(t)], gt(t * w), "product of two positive numbers", "axiom")
        add([], and_(gt((ONE - x) * (ONE - y)), gt((ONE - x) * y), gt(x * (ONE - y)), gt(x * y)), "interpolation weights are positive", "axiom")
        # order of fractions: r = n/d with d > 0
        n1, d1, n2, d2, r1, r2 = [var("lf%d" % i, "R") for i in range(6)]
        fb = [gt(d1), gt(d2), eq(r1 * d1, n1), eq(r2 * d2, n2)]
        for rel, nm in ((lt, "<"), (eq, "=")):
            add(fb, iff(rel(n1 * d2, n2 * d1), rel(r1, r2)), "cross products order fractions (%s)" % nm, "axiom")
            for a, b in ((1, 0), (1, 1), (2, 1), (1, -1)):
                add(fb, iff(rel(a * n1, b * d1), rel(a * r1, b)), "fractions against %s/%s (%s)" % (b, a, nm), "axiom")
        add([or_(ge(n1, 2), le(n1, -2)), le(n1 * n2, 1 << 63), ge(n1 * n2, -(1 << 63))],
            and_(le(n2, 1 << 62), ge(n2, -(1 << 62))), "magnitude of the factors of a product in range", "axiom")
        # finiteness of the symbol stream of p/q: (q, q-p) decreases lexicographically under reduction
        pp, q, h = var("lp", "I"), var("lq", "I"), var("lh", "I")
        base = [gt(pp), lt(pp, q)]
        add(base + [gt(2 * pp, q)], and_(lt(pp, q), gt(q - pp), lt(q - pp, pp)), "stream finiteness: after Uncover the denominator is smaller")
        add(base + [lt(2 * pp, q), eq(q, 2 * h)], and_(lt(h, q), gt(pp), lt(pp, h)), "stream finiteness: after Amplify of an even denominator it is smaller")
        add(base + [lt(2 * pp, q)], and_(lt(q - 2 * pp, q - pp), gt(2 * pp), lt(2 * pp, q)), "stream finiteness: after Amplify of an odd denominator the distance to one is smaller")
        return p


def frac_order_hints(cs, case):
    """instances of the lemma relating cross products of fractions with denominators of one sign to
    their order as real numbers r_i (and to 0, 1/2, 1)"""
    rs = [fresh("ratio", "R") for _ in cs]
    out = []
    for i, (n, d) in enumerate(cs):
        for a, b in ((1, 0), (1, 1), (2, 1), (1, -1)):
            # a*n < b*d  <=>  a*r < b   (d of sign case)
            for rel in (lt, eq):
                out.append(implies(gt(d * case), iff(rel(a * n * case, b * d * case), rel(a * rs[i], b))))
        for j in range(i):
            m, e = cs[j]
            for rel in (lt, eq):
                out.append(implies(and_(gt(d * case), gt(e * case)), iff(rel(n * e, m * d), rel(rs[i], rs[j]))))
        for j in range(len(cs)):
            if i != j:
                # |n*e| <= 2^63 and one factor at least 2 in magnitude: the other is at most 2^62
                m, e = cs[j]
                for p, q in ((n, e), (e, n)):
                    out.append(implies(and_(or_(ge(q, 2), le(q, -2)), le(p * q, 1 << 63), ge(p * q, -(1 << 63))),
                                       and_(le(p, 1 << 62), ge(p, -(1 << 62)))))
    return out


# ------------------------------------------------------------------ models
def evaluator(model):
    """value of a polynomial under a solver model; variables the model leaves open get a harmless value"""
    def val(i):
        vi = VARS[i]
        if vi.name in model:
            return model[vi.name]
        if vi.sort == "R":
            return Fraction(1, 3)
        return min(max(0, vi.lo if vi.lo is not None else 0), vi.hi if vi.hi is not None else 0)

    def ev(p):
        r = Fraction(0)
        for k, c in p.m.items():
            t = Fraction(c)
            for i in k:
                t *= val(i)
            r += t
        return int(r) if r.denominator == 1 else r
    return ev


def operand(ev, p, q):
    """a ratio near the modelled operand value"""
    a, b = Fraction(ev(p)), Fraction(ev(q))
    v = a / b if b else Fraction(1, 3)
    lim = ISIZE_MAX
    if abs(v.numerator) > lim or v.denominator > lim:
        if abs(v) <= 1:
            v = v.limit_denominator(lim)
        else:
            v = 1 / ((1 / v).limit_denominator(lim)) if (1 / v).limit_denominator(lim) else Fraction(lim)
    return ("r", v.numerator, v.denominator)


# ------------------------------------------------------------------ discharge
def proportional(a, b):
    """c with a = c*b componentwise (rational constant), or None"""
    (p1, q1), (p2, q2) = a, b
    base = q2 if q2.m else p2
    other = q1 if q2.m else p1
    if not base.m:
        return None
    k = next(iter(base.m))
    if k not in other.m:
        return None
    c = Fraction(other.m[k]) / Fraction(base.m[k])
    if c == 0:
        return None
    c = P(c)
    return c if p1 == c * p2 and q1 == c * q2 else None


def frac_prove(pc, goal, budget):
    _, a, b, notes, extra = goal
    if proportional(a, b) is not None:
        return "proved", "normalisation", None
    # use the equations of the path condition
    fs, _ = solve_subst(pc)
    sub = lambda z: (apply_subst(z[0], fs), apply_subst(z[1], fs))
    A, B_ = sub(a), sub(b)
    facts = [(sub((n[0], n[1])), sub((n[2], n[3]))) for n in notes]
    seen = [A]
    todo = [A]
    while todo:
        z = todo.pop()
        if proportional(z, B_) is not None:
            return "proved", "normalisation", None
        for l, r in facts:
            for x, y in ((l, r), (r, l)):
                w = via(z, x, y)
                if w is not None and w not in seen and len(seen) < 200:
                    seen.append(w)
                    todo.append(w)
    cs = solve.cases(pc)
    if cs is not None:
        bes = set()
        for c in cs:
            r = frac_prove(c, goal, budget)
            if r[0] != "proved":
                return r
            bes.update(r[1].split("+"))
        return "proved", "+".join(sorted(bes)), None
    cross = a[0] * b[1] - b[0] * a[1]
    g = and_(eq(cross), iff(eq(a[1]), eq(b[1])))
    hyp = list(pc) + [eq(n[0] * n[3] - n[2] * n[1]) for n in notes]
    return solve.prove(hyp, g, budget)


MOBIUS = [((1, 0), (0, 1)), ((0, 1), (1, 0)), ((-1, 0), (0, 1)), ((0, -1), (1, 0)),
          ((2, 0), (0, 1)), ((1, 0), (0, 2)), ((-1, 1), (1, 0)), ((0, 1), (1, 1))]


def via(z, x, y):
    """if z = M(x) for one of the known fractional maps, M(y)"""
    for (a, b), (c, d) in MOBIUS:
        mx = (a * x[0] + b * x[1], c * x[0] + d * x[1])
        if proportional(z, mx) is not None:
            return (a * y[0] + b * y[1], c * y[0] + d * y[1])
    return None


def solve_subst(pc):
    """triangular substitution from the linear equations among pc and the definitions"""
    allf, nums, _ = closure(list(pc))
    subs = []
    eqs = [f for f in solve.top_atoms(allf) if f[0] == "eq"]
    for f in eqs:
        p = f[1]
        for v, r in subs:
            p = p.subst({v: r})
        if p.is_const():
            continue
        best = None
        for k, c in p.m.items():
            if len(k) == 1 and not any(k[0] in k2 for k2 in p.m if k2 != k):
                best = (k, c)
                if abs(c) == 1:
                    break
        if best is None:
            continue
        k, c = best
        r = (p - Poly({k: c})) * P(-Fraction(1) / c)
        subs = [(v, q.subst({k[0]: r})) for v, q in subs]
        subs.append((k[0], r))
    return subs, None


def apply_subst(p, subs):
    return p.subst(dict(subs)) if subs else p


def discharge(o, budget=60.0):
    """verdict, backend, model, seconds"""
    t = time.time()
    if o.kind == "cover":
        r = ("unknown", "z3", None)
        for pc in o.info["pcs"]:
            if solve.satisfiable(pc, 4000):
                r = ("proved", "z3", None)
                break
    elif o.kind == "axiom":
        e = solve.Enc(nl=True, real=True)
        v = solve._check(e, o.pc, o.goal, 20000)[0]
        r = ("proved" if str(v) == "unsat" else "unknown", "z3-nra", None)
    elif o.goal[0] == "frac":
        r = frac_prove(o.pc, o.goal, budget)
    else:
        r = solve.prove(o.pc, o.goal, budget, o.info.get("hints", ()))
        notes = o.info.get("notes")
        if r[0] == "refuted" and notes:
            # the model must also respect what the called contracts promised
            r = solve.prove(list(o.pc) + [eq(n[0] * n[3] - n[2] * n[1]) for n in notes], o.goal, budget, o.info.get("hints", ()))
    return r + (time.time() - t,)
