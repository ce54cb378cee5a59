"""Axioms of Box and Rc against the library's own bodies.

The generator treats a Box as an allocation and an Rc as an allocation with a count.  Here the bodies the
compiler has for those functions run on the memory they really use (RcInner: strong, weak, value); each path
must end in a state that stands for the one the axiom gives: same result, same contents, the count changed by
the same amount, the weak count left at one, the contents dropped exactly when the axiom drops them.
Trusted below that: a fresh block from the allocator, giving the block back, dropping of the contents.
"""
import copy
from terms import *
from mir import Unsupported
from execu import *
import builtins_mir as bm

RULES = (bm.box_new, bm.rc_new, bm.rc_clone, bm.rc_get_mut, bm.rc_try_unwrap, bm.rc_count, bm.rc_into_inner, bm.deref)
MANY = 1 << 62         # more references than memory can hold


def fresh_block(ex, st, a, rty, f):
    return [(st, Ptr(ex.alloc(st, "block", U), (), None))]


def dropped(ex, st, a, rty, f):
    p = a[0]
    ex.write(st, p.alloc, p.path, U)
    return [(st, UNIT)]


def nothing(ex, st, a, rty, f):
    return [(st, ex.zst(rty))]


class Raw(Exec):
    """owning pointers are plain structs here"""

    def axiom(self, f):
        n = f["name"]
        if n == "std::boxed::box_new_uninit":
            return fresh_block
        if n.startswith("std::ptr::drop_glue::<") and not f["lib_body"]:
            return dropped
        if n == "<std::alloc::Global as std::clone::Clone>::clone":
            return nothing
        return None if f["lib_body"] else bm.lookup(f)

    def decode(self, st, al, off, ty):
        t = self.ty(ty)
        if t["k"] == "adt" and t["name"] == "std::cell::UnsafeCell":
            return self.decode(st, al, off, t["variants"][0]["fields"][0]["ty"])
        return Exec.decode(self, st, al, off, ty)


class Owners:
    def __init__(self, prog, solver):
        self.prog = prog
        self.solver = solver
        self.raw = copy.copy(prog)
        self.raw.funcs = {k: dict(f, body=f["body"] or f["lib_body"]) for k, f in prog.funcs.items()}
        self.raw.cfg = {}

    def rc_arg(self, ty):
        """type of the Rc in an argument (by value or by reference), else None"""
        t = self.prog.types[ty]
        if t["k"] == "ref":
            t = self.prog.types[t["elem"]]
        return t if t["k"] == "adt" and t["name"] == "std::rc::Rc" else None

    def opaque(self, st, name):
        return Opq(("content", name))

    def obligations(self):
        """(library function, description, hypotheses, goal)"""
        for fn, f in self.prog.funcs.items():
            ax = bm.lookup(f)
            drop = f["name"].startswith("std::ptr::drop_glue::<std::rc::Rc<")
            if not f["lib_body"] or not (drop or ax in RULES):
                continue
            name = f["def"] or f["name"]
            b = f["lib_body"]
            tys = [b["locals"][i + 1]["ty"] for i in range(b["arg_count"])]
            shared = len(tys) == 1 and self.rc_arg(tys[0])
            out = []
            try:
                for n in (1, 2) if shared else (0,):
                    for j, (pc, goal) in enumerate(self.compare(fn, f, ax, drop, tys, n)):
                        out.append((name, "%s, %s: path %d of the body does what the axiom says" % (
                            f["name"], ("one owner", "more owners")[n - 1] if n else "new value", j), pc, goal))
            except Unsupported as e:
                out = [(name, str(e), None, None)]
            yield from out

    def compare(self, fn, f, ax, drop, tys, n):
        # the axiom
        b = f["lib_body"]
        ex = Exec(self.prog, self.solver, {})
        st = State()
        st.frames = (Frame(fn, 0, None, None),)
        if n:
            st.store[("in", "r")] = self.opaque(st, "r")
            st.store[("rc", ("in", "r"))] = n
            arg = RcV(("in", "r"))
        else:
            arg = self.opaque(st, "r")
        by_ref = n and self.prog.types[tys[0]]["k"] == "ref"
        if by_ref:
            st.store[("in", "a")] = arg
            arg = Ptr(("in", "a"), (), None)
        if drop:
            ex.drop(st, st.store[("in", "a")])
            want = [(st, UNIT)]
        else:
            want = ax(ex, st, [arg], b["locals"][0]["ty"], f)
        if len(want) != 1:
            raise Unsupported("axiom with several cases")
        (wst, wv), = want
        # the body
        rx = Raw(self.raw, self.solver, {})
        rs = State()
        strong = P(1) if n == 1 else var("rc.strong", "I", 2, MANY)
        if n:
            t = self.rc_arg(tys[0])
            nn = self.prog.types[t["variants"][0]["fields"][0]["ty"]]          # NonNull<RcInner<T>>
            inner = nn["args"][0]["ty"]
            cell = self.prog.types[inner]["variants"][0]["fields"][0]["ty"]
            rs.store[("in", "r")] = Tup(inner, (Tup(cell, (I(strong),)), Tup(cell, (I(P(1)),)), self.opaque(rs, "r")))
            rty = tys[0] if not by_ref else self.prog.types[tys[0]]["elem"]
            rarg = Tup(rty, (Ptr(("in", "r"), (), None), UNIT, UNIT))
        else:
            rarg = self.opaque(rs, "r")
        if by_ref:
            rs.store[("in", "a")] = rarg
            rarg = Ptr(("in", "a"), (), None)
        rx.run(fn, [(rs, [rarg])])
        for o in rx.outs:
            if o.kind != "return":
                yield o.state.pc, F
                continue
            self.m = {("in", "r"): ("in", "r"), ("in", "a"): ("in", "a")} if n else {}
            self.kind = {("in", "r"): "rc"} if n else {}
            g = [self.rel(wv, o.payload)]
            done = set()
            while set(self.m) - done:
                a = (set(self.m) - done).pop()
                done.add(a)
                x, y = wst.store.get(a), o.state.store.get(self.m[a])
                if self.kind.get(a) == "rc":
                    c, w, v = y.fields
                    if x is None:
                        g.append(T if isinstance(v, Uninit) == bool(drop) else F)
                        continue
                    g.append(self.rel(x, v))
                    g.append(eq(c.fields[0].p, (strong - n if n else 0) + wst.store[("rc", a)]))
                    g.append(eq(w.fields[0].p, 1))
                elif a != ("in", "a") or not drop:
                    g.append(self.rel(x, y))
            yield o.state.pc, and_(*g)
        for o in rx.obls:
            yield o.pc, o.goal

    def pair(self, a, b, kind):
        if self.m.setdefault(a, b) != b:
            return F
        self.kind.setdefault(a, kind)
        return T

    def rel(self, x, y):
        if isinstance(x, RcV):
            if isinstance(y, Tup) and isinstance(y.fields[0], Ptr) and y.fields[0].path == ():
                return self.pair(x.alloc, y.fields[0].alloc, "rc")
            return F
        if isinstance(x, BoxV):
            return self.pair(x.alloc, y.alloc, "box") if isinstance(y, (Ptr, BoxV)) and (isinstance(y, BoxV) or y.path == ()) else F
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            if x.alloc not in self.m or self.m[x.alloc] != y.alloc:
                return F
            return T if y.path == ((2,) if self.kind.get(x.alloc) == "rc" else ()) + x.path else F
        if isinstance(x, I) and isinstance(y, I):
            return eq(x.p, y.p)
        if isinstance(x, B) and isinstance(y, B):
            return iff(x.f, y.f)
        if isinstance(x, En) and isinstance(y, En):
            fs = [eq(x.tag, y.tag)]
            for k, (a, b) in enumerate(zip(x.alts, y.alts)):
                if a and b:
                    fs += [implies(eq(x.tag, k), self.rel(u, v)) for u, v in zip(a, b)]
            return and_(*fs)
        if isinstance(x, Tup) and isinstance(y, Tup) and len(x.fields) == len(y.fields):
            return and_(*[self.rel(u, v) for u, v in zip(x.fields, y.fields)])
        return T if x == y else F
