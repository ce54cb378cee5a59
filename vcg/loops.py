"""Loop rule: havoc what the loop changes, keep the inductive candidates (Houdini), prove them.

Candidates come from fixed templates (bounds, object invariants, 'same value as at loop entry',
'order of two streams up to a polarity flag'); none is read off the code under verification.
"""
from terms import *
from mir import Unsupported
from execu import *
import spec as S
import solve


def live_at(prog, fn):
    """locals live at the start of each block"""
    body = prog.funcs[fn]["body"]
    n = len(body["blocks"])
    use, dfn = [set() for _ in range(n)], [set() for _ in range(n)]

    def place(pl, u):
        u.add(pl["local"])

    def operand(o, u):
        if isinstance(o, dict):
            for k, v in o.items():
                if k in ("Copy", "Move"):
                    u.add(v["local"])

    def walk(x, u):
        if isinstance(x, dict):
            if "local" in x and "projection" in x:
                u.add(x["local"])
                return
            for v in x.values():
                walk(v, u)
        elif isinstance(x, list):
            for v in x:
                walk(v, u)
    for b, blk in enumerate(body["blocks"]):
        def uses(x):
            u = set()
            walk(x, u)
            return u

        for s in blk["statements"]:
            k = s["kind"]
            if isinstance(k, dict) and "Assign" in k:
                pl, rv = k["Assign"]
                use[b] |= uses(rv) - dfn[b]
                if pl["projection"]:
                    use[b] |= {pl["local"]} - dfn[b]
                else:
                    dfn[b].add(pl["local"])
            elif isinstance(k, dict) and ("StorageDead" in k or "StorageLive" in k):
                dfn[b].add(list(k.values())[0])
        t = blk["terminator"]["kind"]
        if isinstance(t, dict):
            (k, v), = t.items()
            if k == "Call":
                use[b] |= (uses(v["func"]) | uses(v["args"])) - dfn[b]
                if v["destination"]["projection"]:
                    use[b] |= {v["destination"]["local"]} - dfn[b]
                else:
                    dfn[b].add(v["destination"]["local"])
            elif k == "Drop":
                pass               # dropping needs no value of interest
            else:
                use[b] |= uses(v) - dfn[b]
        elif t == "Return":
            use[b] |= {0} - dfn[b]
    live = [set() for _ in range(n)]
    ch = True
    while ch:
        ch = False
        for b in range(n - 1, -1, -1):
            out = set()
            for s in prog.succs(body["blocks"][b]["terminator"]):
                out |= live[s]
            new = use[b] | (out - dfn[b])
            if new != live[b]:
                live[b] = new
                ch = True
    return live


class Sub:
    """leaf paths of values"""


def leaves(v, path=()):
    if isinstance(v, (Tup,)):
        for i, f in enumerate(v.fields):
            yield from leaves(f, path + (i,))
    elif isinstance(v, En):
        yield path + ("tag",), v.tag
        for k, a in enumerate(v.alts):
            for i, f in enumerate(a or ()):
                yield from leaves(f, path + (("d", k), i))
    else:
        yield path, v


class LoopRule:
    def __init__(self, ver):
        self.ver = ver
        self.live = {}

    def __call__(self, ex, st):
        saved = len(ex.obls), len(ex.outs), len(ex.prints)
        try:
            return self.cut(ex, st, False)
        except Unsupported as e:
            del ex.obls[saved[0]:], ex.outs[saved[1]:], ex.prints[saved[2]:]
            try:
                return self.cut(ex, st, True)
            except Unsupported:
                raise e

    def cut(self, ex, st, peel):
        """the loop cut at its head; with peel, only where the state there has the shape it had on entry"""
        fr = st.frames[-1]
        depth = len(st.frames) - 1
        header = fr.bb
        fn = fr.fn
        loop = ex.prog.info(fn)[2][header]
        if fn not in self.live:
            self.live[fn] = live_at(ex.prog, fn)
        live = self.live[fn][header]
        st = st.copy()
        refs = self.referenced(st, depth, live)
        for k in list(st.store):
            if k[0] == "l" and k[1] == depth and k[2] not in live and k not in refs:
                del st.store[k]
        for d in range(depth):                         # what the callers will not look at again
            if st.frames[d + 1].target is None:
                continue
            f = st.frames[d].fn
            if f not in self.live:
                self.live[f] = live_at(ex.prog, f)
            on = self.live[f][st.frames[d + 1].target]
            for k in [k for k in st.store if k[0] == "l" and k[1] == d and k[2] not in on and k not in refs]:
                if not ex.has_rc(st, st.store[k]):
                    del st.store[k]
        self.dead = lambda s: [s.store.pop(k) for k in list(s.store)
                               if k[0] == "l" and k[1] == depth and k[2] not in live and k not in refs and k not in st.store]

        shape = self.shape(st, depth, live) if peel else None

        def at_edge(s):
            if len(s.frames) - 1 != depth:
                return False
            return s.frames[-1].bb == header or s.frames[-1].bb not in loop

        def run(h):
            """one iteration from state h: (back-edge states, exit states)"""
            todo, back, out = [h], [], []
            for _ in range(4):
                for h in todo:
                    h = h.copy()
                    h.hdr = h.loc()
                    for s in ex.explore([h], at_edge):
                        (back if s.frames[-1].bb == header else out).append(s)
                for s in back:
                    self.dead(s)
                todo = [s for s in back if self.shape(s, depth, live) != shape] if peel else []
                if not todo:
                    break
                back = [s for s in back if all(s is not t for t in todo)]
            else:
                raise Unsupported("loop changes the shape of its state")
            back = [self.canon(st, s) for s in back]
            for s in back:
                if not peel and self.dead_streams(s):
                    raise Unsupported("loop keeps a replaced object")
            return back, out

        def quiet(h):
            saved = ex.obls, ex.outs, ex.prints
            ex.obls, ex.outs, ex.prints = [], [], []
            try:
                return run(h)[0]
            finally:
                ex.obls, ex.outs, ex.prints = saved

        # 1. what the loop changes
        mod = set()
        for _ in range(12):
            new, some = set(), False
            for h in self.havoc(ex, st, mod):
                for s in quiet(h):
                    some = True
                    new |= self.changed(h, s)
            new = self.widen(st, mod | new)
            if new <= mod:
                break
            mod |= new
        else:
            raise Unsupported("loop modifications do not stabilise")
        if not some:
            # the loop body never comes back: no induction needed
            return run(st)[1]
        # 2. candidate invariants
        cands = self.candidates(ex, st, mod)
        cands = [c for c in cands if c.holds(ex, st, st)]
        for _ in range(40):
            back = []
            for h in self.havoc(ex, st, mod):
                for c in cands:
                    c.assume(ex, h, st)
                if ex.feasible(h):
                    back += quiet(h)
            keep = [c for c in cands if all(c.holds(ex, s, st) for s in back)]
            if len(keep) == len(cands):
                break
            cands = keep
        # 3. the real run: obligations for entry, preservation, decrease
        for c in cands:
            c.oblige(ex, st, st, "holds on loop entry")
        exits = []
        counter = self.counter(ex, st, mod, cands, quiet)
        for h in self.havoc(ex, st, mod):
            for c in cands:
                c.assume(ex, h, st)
            if not ex.feasible(h):
                continue
            back, out = run(h)
            exits += out
            m0 = self.measure(ex, h, mod)
            for s in back:
                for c in cands:
                    c.oblige(ex, s, st, "is preserved by the loop")
                m1 = self.measure(ex, s, mod)
                goal = F
                if m0 is not None and m1 is not None:
                    goal = or_(lt(m1[0], m0[0]), and_(eq(m1[0], m0[0]), lt(m1[1], m0[1])))
                elif counter is not None:
                    goal = counter(h, s)
                ex.obls.append(Obl(s.pc, goal, "term", "every loop iteration %s" % ("brings an integer closer to zero" if counter is not None else
                                   "consumes an input symbol or moves to a simpler object"), ex.where(s),
                                   {"ghost": s.ghost, "bounded": s.bounded, "soft": m0 is None}))
        ex.loops_done = getattr(ex, "loops_done", []) + [(ex.prog.funcs[fn]["name"], [c.text for c in cands])]
        return exits

    # ------------------------------------------------------------ pieces
    def referenced(self, st, depth, live):
        out = set()
        todo = [v for k, v in st.store.items() if not (k[0] == "l" and k[1] == depth and k[2] not in live) and not isinstance(v, int)]
        seen = set()
        while todo:
            v = todo.pop()
            if isinstance(v, Ptr) and v.alloc not in seen:
                seen.add(v.alloc)
                out.add(v.alloc)
                if v.alloc in st.store:
                    todo.append(st.store[v.alloc])
            elif isinstance(v, Tup):
                todo += list(v.fields)
            elif isinstance(v, En):
                for a in v.alts:
                    todo += list(a or ())
        return out

    def changed(self, h, s):
        out = set()
        for k in set(h.store) | set(s.store):
            a, b = h.store.get(k, U), s.store.get(k, U)
            if a == b:
                continue
            if isinstance(a, Uninit) and k not in h.store:
                # allocated inside the loop: must not be reachable from outside; ignored if local
                continue
            if isinstance(a, int) or isinstance(b, int):
                raise Unsupported("loop changes sharing")
            out |= {(k, p) for p in self.differ(a, b, ())}
        return out

    def differ(self, a, b, path):
        """paths at which two values differ; None: as a whole"""
        if a == b:
            return
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.fields) == len(b.fields):
            for i, (x, y) in enumerate(zip(a.fields, b.fields)):
                yield from self.differ(x, y, path + (i,))
        elif isinstance(a, En) and isinstance(b, En):
            if a.tag != b.tag or [x is None for x in a.alts] != [x is None for x in b.alts]:
                yield path + ("tag",)
                return
            for k, (x, y) in enumerate(zip(a.alts, b.alts)):
                for i, (u, v) in enumerate(zip(x or (), y or ())):
                    yield from self.differ(u, v, path + (("d", k), i))
        elif isinstance(a, (Tup, En)) or isinstance(b, (Tup, En)):
            yield None
        else:
            yield path

    def canon(self, h, s):
        """s with its boxes named as in h (the name of an allocation with one owner carries no meaning)"""
        ren = {}
        todo = [(v, s.store.get(k)) for k, v in h.store.items() if k[0] in ("l", "in")]
        seen = set()
        while todo:
            a, b = todo.pop()
            if isinstance(a, Tup) and isinstance(b, Tup) and len(a.fields) == len(b.fields):
                todo += list(zip(a.fields, b.fields))
            elif isinstance(a, En) and isinstance(b, En):
                for x, y in zip(a.alts, b.alts):
                    if x and y:
                        todo += list(zip(x, y))
            elif isinstance(a, (BoxV, RcV)) and type(a) == type(b):
                if ren.setdefault(b.alloc, a.alloc) != a.alloc:
                    raise Unsupported("loop changes sharing")
                if b.alloc not in seen:
                    seen.add(b.alloc)
                    todo.append((h.store.get(a.alloc), s.store.get(b.alloc)))
        if len(set(ren.values())) != len(ren):
            raise Unsupported("loop changes sharing")
        if all(a == b for a, b in ren.items()):
            return s
        for a in set(ren.values()) - set(ren):
            ren[a] = ("old",) + tuple(a)           # no longer reachable through the place it had

        def val(v):
            if isinstance(v, Tup):
                return Tup(v.ty, tuple(val(f) for f in v.fields))
            if isinstance(v, En):
                return En(v.ty, v.tag, tuple(a if a is None else tuple(val(f) for f in a) for a in v.alts))
            if isinstance(v, (BoxV, RcV)):
                return type(v)(ren.get(v.alloc, v.alloc))
            if isinstance(v, Ptr):
                return Ptr(ren.get(v.alloc, v.alloc), v.path, v.meta)
            return v
        t = s.copy()
        t.store = {}
        for k, v in s.store.items():
            k2 = ("rc", ren.get(k[1], k[1])) if k[0] == "rc" else ren.get(k, k)
            t.store[k2] = val(v)
        return t

    def shape(self, s, depth, live):
        """variants held and objects alive, as seen from the live variables"""
        def sig(v, seen):
            if isinstance(v, Tup):
                return tuple(sig(f, seen) for f in v.fields)
            if isinstance(v, En):
                k = v.tag.const() if v.tag.is_const() else None
                return (k,) + tuple(sig(f, seen) for f in (v.alts[k] or () if k is not None else ()))
            if isinstance(v, (BoxV, RcV, Ptr)):
                if v.alloc in seen or v.alloc not in s.store:
                    return None
                return (type(v).__name__, sig(s.store[v.alloc], seen | {v.alloc}))
            return ("dyn", v.alive) if isinstance(v, Dyn) else type(v).__name__
        return {k[2]: sig(v, {k}) for k, v in s.store.items() if k[0] == "l" and k[1] == depth and k[2] in live}

    def dead_streams(self, s):
        return any(isinstance(v, Dyn) and not v.alive and k[0] != "old" and k in self.reached(s) for k, v in s.store.items())

    def reached(self, s):
        out, todo = set(), [v for k, v in s.store.items() if k[0] in ("l", "in")]
        while todo:
            v = todo.pop()
            if isinstance(v, Tup):
                todo += list(v.fields)
            elif isinstance(v, En):
                for a in v.alts:
                    todo += list(a or ())
            elif isinstance(v, (BoxV, RcV, Ptr)) and v.alloc not in out:
                out.add(v.alloc)
                if v.alloc in s.store:
                    todo.append(s.store[v.alloc])
        return out

    def widen(self, st, mod):
        """an enum whose variant changes is replaced as a whole"""
        out = set()
        for k, p in mod:
            tags = [p[:i] for i in range(len(p) + 1) if (k, p[:i] + ("tag",)) in mod] if p is not None else []
            out.add((k, tags[0] + ("tag",)) if tags else (k, p))
        return out

    def variants(self, ex, ty, name):
        """all values of a type, one per combination of variants"""
        t = ex.ty(ty)
        if t["k"] == "int":
            return [I(fresh(name, "I", *int_range(t)))]
        if t["k"] == "bool":
            return [B(fresh_bool(name))]
        if t["k"] == "adt" and not t["is_box"] and t["kind"] in ("Enum", "Struct"):
            out = []
            for i, v in enumerate(t["variants"]):
                fs = [()]
                for f in v["fields"]:
                    fs = [x + (y,) for x in fs for y in self.variants(ex, f["ty"], name)]
                out += [ex.mk_enum(ty, i, x) if t["kind"] == "Enum" else Tup(ty, x) for x in fs]
            if len(out) <= 16:
                return out
        raise Unsupported("loop changes a value of type %s" % t["s"])

    def havoc(self, ex, st, mod):
        h = st.copy()
        h.ghost = dict(st.ghost, inferred=True)        # what follows rests on inferred invariants
        hs = [h]
        for k, p in sorted(mod, key=repr):
            if p is None:
                raise Unsupported("loop replaces a structured value")
            if p and p[-1] == "tag":
                old = ex.get(st.store[k], p[:-1], st)
                out = []
                for x in self.variants(ex, old.ty, "loop"):
                    for h in hs:
                        h = h.copy()
                        h.store[k] = self.put(h.store[k], p[:-1], x)
                        out.append(h)
                if len(out) > 64:
                    raise Unsupported("loop changes many enums")
                hs = out
                continue
            for h in hs:
                v = h.store[k]
                old = self.leaf(v, p)
                if isinstance(old, I):
                    t = self.leaf_ty(ex, st, k, p, old)
                    new = I(fresh("loop", "I", *t))
                elif isinstance(old, B):
                    new = B(fresh_bool("loopb"))
                elif isinstance(old, Dyn):
                    new = Dyn(fresh("loopv", "R", 0, 1), ONE, fresh("steps", "I", 0), fresh("rank", "I", 0, 2), old.alive)
                else:
                    raise Unsupported("loop changes %s" % type(old).__name__)
                h.store[k] = self.put(v, p, new)
        return hs

    def leaf(self, v, p):
        return dict(leaves(v))[p]

    def put(self, v, p, new):
        if not p:
            return new
        if isinstance(v, Tup):
            fs = list(v.fields)
            fs[p[0]] = self.put(fs[p[0]], p[1:], new)
            return Tup(v.ty, tuple(fs))
        k = p[0][1]
        alts = list(v.alts)
        fs = list(alts[k])
        fs[p[1]] = self.put(fs[p[1]], p[2:], new)
        alts[k] = tuple(fs)
        return En(v.ty, v.tag, tuple(alts))

    def leaf_ty(self, ex, st, k, p, old):
        """machine range of an integer leaf"""
        ty = None
        if k[0] == "l":
            ty = ex.prog.funcs[st.frames[k[1]].fn]["body"]["locals"][k[2]]["ty"]
        v = st.store[k]
        if isinstance(v, Tup) and isinstance(v.ty, int):
            ty = v.ty
        cur = ty
        for e in p:
            t = ex.ty(cur)
            if isinstance(e, tuple):
                down = e[1]
                continue
            if t["k"] == "tuple":
                cur = t["elems"][e]
            elif t["k"] == "adt":
                cur = t["variants"][0 if t["kind"] == "Struct" else down]["fields"][e]["ty"]
            else:
                raise Unsupported("type of a loop variable")
        if cur is None or ex.ty(cur)["k"] != "int":
            raise Unsupported("type of a loop variable")
        return int_range(ex.ty(cur))

    def measure(self, ex, s, mod):
        ds = [self.leaf(s.store[k], p) for k, p in mod if k in s.store and p[-1:] != ("tag",)]
        ds = [d for d in ds if isinstance(d, Dyn) and d.alive]
        if not ds:
            return None
        held = [ex.get(s.store[k], p[:-1], s) for k, p in mod if p and p[-1] == "tag" and k in s.store]
        held = sum(1 for v in held if self.holds_symbol(self.ver.spec, v) and self.ver.spec.const_tag(v)[0] == "Some")
        return sum((d.steps for d in ds), P(held)), sum((d.rank for d in ds), ZERO)

    def counter(self, ex, st, mod, cands, quiet):
        """for a loop that consumes no stream: an integer every turn of it brings closer to zero, from the same side"""
        if self.measure(ex, st, mod) is not None:
            return None
        turns = []
        for h in self.havoc(ex, st, mod):
            for c in cands:
                c.assume(ex, h, st)
            if ex.feasible(h):
                turns += [(h, s) for s in quiet(h)]
        for k, p in sorted(mod, key=repr):
            if p[-1:] == ("tag",) or not isinstance(self.leaf(st.store[k], p), I):
                continue

            def closer(h, s, k=k, p=p):
                a, b = self.leaf(h.store[k], p).p, self.leaf(s.store[k], p).p
                return or_(and_(ge(b), lt(b, a)), and_(le(b), gt(b, a)))
            if all(solve.prove(s.pc, closer(h, s), 6.0, want_model=False)[0] == "proved" for h, s in turns):
                return closer
        return None

    def candidates(self, ex, st, mod):
        out = []
        sp = self.ver.spec
        ints, bools, dyns, syms = [], [], [], []
        for k, p in sorted(mod, key=repr):
            if p and p[-1] == "tag":
                syms.append((k, p[:-1]))
                continue
            v = self.leaf(st.store[k], p)
            (ints if isinstance(v, I) else bools if isinstance(v, B) else dyns if isinstance(v, Dyn) else []).append((k, p))
        L = self

        def at(s, kp):
            return L.leaf(s.store[kp[0]], kp[1])
        lim = S.ISIZE_MAX // 4
        for kp in ints:
            g = lambda s, kp=kp: at(s, kp).p
            lo, hi = L.leaf_ty(ex, st, kp[0], kp[1], None)
            out.append(Cand("x >= 0", lambda s, e, g=g: ge(g(s))))
            out.append(Cand("x > 0", lambda s, e, g=g: gt(g(s))))
            out.append(Cand("x <= 0", lambda s, e, g=g: le(g(s))))
            out.append(Cand("x < 0", lambda s, e, g=g: lt(g(s))))
            if lo < 0:
                out.append(Cand("|x| < MAX/4", lambda s, e, g=g: and_(lt(g(s), lim), gt(g(s), -lim))))
                out.append(Cand("|x| <= MAX/2", lambda s, e, g=g: and_(le(g(s), S.ISIZE_MAX // 2), ge(g(s), -(S.ISIZE_MAX // 2)))))
        if not dyns and len(ints) <= 4:
            for i, x in enumerate(ints):
                for y in ints[:i]:
                    out.append(Cand("x/y unchanged", lambda s, e, x=x, y=y: eq(at(s, x).p * at(e, y).p, at(s, y).p * at(e, x).p)))
        for kp in bools:
            out.append(Cand("flag unchanged", lambda s, e, kp=kp: iff(at(s, kp).f, at(e, kp).f)))
        # objects
        mk = {k for k, _ in mod}
        for k, v in st.store.items():
            for path, x in self.structs(sp, v):
                reach = self.reaches(st, x)
                if not (({k} | reach) & mk):
                    continue
                out.append(ObjCand(self, sp, k, path, "value"))
                out.append(ObjCand(self, sp, k, path, "inv"))
                out.append(ObjCand(self, sp, k, path, "den"))
        # loose coefficients in local variables
        out += self.loose(ex, st, sp, mod, dyns)
        # streams as they were at entry
        for kp in dyns:
            out.append(Cand("stream unchanged", lambda s, e, kp=kp: and_(eq(at(s, kp).p * at(e, kp).q, at(e, kp).p * at(s, kp).q), eq(at(s, kp).steps, at(e, kp).steps))))
        # order of two streams, the symbols already taken off them put back in front
        held = [None] + [kp for kp in syms if self.holds_symbol(sp, self.sub(ex, st, kp))]
        told = [kp for kp in syms if self.holds_order(ex, self.sub(ex, st, kp))]
        for i in range(len(dyns)):
            for j in range(i):
                for ra in held:
                    for rb in held:
                        if (ra is None) != (rb is None) or (ra is not None and ra == rb):
                            continue
                        out += self.order_cands(ex, sp, at, (dyns[i], ra), (dyns[j], rb), bools, ints, told)
        return out

    def sub(self, ex, s, kp):
        return ex.get(s.store[kp[0]], kp[1], s)

    def holds_symbol(self, sp, v):
        t = sp.prog.types[v.ty]
        return t["k"] == "adt" and t["name"] == "std::option::Option" and t["args"][0]["ty"] == sp.m.t_red

    def holds_order(self, ex, v):
        t = ex.ty(v.ty)
        o = ex.prog.tyname.get("std::cmp::Ordering")
        return v.ty == o or t["k"] == "adt" and t["name"] == "std::option::Option" and t["args"][0]["ty"] == o

    def order_cands(self, ex, sp, at, a, b, bools, ints, told):
        def val(s, x):
            d = at(s, x[0])
            if x[1] is None:
                return d.p, d.q
            n, f = sp.const_tag(self.sub(ex, s, x[1]))
            if n == "None":
                return ONE, P(2)
            return (d.p, 2 * d.q) if sp.const_tag(f[0])[0] == "Amplify" else (d.q, d.p + d.q)

        def delta(s):
            (p, q), (u, v) = val(s, a), val(s, b)
            return p * v - u * q

        def same(s, e):
            return and_(iff(lt(delta(s)), lt(delta(e))), iff(eq(delta(s)), eq(delta(e))))

        def opp(s, e):
            return and_(iff(lt(delta(s)), gt(delta(e))), iff(eq(delta(s)), eq(delta(e))))
        kept = [("order of the streams kept", same)]
        for kp in bools:
            kept.append(("order kept iff the flag is unchanged",
                         lambda s, e, kp=kp: ite(iff(at(s, kp).f, at(e, kp).f), same(s, e), opp(s, e))))
        for kp in ints:
            kept.append(("order kept iff the sign variable is unchanged",
                         lambda s, e, kp=kp: and_(or_(eq(at(s, kp).p, at(e, kp).p), eq(at(s, kp).p, -at(e, kp).p)),
                                                  ite(eq(at(s, kp).p, at(e, kp).p), same(s, e), opp(s, e)))))
        out = [Cand(t, f) for t, f in kept]
        for kp in told:
            def answer(s, kp=kp):
                v = self.sub(ex, s, kp)
                if ex.ty(v.ty)["name"] == "std::option::Option":
                    n, f = sp.const_tag(v)
                    return None if n == "None" else f[0]
                return v

            def right(s, e, sign, answer=answer):
                o = answer(s)
                if o is None:
                    return T
                d = delta(e) * sign
                return and_(*[implies(eq(o.tag, k), c(d)) for k, c in ((0, lt), (1, eq), (2, gt))])
            for sign in (1, -1):
                out.append(Cand("the ordering found is that at entry (%+d)" % sign, lambda s, e, sign=sign, right=right: right(s, e, sign)))
                for b_ in bools:
                    out.append(Cand("the ordering found is that at entry up to the flag (%+d)" % sign,
                                    lambda s, e, sign=sign, right=right, b_=b_: ite(iff(at(s, b_).f, at(e, b_).f), right(s, e, sign), right(s, e, -sign))))
            for t, f in kept:
                out.append(Cand(t + " until an ordering is found", lambda s, e, f=f, answer=answer: f(s, e) if answer(s) is None else T))
        return out

    def structs(self, sp, v, path=()):
        if isinstance(v, Tup):
            if v.ty in sp.m.kinds:
                yield path, v
            else:
                for i, f in enumerate(v.fields):
                    yield from self.structs(sp, f, path + (i,))
        elif isinstance(v, En) and v.tag.is_const():
            k = v.tag.const()
            for i, f in enumerate(v.alts[k] or ()):
                yield from self.structs(sp, f, path + (("d", k), i))

    def reaches(self, st, v):
        out = set()
        todo = [v]
        while todo:
            x = todo.pop()
            if isinstance(x, Tup):
                todo += list(x.fields)
            elif isinstance(x, (BoxV, RcV)) and x.alloc not in out:
                out.add(x.alloc)
                todo.append(st.store.get(x.alloc))
        return out

    def loose(self, ex, st, sp, mod, dyns):
        fr = st.frames[-1]
        depth = len(st.frames) - 1
        names = {}
        for d in ex.prog.funcs[fr.fn]["body"].get("var_debug_info", []):
            try:
                pl = d["value"]["Place"]
            except (KeyError, TypeError):
                continue
            if not pl["projection"]:
                names.setdefault(d["name"], pl["local"])
        out = []
        for kind, ns, nd in (("homo", ("nx", "n", "dx", "d"), 1), ("comb", tuple("abcdefgh"), 2)):
            if all(n in names and isinstance(st.store.get(("l", depth, names[n])), I) for n in ns) and len(dyns) == nd:
                keys = [("l", depth, names[n]) for n in ns]
                out.append(LooseCand(self, kind, keys, dyns))
        return out


class Cand:
    def __init__(self, text, f):
        self.text, self.f = text, f

    def holds(self, ex, s, e):
        g = self.f(s, e)
        return g == T or solve.prove(s.pc, g, 6.0, want_model=False)[0] == "proved"

    def assume(self, ex, h, e):
        h.assume(self.f(h, e))

    def oblige(self, ex, s, e, when):
        ex.obls.append(Obl(s.pc, self.f(s, e), "inv", "loop invariant (%s) %s" % (self.text, when), ex.where(s), {"ghost": s.ghost, "bounded": s.bounded}))


class ObjCand:
    def __init__(self, rule, sp, key, path, what):
        self.sp, self.key, self.path, self.what = sp, key, path, what
        self.text = {"value": "object value unchanged", "inv": "object invariant", "den": "denominator not identically zero"}[what]

    def obj(self, ex, s):
        if self.key not in s.store:
            return None
        try:
            v = ex.get(s.store[self.key], self.path, s)
        except Unsupported:
            return None
        return v if isinstance(v, Tup) and v.ty in self.sp.m.kinds else None

    def goal(self, ex, s, e):
        v = self.obj(ex, s)
        if v is None:
            return F
        if self.what == "inv":
            return self.sp.wf(v) if self.sp.rc_ok(ex, s, v) else F
        if self.what == "den":
            k, c, _ = self.sp.coefs(v)
            return or_(ne(c[2]), ne(c[3])) if k == "homo" else T
        return ("frac", self.sp.frac(ex, s, v), self.sp.frac(ex, e, self.obj(ex, e)), s.notes, T)

    def holds(self, ex, s, e):
        import verify
        g = self.goal(ex, s, e)
        if g == T:
            return True
        if g[0] == "frac":
            return verify.frac_prove(s.pc, g, 6.0)[0] == "proved"
        return g != F and solve.prove(s.pc, g, 6.0, want_model=False)[0] == "proved"

    def assume(self, ex, h, e):
        g = self.goal(ex, h, e)
        if g[0] == "frac":
            self.sp.note(h, g[1], g[2])
        else:
            h.assume(g)
            if self.what == "inv":
                h.assume(S.unit_interval(*self.sp.frac(ex, h, self.obj(ex, h))))

    def oblige(self, ex, s, e, when):
        ex.obls.append(Obl(s.pc, self.goal(ex, s, e), ex.kind(s, "value") if self.what == "value" else "inv",
                           "loop invariant (%s) %s" % (self.text, when), ex.where(s), {"ghost": s.ghost, "bounded": s.bounded}))


class LooseCand(ObjCand):
    def __init__(self, rule, kind, keys, dyns):
        self.rule, self.kind, self.keys, self.dyns = rule, kind, keys, dyns
        self.what = "value"
        self.text = "value of the coefficients unchanged"
        self.sp = rule.ver.spec

    def frac(self, s):
        ops = []
        for k, p in self.dyns:
            d = self.rule.leaf(s.store[k], p)
            ops.append((d.p, d.q))
        return S.transform(self.kind, [s.store[k].p for k in self.keys], ops)

    def goal(self, ex, s, e):
        return ("frac", self.frac(s), self.frac(e), s.notes, T)


def rule(ver):
    return LoopRule(ver)
