"""Path-wise symbolic execution of MIR, generating proof obligations.

Machine integers are mathematical integers with explicit range obligations; enums carry a
symbolic tag; memory is a map from allocation to value tree; the only abstraction is `dyn
Strategy`, an opaque object with a ghost value (see spec.py).  States that reach the same program
point with the same memory are merged (their path conditions are or-ed).
"""
import heapq
import os
from collections import namedtuple
from terms import *
from mir import Unsupported

I = namedtuple("I", "p")
B = namedtuple("B", "f")
Tup = namedtuple("Tup", "ty fields")          # struct, tuple, closure, array
En = namedtuple("En", "ty tag alts")          # enum; alts[k] = fields of variant k or None
Ptr = namedtuple("Ptr", "alloc path meta")    # & / * pointer; to a slice: its first element, meta = length
BoxV = namedtuple("BoxV", "alloc")
RcV = namedtuple("RcV", "alloc")
FnV = namedtuple("FnV", "inst")
Str = namedtuple("Str", "text")
Opq = namedtuple("Opq", "what")
Dyn = namedtuple("Dyn", "p q steps rank alive")   # ghost: value p/q in (0,1), steps left, rank
Uninit = namedtuple("Uninit", "")
U = Uninit()
UNIT = Tup("()", ())

Frame = namedtuple("Frame", "fn bb dest target")
Obl = namedtuple("Obl", "pc goal kind desc where info")
Out = namedtuple("Out", "state kind payload")      # kind: return | panic


class NeedContract(Exception):
    def __init__(self, fn):
        self.fn = fn


class State:
    __slots__ = ("frames", "store", "pc", "over", "notes", "cnt", "ghost", "bounded", "hdr")

    def __init__(self):
        self.frames = ()
        self.store = {}
        self.pc = ()
        self.over = False
        self.notes = ()
        self.cnt = {}
        self.ghost = {}
        self.bounded = False
        self.hdr = None

    def copy(self):
        s = State()
        s.frames, s.store, s.pc, s.over = self.frames, dict(self.store), self.pc, self.over
        s.notes, s.cnt, s.ghost, s.bounded = self.notes, dict(self.cnt), self.ghost, self.bounded
        return s

    def assume(self, f):
        if f == T or f in self.pc:
            return self
        self.pc = self.pc + ((f,) if f[0] != "and" else tuple(g for g in f[1] if g not in self.pc))
        return self

    def loc(self):
        return tuple((f.fn, f.bb, f.dest) for f in self.frames)


ISZ = 64


def int_range(t):
    n = t["bytes"] * 8
    return (-(1 << (n - 1)), (1 << (n - 1)) - 1) if t["signed"] else (0, (1 << n) - 1)


class Exec:
    def __init__(self, prog, solver, contracts=None, unroll=0):
        self.prog = prog
        self.solver = solver
        self.contracts = contracts or {}
        self.obls = []
        self.outs = []
        self.unroll = unroll          # >0: recursion is followed that deep (deeper: unsupported)
        self.loop_rule = None         # set by spec
        self.root = None
        self.inlined = set()
        self.builtins_used = set()
        self.max_states = 20000
        self.nstates = 0
        self.prints = []
        self.hints = ()

    # ------------------------------------------------------------ types
    def ty(self, t):
        return self.prog.types[t]

    def place_ty(self, st, place, fr=None):
        fr = fr or st.frames[-1]
        t = self.prog.funcs[fr.fn]["body"]["locals"][place["local"]]["ty"]
        for e in place["projection"]:
            if e == "Deref":
                k = self.ty(t)
                if k["k"] == "adt" and k["is_box"]:
                    t = k["args"][0]["ty"]
                else:
                    t = k["elem"]
            elif "Field" in e:
                t = e["Field"][1]
            elif "Downcast" in e:
                pass
            elif "Index" in e or "ConstantIndex" in e:
                t = self.ty(t)["elem"]
            else:
                raise Unsupported("projection %s" % e)
        return t

    # ------------------------------------------------------------ memory
    def alloc(self, st, tag, val):
        site = ("h", tag) + tuple((f.fn, f.bb) for f in st.frames)
        n = st.cnt.get(site, 0)
        st.cnt[site] = n + 1
        a = site + (n,)
        st.store[a] = val
        return a

    def get(self, v, path, st):
        down = None
        for e in path:
            if isinstance(e, tuple):
                down = e[1]
                continue
            if isinstance(v, En):
                k = down if down is not None else 0
                if v.alts[k] is None:
                    raise Unsupported("read of inactive variant")
                v = v.alts[k][e]
                down = None
            elif isinstance(v, Tup):
                if not 0 <= e < len(v.fields):
                    raise Unsupported("read outside an array")
                v = v.fields[e]
                down = None
            elif isinstance(v, (BoxV, RcV, Ptr)) and e == 0:
                pass      # Box.0 (Unique) .0 (NonNull) .0 (pointer)
            elif isinstance(v, Uninit):
                raise Unsupported("read of uninitialised memory")
            else:
                raise Unsupported("field %r of %r" % (e, type(v).__name__))
        return v

    def put(self, v, path, new, down=None):
        if not path:
            return new
        e = path[0]
        if isinstance(e, tuple):
            return self.put(v, path[1:], new, e[1])
        if isinstance(v, En):
            k = down if down is not None else 0
            alts = list(v.alts)
            fs = list(alts[k])
            fs[e] = self.put(fs[e], path[1:], new)
            alts[k] = tuple(fs)
            return En(v.ty, v.tag, tuple(alts))
        if isinstance(v, Tup):
            if not 0 <= e < len(v.fields):
                raise Unsupported("write outside an array")
            fs = list(v.fields)
            fs[e] = self.put(fs[e], path[1:], new)
            return Tup(v.ty, tuple(fs))
        raise Unsupported("write to field of %r" % type(v).__name__)

    def read(self, st, a, path=()):
        if a not in st.store:
            raise Unsupported("dangling read %r" % (a,))
        return self.get(st.store[a], path, st)

    def write(self, st, a, path, v, ty=None):
        if path:
            old = st.store.get(a, U)
            if isinstance(old, Uninit):
                old = self.blank(ty)
            st.store[a] = self.put_blank(old, path, v)
        else:
            st.store[a] = v

    def put_blank(self, old, path, v):
        return self.put(old, path, v)

    def blank(self, ty):
        if ty is None:
            raise Unsupported("partial initialisation")
        t = self.ty(ty)
        if t["k"] == "tuple":
            return Tup(ty, tuple(U for _ in t["elems"]))
        if t["k"] == "adt" and len(t["variants"]) == 1:
            return Tup(ty, tuple(U for _ in t["variants"][0]["fields"]))
        if t["k"] == "array":
            return Tup(ty, (U,) * self.array_len(ty))
        raise Unsupported("partial initialisation of %s" % t["s"])

    def array_len(self, ty):
        n = self.ty(ty)["len"]
        if not isinstance(n, int) or n > 64:
            raise Unsupported("array length")
        return n

    def index(self, path, meta, i):
        """element i of the array at path, or of the slice that starts at path"""
        if not i.is_const():
            raise Unsupported("symbolic index")
        return path[:-1] + (path[-1] + i.const(),) if meta is not None else path + (i.const(),)

    def place(self, st, place, fat=False):
        a, path = ("l", len(st.frames) - 1, place["local"]), ()
        meta = tail = None         # length of the slice just reached; of the unsized tail of the object just reached
        for e in place["projection"]:
            if e == "Deref":
                v = self.read(st, a, path)
                meta = tail = None
                if isinstance(v, Ptr):
                    a, path = v.alloc, v.path
                    meta = tail = v.meta
                elif isinstance(v, (BoxV,)):
                    a, path = v.alloc, ()
                else:
                    raise Unsupported("deref of %r" % (v,))
            elif "Field" in e:
                f, t = e["Field"]
                if self.is_union(st, place, e):
                    continue
                path = path + (f,)
                if tail is not None and self.ty(t)["k"] == "slice":
                    path, meta = path + (0,), tail
                else:
                    meta = tail = None
            elif "Downcast" in e:
                path = path + (("d", e["Downcast"]),)
            elif "Index" in e:
                path = self.index(path, meta, self.num(self.read(st, ("l", len(st.frames) - 1, e["Index"]))))
                meta = tail = None
            elif "ConstantIndex" in e:
                c = e["ConstantIndex"]
                n = meta if meta is not None else len(self.read(st, a, path).fields)
                path = self.index(path, meta, P(n - c["offset"] if c["from_end"] else c["offset"]))
                meta = tail = None
            else:
                raise Unsupported("projection %s" % e)
        # drop the Box.0/.0 pass-through steps
        return (a, path, tail) if fat else (a, path)

    def is_union(self, st, place, e):
        """a MaybeUninit stands for its content"""
        if id(e) not in self.prog.unions:
            k = next(i for i, x in enumerate(place["projection"]) if x is e)
            t = self.ty(self.place_ty(st, dict(local=place["local"], projection=place["projection"][:k])))
            self.prog.unions[id(e)] = t["k"] == "adt" and t["kind"] == "Union"
        return self.prog.unions[id(e)]

    def pointee(self, ty):
        t = self.ty(ty)
        if t["k"] in ("ref", "ptr"):
            return self.ty(t["elem"])
        if t["k"] == "adt" and t["name"].split("::")[-1] in ("NonNull", "Unique"):
            return self.ty(t["args"][0]["ty"])
        return None

    def element(self, st, p):
        """(pointer to an array, index) of a pointer to one of its elements"""
        if p.path and isinstance(p.path[-1], int):
            v = self.read(st, p.alloc, p.path[:-1])
            if isinstance(v, Tup) and isinstance(v.ty, int) and self.ty(v.ty)["k"] == "array":
                return (p.alloc, p.path[:-1]), p.path[-1]
        raise Unsupported("pointer arithmetic outside an array")

    # ------------------------------------------------------------ symbolic inputs
    def fresh_value(self, st, ty, name):
        t = self.ty(ty)
        k = t["k"]
        if k == "int":
            lo, hi = int_range(t)
            return I(var(name, "I", lo, hi))
        if k == "bool":
            return B(bvar(name))
        if k == "tuple":
            return Tup(ty, tuple(self.fresh_value(st, e, "%s.%d" % (name, i)) for i, e in enumerate(t["elems"])))
        if k == "array":
            return Tup(ty, tuple(self.fresh_value(st, t["elem"], "%s.%d" % (name, i)) for i in range(self.array_len(ty))))
        if k == "ref":
            a = ("in", name)
            st.store[a] = self.fresh_value(st, t["elem"], name)
            return Ptr(a, (), None)
        if k == "adt":
            if t["is_box"]:
                a = ("in", name)
                st.store[a] = self.fresh_value(st, t["args"][0]["ty"], name)
                return BoxV(a)
            if t["name"].endswith("::Rc"):
                a = ("in", name)
                st.store[a] = self.fresh_value(st, t["args"][0]["ty"], name)
                st.store[("rc", a)] = 1
                return RcV(a)
            if t["kind"] == "Enum":
                n = len(t["variants"])
                alts = tuple(tuple(self.fresh_value(st, f["ty"], "%s.%s%s" % (name, v["name"], "." + f["name"] if len(v["fields"]) > 1 else ""))
                                   for f in v["fields"]) for v in t["variants"])
                tag = var(name + ".tag", "I", 0, n - 1) if n > 1 else ZERO
                return En(ty, tag, alts)
            if t["kind"] == "Struct":
                return Tup(ty, tuple(self.fresh_value(st, f["ty"], "%s.%s" % (name, f["name"])) for f in t["variants"][0]["fields"]))
        if k == "dyn":
            v = var(name + ".val", "R", 0, 1)
            s = var(name + ".steps", "I", 0, None)
            r = var(name + ".rank", "I", 0, 2)
            return Dyn(v, ONE, s, r, True)
        raise Unsupported("symbolic value of type %s" % t["s"])

    # ------------------------------------------------------------ constants
    def const(self, st, c):
        ty = c["ty"]
        k = c["kind"]
        t = self.ty(ty)
        if k == "ZeroSized":
            return self.zst(ty)
        if isinstance(k, dict) and "Allocated" in k:
            return self.decode(st, k["Allocated"], 0, ty)
        raise Unsupported("constant kind %s" % str(k)[:60])

    def zst(self, ty):
        t = self.ty(ty)
        if t["k"] in ("fndef",):
            return FnV(ty)
        if t["k"] == "tuple":
            return Tup("()" if not t["elems"] else ty, tuple(self.zst(e) for e in t["elems"]))
        if t["k"] == "closure":
            return Tup(ty, ())
        if t["k"] == "adt" and len(t["variants"]) == 1:
            return Tup(ty, tuple(self.zst(f["ty"]) for f in t["variants"][0]["fields"]))
        if t["k"] == "array":
            return Tup(ty, tuple(self.zst(t["elem"]) for _ in range(self.array_len(ty))))
        return Opq(("zst", ty))

    def decode(self, st, al, off, ty):
        t = self.ty(ty)
        k = t["k"]
        by = al["bytes"]
        ptrs = {o: i for o, i in al["provenance"]["ptrs"]}

        def num(o, n, signed):
            bs = by[o:o + n]
            if any(b is None for b in bs):
                return None
            v = int.from_bytes(bytes(bs), "little")
            if signed and v >= 1 << (8 * n - 1):
                v -= 1 << (8 * n)
            return v
        if t.get("size") == 0:
            return self.zst(ty)
        if k == "int":
            v = num(off, t["bytes"], t["signed"])
            return U if v is None else I(P(v))
        if k == "bool":
            v = num(off, 1, False)
            return U if v is None else B(T if v else F)
        if k == "char":
            return I(P(num(off, 4, False)))
        if k == "tuple":
            offs = t["layout"]["fields"]["Arbitrary"]["offsets"]
            return Tup(ty, tuple(self.decode(st, al, off + o["num_bits"] // 8, e) for o, e in zip(offs, t["elems"])))
        if k == "array":
            return Tup(ty, tuple(self.decode(st, al, off + i * self.ty(t["elem"])["size"], t["elem"]) for i in range(self.array_len(ty))))
        if k in ("ref", "ptr"):
            el = self.ty(t["elem"])
            if off in ptrs:
                aid = ptrs[off]
                g = self.prog.allocs.get(aid if isinstance(aid, int) else aid[0] if isinstance(aid, list) else aid)
                if g is None:
                    return Opq("const-ptr")
                if g["k"] == "mem":
                    if el["k"] == "str":
                        n = num(off + 8, 8, False)
                        return Str(bytes(g["alloc"]["bytes"][:n]).decode("utf8", "replace"))
                    if el["k"] == "slice" and self.ty(el["elem"]).get("size"):
                        a = ("const", aid, t["elem"])
                        n = num(off + 8, 8, False)
                        if n > 64:
                            return Opq("const-ptr")
                        if a not in st.store:
                            st.store[a] = Tup(self.array_of(el["elem"], n), tuple(self.decode(st, g["alloc"], i * self.ty(el["elem"])["size"], el["elem"]) for i in range(n)))
                        return Ptr(a, (0,), n)
                    if el["k"] in ("slice", "dyn"):
                        return Opq("const-ptr")
                    a = ("const", aid, t["elem"])
                    if a not in st.store:
                        try:
                            st.store[a] = self.decode(st, g["alloc"], 0, t["elem"])
                        except Unsupported:
                            return Opq("const-ptr")
                    return Ptr(a, (), None)
                if g["k"] == "static":
                    return Opq(("static", g["name"]))
            return Opq("const-ptr")
        if k == "adt":
            lay = t["layout"]
            vs = lay["variants"]
            if "Multiple" in vs:
                m = vs["Multiple"]
                tagoff = lay["fields"]["Arbitrary"]["offsets"][m["tag_field"]]["num_bits"] // 8
                prim = m["tag"].get("Initialized", m["tag"].get("Union"))["value"]
                if "Int" in prim:
                    n = {"I8": 1, "I16": 2, "I32": 4, "I64": 8, "I128": 16}[prim["Int"]["length"]]
                else:
                    n = 8
                if off + tagoff in ptrs:
                    raw = None
                else:
                    raw = num(off + tagoff, n, False)
                if m["tag_encoding"] == "Direct":
                    if raw is None:
                        raise Unsupported("undecodable constant enum")
                    idx = [i for i, v in enumerate(t["variants"]) if v["discr"] is not None and int(v["discr"]) % (1 << (8 * n)) == raw][0]
                else:
                    ni = m["tag_encoding"]["Niche"]
                    s, e = ni["niche_variants"]["start"], ni["niche_variants"]["end"]
                    idx = ni["untagged_variant"]
                    if raw is not None:
                        rel = (raw - ni["niche_start"]) % (1 << (8 * n))
                        if rel <= e - s:
                            idx = s + rel
                offs = m["variants"][idx]["offsets"]
            else:
                idx = vs["Single"]["index"] if isinstance(vs, dict) and "Single" in vs else 0
                offs = lay["fields"]["Arbitrary"]["offsets"] if isinstance(lay["fields"], dict) and "Arbitrary" in lay["fields"] else []
            fs = tuple(self.decode(st, al, off + o["num_bits"] // 8, f["ty"]) for o, f in zip(offs, t["variants"][idx]["fields"]))
            if t["kind"] == "Enum":
                return self.mk_enum(ty, idx, fs)
            return Tup(ty, fs)
        return Opq(("const", t["s"]))

    def mk_enum(self, ty, idx, fields=()):
        n = len(self.ty(ty)["variants"])
        return En(ty, P(idx), tuple(tuple(fields) if i == idx else None for i in range(n)))

    def array_of(self, elem, n):
        for k, t in self.prog.types.items():
            if t["k"] == "array" and t["elem"] == elem and t["len"] == n:
                return k
        raise Unsupported("constant slice")

    def variant(self, ty, name):
        for i, v in enumerate(self.ty(ty)["variants"]):
            if v["name"] == name:
                return i
        raise KeyError(name)

    # ------------------------------------------------------------ operands, rvalues
    def operand(self, st, o):
        if isinstance(o, dict):
            (k, v), = o.items()
            if k == "Constant":
                return self.const(st, v["const_"])
            if k in ("Copy", "Move"):
                a, path = self.place(st, v)
                r = self.read(st, a, path)
                if k == "Move":
                    if not path:
                        st.store[a] = U
                    elif self.owns(r):
                        try:
                            st.store[a] = self.put(st.store[a], path, U)
                        except Unsupported:
                            pass            # a move through the pointer inside a Box leaves the Box as it is
                return r
            if k == "RuntimeChecks":
                return B(T if v == "OverflowChecks" else F)
        raise Unsupported("operand %s" % str(o)[:60])

    def owns(self, v):
        if isinstance(v, Tup):
            return any(self.owns(f) for f in v.fields)
        if isinstance(v, En):
            return any(self.owns(f) for a in v.alts for f in a or ())
        return isinstance(v, (BoxV, RcV))

    def operand_ty(self, st, o):
        (k, v), = o.items()
        if k == "Constant":
            return v["const_"]["ty"]
        return self.place_ty(st, v)

    def num(self, v):
        if isinstance(v, I):
            return v.p
        raise Unsupported("integer expected, got %r" % (type(v).__name__,))

    def discr(self, v, ty=None):
        if not isinstance(v, En):
            raise Unsupported("discriminant of %s" % type(v).__name__)
        vs = self.ty(v.ty)["variants"]
        ds = []
        n = (self.ty(v.ty).get("size") or 1) * 8
        for i, x in enumerate(vs):
            d = int(x["discr"])
            ds.append(d)
        # discriminants are printed as raw bits; small signed ones need sign extension
        bits = None
        lay = self.ty(v.ty).get("layout")
        if lay and "Multiple" in lay["variants"]:
            prim = lay["variants"]["Multiple"]["tag"].get("Initialized", {}).get("value", {})
            if "Int" in prim and prim["Int"]["signed"]:
                bits = {"I8": 8, "I16": 16, "I32": 32, "I64": 64, "I128": 128}[prim["Int"]["length"]]
        if bits:
            ds = [d - (1 << bits) if d >= 1 << (bits - 1) else d for d in ds]
        if v.tag.is_const():
            return P(ds[v.tag.const()])
        if all(ds[i] == ds[0] + i for i in range(len(ds))):
            return v.tag + ds[0]
        raise Unsupported("symbolic discriminant")

    def in_range(self, p, ty):
        lo, hi = int_range(self.ty(ty))
        return and_(ge(p, lo), le(p, hi))

    def wrap(self, st, p, ty):
        """p reduced modulo the type's range"""
        if p.is_const():
            lo, hi = int_range(self.ty(ty))
            if not lo <= p.const() <= hi:
                self.noted(st, F)
            return P((p.const() - lo) % (hi - lo + 1) + lo)
        ok = self.in_range(p, ty)
        if ok == T or self.solver.entails(st.pc, ok):
            return p
        self.noted(st, ok)
        lo, hi = int_range(self.ty(ty))
        w = fresh("wrap", "I", lo, hi)
        k = fresh("k", "I")
        d = [("eq", p - w - (hi - lo + 1) * k)]
        DEFS[next(iter(w.vars()))] = d
        DEFS[next(iter(k.vars()))] = d
        return w

    def noted(self, st, ok):
        """on a path already known to have left the range the value obligations tell whether it matters"""
        if not st.over:
            self.soft(st, ok, "no integer is wrapped or truncated here")

    def rvalue(self, st, rv, dty, fn):
        (k, v), = rv.items()
        if k == "Use":
            return self.operand(st, v[0] if isinstance(v, list) else v)
        if k in ("Ref", "AddressOf", "Reborrow"):
            pl = v[-1]
            proj = pl["projection"]
            if proj and proj[-1] == "Deref":
                a, path = self.place(st, dict(local=pl["local"], projection=proj[:-1]))
                x = self.read(st, a, path)
                if isinstance(x, (Str, Opq)):
                    return x
            return Ptr(*self.place(st, pl, True))
        if k == "CopyForDeref":
            a, path = self.place(st, v)
            return self.read(st, a, path)
        if k == "Discriminant":
            a, path = self.place(st, v)
            return I(self.discr(self.read(st, a, path)))
        if k == "Aggregate":
            kind, ops = v
            vals = tuple(self.operand(st, o) for o in ops)
            if kind == "Tuple":
                return Tup(dty if vals else "()", vals)
            (ak, av), = kind.items() if isinstance(kind, dict) else ((kind, None),)
            if ak == "Adt":
                t = self.ty(dty)
                if t["kind"] == "Enum":
                    return self.mk_enum(dty, av[1], vals)
                if t["kind"] == "Union":
                    if not t["name"].endswith("::MaybeUninit"):
                        raise Unsupported("union")
                    return U if vals[0] == UNIT else vals[0]
                return Tup(dty, vals)
            if ak in ("Closure", "Array"):
                return Tup(dty, vals)
            if ak == "RawPtr":
                if isinstance(vals[0], Ptr) and len(vals) > 1 and isinstance(vals[1], I) and vals[1].p.is_const():
                    return vals[0]._replace(meta=vals[1].p.const())
                return vals[0]
            raise Unsupported("aggregate %s" % ak)
        if k == "Repeat":
            return Tup(dty, (self.operand(st, v[0]),) * self.array_len(dty))
        if k == "BinaryOp":
            return self.binop(st, v[0], self.operand(st, v[1]), self.operand(st, v[2]), self.operand_ty(st, v[1]))
        if k == "CheckedBinaryOp":
            a, b = self.operand(st, v[1]), self.operand(st, v[2])
            ty = self.operand_ty(st, v[1])
            p = self.arith(v[0], self.num(a), self.num(b))
            flag = not_(self.in_range(p, ty))
            return Tup(dty, (I(p), B(flag)))
        if k == "UnaryOp":
            op, o = v
            x = self.operand(st, o)
            if op == "Not":
                if isinstance(x, B):
                    return B(not_(x.f))
                t = self.ty(self.operand_ty(st, o))
                if t["signed"]:
                    return I(-self.num(x) - 1)
                return I(P(int_range(t)[1]) - self.num(x))
            if op == "Neg":
                return I(self.wrap(st, -self.num(x), self.operand_ty(st, o)))
            if op == "PtrMetadata" and isinstance(x, Ptr):
                return UNIT if x.meta is None else I(P(x.meta))
            raise Unsupported("unary %s" % op)
        if k == "Cast":
            return self.cast(st, v[0], v[1], v[2])
        if k == "Len":
            a, path, n = self.place(st, v, True)
            return I(P(n if n is not None else len(self.read(st, a, path).fields)))
        raise Unsupported("rvalue %s" % k)

    def arith(self, op, a, b):
        op = op.replace("Unchecked", "")
        if op == "Add":
            return a + b
        if op == "Sub":
            return a - b
        if op == "Mul":
            return a * b
        raise Unsupported("checked %s" % op)

    def binop(self, st, op, a, b, ty):
        if isinstance(a, B) and isinstance(b, B):
            if op == "Eq":
                return B(iff(a.f, b.f))
            if op in ("Ne", "BitXor"):
                return B(not_(iff(a.f, b.f)))
            if op == "BitAnd":
                return B(and_(a.f, b.f))
            if op == "BitOr":
                return B(or_(a.f, b.f))
            if op in ("Lt", "Le", "Gt", "Ge"):
                d = {"Lt": and_(not_(a.f), b.f), "Le": or_(not_(a.f), b.f), "Gt": and_(a.f, not_(b.f)), "Ge": or_(a.f, not_(b.f))}
                return B(d[op])
            raise Unsupported("bool %s" % op)
        if op == "Offset" and isinstance(a, Ptr):
            n = self.num(b)
            self.element(st, a)
            return a._replace(path=self.index(a.path, 1, n))
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op in ("Eq", "Ne"):
            same = (a.alloc, a.path) == (b.alloc, b.path)
            if a.alloc == b.alloc and len(a.path) != len(b.path):
                raise Unsupported("pointers into the same object compared")
            return B(T if same == (op == "Eq") else F)
        x, y = self.num(a), self.num(b)
        if op == "Eq":
            return B(eq(x, y))
        if op == "Ne":
            return B(ne(x, y))
        if op == "Lt":
            return B(lt(x, y))
        if op == "Le":
            return B(le(x, y))
        if op == "Gt":
            return B(gt(x, y))
        if op == "Ge":
            return B(ge(x, y))
        if op == "Cmp":
            oty = self.prog.tyname["std::cmp::Ordering"]
            return En(oty, sgn(x - y) + 1, ((), (), ()))
        if op in ("Add", "Sub", "Mul"):
            return I(self.wrap(st, self.arith(op, x, y), ty))
        if op in ("AddUnchecked", "SubUnchecked", "MulUnchecked"):
            p = self.arith(op, x, y)
            self.obligate(st, self.in_range(p, ty), "overflow", "unchecked intrinsic %s stays in range" % op)
            return I(p)
        if op in ("Div", "Rem"):
            if y.is_const() and y.const() != 0:
                q, r = divmod_const(x, y.const(), "trunc")
                return I(q if op == "Div" else r)
            q, r = fresh("q", "I"), fresh("r", "I")
            d = [("eq", y * q + r - x), implies(ge(x), ge(r)), implies(le(x), le(r)),
                 implies(gt(y), and_(lt(r, y), gt(r, -y))), implies(lt(y), and_(lt(r, -y), gt(r, y)))]
            for z in (q, r):
                DEFS[next(iter(z.vars()))] = d
            return I(q if op == "Div" else r)
        if op in ("Shl", "ShlUnchecked") and y.is_const():
            return I(self.wrap(st, x * (1 << y.const()), ty))
        if op in ("Shr", "ShrUnchecked") and y.is_const():
            return I(divmod_const(x, 1 << y.const(), "floor")[0])
        if op == "BitAnd" and y.is_const() and y.const() >= 0 and (y.const() & (y.const() + 1)) == 0:
            return I(divmod_const(x, y.const() + 1, "floor")[1])
        if op == "BitAnd" and x.is_const():
            return self.binop(st, op, b, a, ty)
        if op == "BitAnd" and y == ONE:
            return I(divmod_const(x, 2, "floor")[1])
        if op in ("BitOr", "BitXor") and all(isinstance(z, Poly) for z in (x, y)):
            if not (x.is_const() and y.is_const()):
                st.ghost = dict(st.ghost, inferred=True)
            return self.parity_op(op, x, y, ty)
        raise Unsupported("binary %s" % op)

    def parity_op(self, op, x, y, ty):
        """x|y and x^y: only the low bit (and the sign for signed types) is known exactly"""
        if x.is_const() and y.is_const():
            return I(P(x.const() | y.const() if op == "BitOr" else x.const() ^ y.const()))
        lo, hi = int_range(self.ty(ty))
        w = fresh("bits", "I", lo, hi)
        _, rx = divmod_const(x, 2, "floor")
        _, ry = divmod_const(y, 2, "floor")
        _, rw = divmod_const(w, 2, "floor")
        if op == "BitOr":
            d = [iff(eq(rw), and_(eq(rx), eq(ry))), iff(eq(w), and_(eq(x), eq(y)))]
            if lo < 0:
                d.append(iff(lt(w), or_(lt(x), lt(y))))
        else:
            d = [iff(eq(rw), eq(rx, ry)), iff(eq(w), eq(x, y))]
            if lo < 0:
                d.append(iff(lt(w), not_(iff(lt(x), lt(y)))))
        DEFS[next(iter(w.vars()))] = d
        return I(w)

    def cast(self, st, kind, o, ty):
        x = self.operand(st, o)
        if kind == "IntToInt":
            if isinstance(x, B):
                if x.f in (T, F):
                    return I(P(1 if x.f == T else 0))
                b = fresh("b2i", "I", 0, 1)
                DEFS[next(iter(b.vars()))] = [iff(x.f, ("eq", b - 1))]
                return I(b)
            if isinstance(x, En):
                x = I(self.discr(x))
            return I(self.wrap(st, self.num(x), ty))
        if kind in ("BoxDerefTransmute", "Transmute", "PtrToPtr"):
            if isinstance(x, BoxV):
                t = self.ty(ty)
                return x if t["k"] == "adt" and t["is_box"] else Ptr(x.alloc, (), None)
            if isinstance(x, Ptr):
                return self.recast(st, x, self.operand_ty(st, o), ty)
            if isinstance(x, (Opq, Str, RcV)):
                return x
            if kind == "Transmute" and isinstance(x, I) and self.ty(ty)["k"] == "int":
                return I(self.wrap(st, x.p, ty))
            if isinstance(x, Tup) and kind == "Transmute":
                return x
        if isinstance(kind, dict) and "PointerCoercion" in kind:
            c = kind["PointerCoercion"]
            if c == "Unsize":
                sty = self.operand_ty(st, o)
                return self.unsize(st, x, sty, ty)
            if isinstance(c, dict) and "ReifyFnPointer" in c or c == "ReifyFnPointer" or c == "MutToConstPointer":
                return x
        raise Unsupported("cast %s" % (kind,))

    def unsize(self, st, x, sty, ty):
        if isinstance(x, BoxV):
            c = st.store[x.alloc]
            if isinstance(c, Dyn):
                return x
            dst = self.ty(self.ty(ty)["args"][0]["ty"]) if self.ty(ty)["k"] == "adt" else None
            if dst and dst["k"] == "dyn" and self.fold:
                st.store[x.alloc] = self.fold(self, st, c)
                return x
        if isinstance(x, (Opq, Str)):
            return x
        if isinstance(x, Ptr):
            src, dst = self.pointee(sty), self.pointee(ty)
            if src["k"] == "array" and dst["k"] == "slice":
                return Ptr(x.alloc, x.path + (0,), src["len"])
            while src["k"] == "adt" and src["kind"] == "Struct" and src["variants"][0]["fields"]:
                src = self.ty(src["variants"][0]["fields"][-1]["ty"])
            if src["k"] == "array" and dst["k"] == "adt":
                return x._replace(meta=src["len"])
            return Opq("slice")
        raise Unsupported("unsize")

    def recast(self, st, x, sty, ty):
        """a pointer seen as one of another type; an array and a slice start at their first element"""
        src, dst = self.pointee(sty), self.pointee(ty)
        if src is None or dst is None:
            return x
        if src["k"] == "array" and dst["k"] not in ("array", "slice"):
            return Ptr(x.alloc, x.path + (0,), None) if self.ty(src["elem"])["s"] == dst["s"] else x
        if src["k"] == "slice" and dst["k"] == "array":
            return Ptr(*self.element(st, x)[0], None)
        if src["k"] == "slice" and dst["k"] != "slice":
            return x._replace(meta=None)
        return x

    fold = None

    # ------------------------------------------------------------ obligations
    def where(self, st):
        if not st.frames:
            return "?"
        fr = st.frames[-1]
        f = self.prog.funcs[fr.fn]
        b = f["body"]["blocks"][fr.bb]
        sp = self.prog.span(fr.fn, b["terminator"]["source_info"]["span"])
        for g in reversed(st.frames):
            if self.prog.funcs[g.fn]["local"]:
                bb = self.prog.funcs[g.fn]["body"]["blocks"][g.bb]
                sp = self.prog.span(g.fn, bb["terminator"]["source_info"]["span"])
                return "%s (%s)" % (self.prog.funcs[g.fn]["name"], sp)
        return "%s (%s)" % (f["name"], sp)

    @staticmethod
    def kind(st, kind):
        """a wrong value on a path where an integer left the machine range: the overflow went unnoticed"""
        return "silent" if kind == "value" and st.over else kind

    def obligate(self, st, goal, kind, desc, info=None):
        self.obls.append(Obl(st.pc, goal, self.kind(st, kind), desc, self.where(st), info or {"ghost": st.ghost, "bounded": st.bounded, "notes": st.notes}))
        st.assume(goal)

    def soft(self, st, goal, desc):
        """a fact whose failure alone is no defect (the code may handle it): recorded, not assumed"""
        self.obls.append(Obl(st.pc, goal, "wrap", desc, self.where(st), {"ghost": st.ghost, "bounded": st.bounded, "notes": st.notes}))

    # ------------------------------------------------------------ exploration
    def start(self, fn, st, args):
        b = self.prog.funcs[fn]["body"]
        if b is None:
            raise Unsupported("no body for %s" % self.prog.funcs[fn]["name"])
        if b["arg_count"] != len(args):
            if b.get("spread_arg") or True:
                last = args[-1] if args else None
                if isinstance(last, Tup) and len(args) - 1 + len(last.fields) == b["arg_count"]:
                    args = list(args[:-1]) + list(last.fields)
                else:
                    raise Unsupported("argument count of %s" % self.prog.funcs[fn]["name"])
        d = len(st.frames) - 1
        for k in [k for k in st.store if k[0] == "l" and k[1] == d]:
            del st.store[k]
        for i, a in enumerate(args):
            st.store[("l", d, i + 1)] = a
        self.inlined.add(fn)

    def run(self, fn, states_args):
        """states_args: list of (state, args); explores everything, filling self.outs/self.obls"""
        init = []
        for st, args in states_args:
            st.frames = (Frame(fn, 0, None, None),)
            self.start(fn, st, args)
            init.append(st)
        self.explore(init, None)

    def key(self, st):
        return tuple(self.prog.info(f.fn)[0][f.bb] for f in st.frames)

    def explore(self, init, stop):
        """stop(st) -> True: the state leaves this exploration (returned to the caller)"""
        wait = {}
        heap = []
        left = []

        def push(st):
            if stop and st.hdr is None and stop(st):
                left.append(st)
                return
            loc = st.loc()
            if loc not in wait:
                wait[loc] = []
                heapq.heappush(heap, (self.key(st), loc_key(loc), loc))
            wait[loc].append(st)
        for s in init:
            push(s)
        while heap:
            _, _, loc = heapq.heappop(heap)
            group = wait.pop(loc)
            for st in self.merge(group):
                self.nstates += 1
                if self.nstates > self.max_states:
                    raise Unsupported("state limit")
                fr = st.frames[-1]
                loops = self.prog.info(fr.fn)[2]
                if fr.bb in loops and st.hdr != loc:
                    nxt = self.enter_loop(st)
                else:
                    st.hdr = None
                    nxt = self.block(st)
                for s in nxt:
                    push(s)
        return left

    def enter_loop(self, st):
        if self.loop_rule is None:
            raise Unsupported("loop without rule")
        fr = st.frames[-1]
        kind = self.prog.counted(fr.fn)
        if kind != "iterator":
            n, m, k = len(self.obls), len(self.outs), len(self.prints)
            try:
                return self.loop_rule(self, st.copy())
            except Unsupported:
                if not kind:
                    raise
                del self.obls[n:], self.outs[m:], self.prints[k:]
        # a loop over a short array: followed turn by turn
        k = ("turn",) + st.loc()
        st.cnt[k] = st.cnt.get(k, 0) + 1
        if st.cnt[k] > 100:
            raise Unsupported("loop over many elements")
        st.hdr = st.loc()
        return [st]

    def merge(self, group):
        if len(group) == 1:
            return group
        classes = {}
        for st in group:
            k = (frozenset(x for x in st.store.items() if not isinstance(x[1], Uninit)), st.over, st.bounded, st.frames, st.notes)
            classes.setdefault(k, []).append(st)
        out = []
        for sts in classes.values():
            s0 = sts[0]
            if len(sts) > 1:
                common = set.intersection(*[set(s.pc) for s in sts])
                alts = [and_(*[f for f in s.pc if f not in common]) for s in sts]
                s0 = s0.copy()
                s0.pc = tuple(f for f in s0.pc if f in common)
                for s in sts[1:]:
                    for k, v in s.cnt.items():
                        s0.cnt[k] = max(v, s0.cnt.get(k, 0))
                s0.assume(factor_or(alts))
            out.append(s0)
        return out

    def goto(self, st, bb):
        fr = st.frames[-1]
        st.frames = st.frames[:-1] + (fr._replace(bb=bb),)
        return st

    def feasible(self, st):
        return self.solver.feasible(st.pc)

    def branch(self, st, f):
        """states for f true / f false (None when infeasible)"""
        if f == T:
            return st, None
        if f == F:
            return None, st
        if f in st.pc:
            return st, None
        g = not_(f)
        if g in st.pc:
            return None, st
        a, b = st.copy(), st.copy()
        a.assume(f)
        b.assume(g)
        fa = self.feasible(a)
        fb = self.feasible(b)
        return (a if fa else None), (b if fb else None)

    def block(self, st):
        fr = st.frames[-1]
        body = self.prog.funcs[fr.fn]["body"]
        blk = body["blocks"][fr.bb]
        term = blk["terminator"]["kind"]
        for s in blk["statements"]:
            self.statement(st, s["kind"], fr.fn)
        return self.terminator(st, term)

    def statement(self, st, k, fn):
        if isinstance(k, str):
            return
        (t, v), = k.items()
        if t == "Assign":
            pl, rv = v
            dty = self.place_ty(st, pl)
            val = self.rvalue(st, rv, dty, fn)
            a, path = self.place(st, pl)
            base = self.prog.funcs[st.frames[-1].fn]["body"]["locals"][pl["local"]]["ty"] if a[0] == "l" else None
            self.write(st, a, path, val, base)
        elif t in ("StorageDead", "StorageLive"):
            st.store.pop(("l", len(st.frames) - 1, v), None)
        elif t == "SetDiscriminant":
            raise Unsupported("SetDiscriminant")
        elif t == "Intrinsic":
            if isinstance(v, dict) and "Assume" in v:
                return
            if isinstance(v, dict) and "CopyNonOverlapping" in v:
                c = {n: self.operand(st, o) for n, o in v["CopyNonOverlapping"].items()}
                return self.copy_memory(st, c["src"], c["dst"], c["count"])
            raise Unsupported("intrinsic statement")
        # FakeRead, PlaceMention, Coverage, Nop, ...: no effect

    def copy_memory(self, st, src, dst, count):
        n = self.num(count)
        if n != ONE or not isinstance(src, Ptr) or not isinstance(dst, Ptr):
            raise Unsupported("copy of raw memory")
        self.write(st, dst.alloc, dst.path, st.store[src.alloc] if not src.path else self.read(st, src.alloc, src.path))

    def terminator(self, st, t):
        if t == "Return":
            return self.ret(st)
        if t == "Unreachable":
            self.obligate(st, F, "panic", "unreachable code is not reached")
            return []
        if isinstance(t, str):
            raise Unsupported("terminator %s" % t)
        (k, v), = t.items()
        if k == "Goto":
            return [self.goto(st, v["target"])]
        if k == "SwitchInt":
            return self.switch(st, v)
        if k == "Drop":
            if self.prog.drops:
                raise Unsupported("the crate implements Drop")
            a, path = self.place(st, v["place"])
            try:
                x = self.read(st, a, path)
            except Unsupported:
                x = None
            if x is not None:
                self.drop(st, x)
            if not path:
                st.store[a] = U
            return [self.goto(st, v["target"])]
        if k == "Assert":
            c = self.operand(st, v["cond"])
            ok = c.f if v["expected"] else not_(c.f)
            msg = v["msg"]
            mk = msg if isinstance(msg, str) else next(iter(msg))
            kind = "overflow" if mk.startswith("Overflow") else "panic"
            if ok != T:
                self.obligate(st, ok, kind, "arithmetic never fails here: %s%s" % (mk, " " + str(msg[mk][0]) if mk == "Overflow" else ""))
            return [self.goto(st, v["target"])]
        if k == "Call":
            return self.call(st, v)
        raise Unsupported("terminator %s" % k)

    def switch(self, st, v):
        d = self.operand(st, v["discr"])
        br = [(int(val), bb) for val, bb in v["targets"]["branches"]]
        other = v["targets"]["otherwise"]
        out = []
        cur = st
        if isinstance(d, B):
            for val, bb in br:
                f = d.f if val else not_(d.f)
                y, cur = self.branch(cur, f)
                if y is not None:
                    out.append(self.goto(y, bb))
                if cur is None:
                    break
        else:
            p = self.num(d)
            n = (1 << 64)
            for val, bb in br:
                if p.is_const():
                    c = p.const()
                    if c == val or (c < 0 and any(c + (1 << w) == val for w in (8, 16, 32, 64, 128))):
                        return [self.goto(cur, bb)]
                    continue
                vv = val
                if val >= 128 and not isinstance(d, B):
                    # negative values of narrow signed types are printed as raw bits
                    w = self.width_of(st, v["discr"])
                    if w and w[1] and val >= 1 << (w[0] - 1):
                        vv = val - (1 << w[0])
                y, cur = self.branch(cur, eq(p, vv))
                if y is not None:
                    out.append(self.goto(y, bb))
                if cur is None:
                    break
        if cur is not None:
            blk = self.prog.funcs[cur.frames[-1].fn]["body"]["blocks"][other]
            if blk["terminator"]["kind"] == "Unreachable" and not [s for s in blk["statements"] if "Assign" in s["kind"]]:
                # exhaustive match: the tag bounds make this branch infeasible; do not report it
                pass
            else:
                out.append(self.goto(cur, other))
        return out

    def width_of(self, st, o):
        t = self.ty(self.operand_ty(st, o))
        if t["k"] == "int":
            return t["bytes"] * 8, t["signed"]
        return None

    def drop(self, st, v):
        if isinstance(v, Tup):
            for f in v.fields:
                self.drop(st, f)
        elif isinstance(v, En):
            if v.tag.is_const():
                for f in v.alts[v.tag.const()] or ():
                    self.drop(st, f)
            else:
                for a in v.alts:
                    for f in a or ():
                        if self.has_rc(st, f):
                            raise Unsupported("conditional drop of a shared object")
        elif isinstance(v, BoxV):
            c = st.store.pop(v.alloc, None)
            if c is not None:
                self.drop(st, c)
        elif isinstance(v, RcV):
            n = st.store.get(("rc", v.alloc))
            if n is None:
                raise Unsupported("drop of unknown shared object")
            if n <= 1:
                c = st.store.pop(v.alloc, None)
                st.store.pop(("rc", v.alloc), None)
                if c is not None:
                    self.drop(st, c)
            else:
                st.store[("rc", v.alloc)] = n - 1

    def has_rc(self, st, v):
        if isinstance(v, RcV):
            return True
        if isinstance(v, Tup):
            return any(self.has_rc(st, f) for f in v.fields)
        if isinstance(v, En):
            return any(self.has_rc(st, f) for a in v.alts for f in a or ())
        return False

    def ret(self, st):
        d = len(st.frames) - 1
        v = st.store.get(("l", d, 0), UNIT)
        if isinstance(v, Uninit):
            v = UNIT
        if d == 0:
            self.outs.append(Out(st, "return", v))
            return []
        fr = st.frames[-1]
        for k in [k for k in st.store if k[0] == "l" and k[1] == d]:
            del st.store[k]
        st.frames = st.frames[:-1]
        return [self.finish(st, fr.dest, fr.target, v)]

    def finish(self, st, dest, target, v):
        a, path, base = dest
        self.write(st, a, path, v, base)
        return self.goto(st, target)

    def panic(self, st, msg):
        self.outs.append(Out(st, "panic", msg))
        return []

    def is_closure(self, body):
        if not body["arg_count"]:
            return False
        t = self.ty(body["locals"][1]["ty"])
        if t["k"] == "ref":
            t = self.ty(t["elem"])
        return t["k"] == "closure"

    def axiom(self, f):
        import builtins_mir
        return builtins_mir.lookup(f)

    def call(self, st, v):
        f = self.operand(st, v["func"])
        if not isinstance(f, FnV):
            raise Unsupported("indirect call")
        inst = self.ty(f.inst).get("inst")
        if inst is None:
            raise Unsupported("unresolved call %s" % self.ty(f.inst)["s"])
        args = [self.operand(st, a) for a in v["args"]]
        F_ = self.prog.funcs[inst]
        if v["target"] is not None:
            a, path = self.place(st, v["destination"])
            base = self.prog.funcs[st.frames[-1].fn]["body"]["locals"][v["destination"]["local"]]["ty"] if a[0] == "l" else None
            dest = (a, path, base)
        else:
            dest = None
        rty = self.place_ty(st, v["destination"])
        # contracts
        c = self.contracts.get(inst)
        if c is not None and not (inst == self.root and len(st.frames) == 0):
            res = c.apply(self, st, args, rty)
            return [self.finish(s, dest, v["target"], r) for s, r in res if dest is not None]
        b = self.axiom(F_)
        if b is not None:
            self.builtins_used.add(F_["def"] or F_["name"])
            res = b(self, st, args, rty, F_)
            return [self.finish(s, dest, v["target"], r) for s, r in res if dest is not None]
        if F_["body"] is None:
            raise Unsupported("call to %s" % F_["name"])
        depth = sum(1 for fr in st.frames if fr.fn == inst)
        if depth:
            if not self.unroll:
                raise NeedContract(inst)
            if depth >= self.unroll:
                raise Unsupported("recursion deeper than %d" % self.unroll)
        if len(st.frames) > 60:
            raise Unsupported("call depth")
        if self.is_closure(F_["body"]):
            # "rust-call": the arguments after the closure arrive as one tuple
            if len(args) != 2 or not isinstance(args[1], Tup):
                raise Unsupported("closure call")
            args = [args[0]] + list(args[1].fields)
        if len(args) != F_["body"]["arg_count"]:
            raise Unsupported("argument count of %s" % F_["name"])
        st.frames = st.frames + (Frame(inst, 0, dest, v["target"]),)
        self.start(inst, st, args)
        return [st]


def loc_key(loc):
    return tuple((a, b) for a, b, _ in loc)


def factor_or(alts):
    """or of conjunctions, with the a|!a redundancy removed where it is obvious"""
    alts = [set(a[1]) if a[0] == "and" else {a} for a in alts]
    changed = True
    while changed and len(alts) > 1:
        changed = False
        for i in range(len(alts)):
            for j in range(i + 1, len(alts)):
                a, b = alts[i], alts[j]
                da, db = a - b, b - a
                if len(da) == 1 and len(db) == 1:
                    x, = da
                    y, = db
                    if not_(x) == y:
                        alts[i] = a & b
                        del alts[j]
                        changed = True
                        break
                elif not da:
                    del alts[j]
                    changed = True
                    break
                elif not db:
                    del alts[i]
                    changed = True
                    break
                elif len(da) == 1:
                    # a = c & x ; b = c & !x & r   ->   c & (x | r)   : keep c&x, drop !x from b
                    x, = da
                    if not_(x) in db:
                        alts[j] = b - {not_(x)}
                        changed = True
                        break
                elif len(db) == 1:
                    y, = db
                    if not_(y) in da:
                        alts[i] = a - {not_(y)}
                        changed = True
                        break
            if changed:
                break
    return or_(*[and_(*a) for a in alts])
