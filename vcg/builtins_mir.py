"""Library functions given by axiom (their meaning is the documented one) instead of being inlined."""
import re
from terms import *
from mir import Unsupported
from execu import *


def ok1(v):
    return lambda ex, st, a, rty, f: [(st, v)]


def opt(ex, rty, v=None):
    if v is None:
        return ex.mk_enum(rty, ex.variant(rty, "None"))
    return ex.mk_enum(rty, ex.variant(rty, "Some"), (v,))


def int_ty(ex, f):
    m = re.search(r"<impl (\w+)>", f["name"])
    return ex.prog.tyname.get(m.group(1)) if m else None


def rng(ty_name):
    n = {"isize": 64, "usize": 64}.get(ty_name) or int(ty_name[1:])
    return (-(1 << (n - 1)), (1 << (n - 1)) - 1) if ty_name[0] == "i" else (0, (1 << n) - 1)


def impl_int(f):
    m = re.search(r"<impl ([iu]\w+)>", f["name"])
    if not m:
        raise Unsupported("builtin %s" % f["name"])
    return m.group(1)


def arith_of(ex, name, a, b):
    if name == "add":
        return a + b
    if name == "sub":
        return a - b
    if name == "mul":
        return a * b
    raise Unsupported(name)


def checked(op):
    def go(ex, st, a, rty, f):
        t = impl_int(f)
        lo, hi = rng(t)
        if op == "neg":
            p = -ex.num(a[0])
        elif op == "abs":
            s, n = ex.branch(st, ge(ex.num(a[0])))
            out = []
            if s is not None:
                out.append((s, opt(ex, rty, a[0])))
            if n is not None:
                out += in_or_over(ex, n, -ex.num(a[0]), lo, hi, rty)
            return out
        else:
            p = arith_of(ex, op, ex.num(a[0]), ex.num(a[1]))
        return in_or_over(ex, st, p, lo, hi, rty)
    return go


def in_or_over(ex, st, p, lo, hi, rty):
    s, n = ex.branch(st, and_(ge(p, lo), le(p, hi)))
    out = []
    if s is not None:
        out.append((s, opt(ex, rty, I(p))))
    if n is not None:
        overflowed(n, lo, hi)
        out.append((n, opt(ex, rty)))
    return out


def overflowed(st, lo, hi):
    """the result does not fit a full machine integer (a narrower type is no excuse)"""
    if hi - lo >= (1 << 64) - 1:
        st.over = True


def checked_divlike(op):
    def go(ex, st, a, rty, f):
        x, y = ex.num(a[0]), ex.num(a[1])
        lo, hi = rng(impl_int(f))
        out = []
        z, st = ex.branch(st, eq(y))
        if z is not None:
            out.append((z, opt(ex, rty)))
        if st is not None:
            if lo < 0:
                o, st = ex.branch(st, and_(eq(x, lo), eq(y, -1)))
                if o is not None:
                    overflowed(o, lo, hi)
                    out.append((o, opt(ex, rty)))
            if st is not None:
                t = ex.prog.tyname[impl_int(f)]
                out.append((st, opt(ex, rty, ex.binop(st, op, a[0], a[1], t))))
        return out
    return go


def overflowing(op):
    def go(ex, st, a, rty, f):
        t = impl_int(f)
        lo, hi = rng(t)
        p = -ex.num(a[0]) if op == "neg" else arith_of(ex, op, ex.num(a[0]), ex.num(a[1]))
        s, n = ex.branch(st, and_(ge(p, lo), le(p, hi)))
        out = []
        if s is not None:
            out.append((s, Tup(rty, (I(p), B(F)))))
        if n is not None:
            overflowed(n, lo, hi)
            out.append((n, Tup(rty, (I(ex.wrap(n, p, ex.prog.tyname[t])), B(T)))))
        return out
    return go


def wrapping(op):
    def go(ex, st, a, rty, f):
        p = -ex.num(a[0]) if op == "neg" else arith_of(ex, op, ex.num(a[0]), ex.num(a[1]))
        lo, hi = rng(impl_int(f))
        s, n = ex.branch(st, and_(ge(p, lo), le(p, hi)))
        out = [(s, I(p))] if s is not None else []
        if n is not None:
            overflowed(n, lo, hi)
            out.append((n, I(ex.wrap(n, p, rty))))
        return out
    return go


def saturating(op):
    def go(ex, st, a, rty, f):
        lo, hi = rng(impl_int(f))
        p = -ex.num(a[0]) if op == "neg" else arith_of(ex, op, ex.num(a[0]), ex.num(a[1]))
        out = []
        s, st = ex.branch(st, and_(ge(p, lo), le(p, hi)))
        if s is not None:
            out.append((s, I(p)))
        if st is not None:
            overflowed(st, lo, hi)
            if not st.over:
                ex.soft(st, F, "no integer is cut to the machine range here")
            s, n = ex.branch(st, gt(p, hi))
            if s is not None:
                out.append((s, I(P(hi))))
            if n is not None:
                out.append((n, I(P(lo))))
        return out
    return go


def unsigned_abs(ex, st, a, rty, f):
    x = ex.num(a[0])
    s, n = ex.branch(st, ge(x))
    return [(t, I(v)) for t, v in ((s, x), (n, -x)) if t is not None]


def int_pow(ex, st, a, rty, f):
    x, n = ex.num(a[0]), ex.num(a[1])
    if not (n.is_const() and 0 <= n.const() <= 64):
        raise Unsupported("pow with a variable exponent")
    p = ONE
    for _ in range(n.const()):
        p = p * x
    lo, hi = rng(impl_int(f))
    ex.obligate(st, and_(le(p, hi), ge(p, lo)), "overflow", "pow does not overflow")
    return [(st, I(p))]


def euclid(part):
    def go(ex, st, a, rty, f):
        x, y = ex.num(a[0]), ex.num(a[1])
        if not (y.is_const() and y.const() > 0):
            raise Unsupported("euclidean division by a variable")
        return [(st, I(divmod_const(x, y.const(), "floor")[part]))]
    return go


def trailing_zeros(ex, st, a, rty, f):
    x = ex.num(a[0])
    if impl_int(f) not in ("isize", "usize", "i64", "u64"):
        raise Unsupported("trailing_zeros of %s" % impl_int(f))
    if x.is_const():
        n = x.const()
        return [(st, I(P((n & -n).bit_length() - 1 if n else 64)))]
    # known exactly: 0 for odd, 64 for zero
    st.ghost = dict(st.ghost, inferred=True)
    t = fresh("tz", "I", 0, 64)
    DEFS[next(iter(t.vars()))] = [iff(eq(t), eq(divmod_const(x, 2, "floor")[1], 1)), iff(eq(t, 64), eq(x))]
    return [(st, I(t))]


def int_abs(ex, st, a, rty, f):
    x = ex.num(a[0])
    s, n = ex.branch(st, ge(x))
    out = [(s, I(x))] if s is not None else []
    if n is not None:
        lo, hi = rng(impl_int(f))
        ex.obligate(n, le(-x, hi), "overflow", "abs does not overflow")
        out.append((n, I(-x)))
    return out


def abs_diff(ex, st, a, rty, f):
    x, y = ex.num(a[0]), ex.num(a[1])
    s, n = ex.branch(st, ge(x, y))
    return [(t, I(v)) for t, v in ((s, x - y), (n, y - x)) if t is not None]


def signum(ex, st, a, rty, f):
    return [(st, I(sgn(ex.num(a[0]))))]


def is_neg(ex, st, a, rty, f):
    return [(st, B(lt(ex.num(a[0]))))]


def is_pos(ex, st, a, rty, f):
    return [(st, B(gt(ex.num(a[0]))))]


def max_value(hi):
    def go(ex, st, a, rty, f):
        return [(st, I(P(rng(impl_int(f))[1 if hi else 0])))]
    return go


def box_new(ex, st, a, rty, f):
    return [(st, BoxV(ex.alloc(st, "box", a[0])))]


def rc_new(ex, st, a, rty, f):
    al = ex.alloc(st, "rc", a[0])
    st.store[("rc", al)] = 1
    return [(st, RcV(al))]


def rc_of(ex, st, v):
    if isinstance(v, Ptr):
        v = ex.read(st, v.alloc, v.path)
    if not isinstance(v, RcV):
        raise Unsupported("shared pointer expected")
    return v


def rc_clone(ex, st, a, rty, f):
    v = rc_of(ex, st, a[0])
    st.store[("rc", v.alloc)] += 1
    return [(st, v)]


def rc_get_mut(ex, st, a, rty, f):
    v = rc_of(ex, st, a[0])
    if st.store[("rc", v.alloc)] == 1:
        return [(st, opt(ex, rty, Ptr(v.alloc, (), None)))]
    return [(st, opt(ex, rty))]


def rc_try_unwrap(ex, st, a, rty, f):
    v = a[0]
    if st.store[("rc", v.alloc)] == 1:
        c = st.store.pop(v.alloc)
        st.store.pop(("rc", v.alloc))
        return [(st, ex.mk_enum(rty, ex.variant(rty, "Ok"), (c,)))]
    return [(st, ex.mk_enum(rty, ex.variant(rty, "Err"), (v,)))]


def rc_into_inner(ex, st, a, rty, f):
    v = a[0]
    if st.store[("rc", v.alloc)] == 1:
        c = st.store.pop(v.alloc)
        st.store.pop(("rc", v.alloc))
        return [(st, opt(ex, rty, c))]
    ex.drop(st, v)
    return [(st, opt(ex, rty))]


def rc_count(ex, st, a, rty, f):
    v = rc_of(ex, st, a[0])
    return [(st, I(P(st.store[("rc", v.alloc)])))]


def rc_ptr_eq(ex, st, a, rty, f):
    return [(st, B(T if rc_of(ex, st, a[0]) == rc_of(ex, st, a[1]) else F))]


def deref(ex, st, a, rty, f):
    v = ex.read(st, a[0].alloc, a[0].path) if isinstance(a[0], Ptr) else a[0]
    if isinstance(v, (BoxV, RcV)):
        return [(st, Ptr(v.alloc, (), None))]
    raise Unsupported("deref of %r" % (v,))


def swap(ex, st, a, rty, f):
    p, q = a
    x, y = ex.read(st, p.alloc, p.path), ex.read(st, q.alloc, q.path)
    ex.write(st, p.alloc, p.path, y)
    ex.write(st, q.alloc, q.path, x)
    return [(st, UNIT)]


def replace(ex, st, a, rty, f):
    x = ex.read(st, a[0].alloc, a[0].path)
    ex.write(st, a[0].alloc, a[0].path, a[1])
    return [(st, x)]


def opt_take(ex, st, a, rty, f):
    x = ex.read(st, a[0].alloc, a[0].path)
    ex.write(st, a[0].alloc, a[0].path, opt(ex, rty))
    return [(st, x)]


def ptr_read(ex, st, a, rty, f):
    return [(st, ex.read(st, a[0].alloc, a[0].path))]


def ptr_write(ex, st, a, rty, f):
    ex.write(st, a[0].alloc, a[0].path, a[1])
    return [(st, UNIT)]


def ptr_copy(ex, st, a, rty, f):
    ex.copy_memory(st, *a)
    return [(st, UNIT)]


def ptr_distance(ex, st, a, rty, f):
    (x, i), (y, j) = ex.element(st, a[0]), ex.element(st, a[1])
    if x != y:
        raise Unsupported("distance of unrelated pointers")
    return [(st, I(P(i - j)))]


def mem_drop(ex, st, a, rty, f):
    ex.drop(st, a[0])
    return [(st, UNIT)]


def mem_forget(ex, st, a, rty, f):
    return [(st, UNIT)]


def panic_any(ex, st, a, rty, f):
    msg = None
    for x in a:
        if isinstance(x, Str):
            msg = x.text
        elif isinstance(x, Opq) and isinstance(x.what, tuple) and x.what[0] == "fmt":
            msg = x.what[1]
    ex.panic(st, msg)
    return []


def unwrap_failed(ex, st, a, rty, f):
    ex.panic(st, "unwrap on None/Err")
    return []


def opaque(ex, st, a, rty, f):
    if ex.ty(rty)["k"] == "tuple" and not ex.ty(rty)["elems"]:
        return [(st, UNIT)]
    return [(st, Opq(f["name"]))]


def fmt_args(ex, st, a, rty, f):
    for x in a:
        if isinstance(x, Str):
            return [(st, Opq(("fmt", x.text)))]
    return [(st, Opq("fmt"))]


def out_io(ex, st, a, rty, f):
    ex.prints.append((ex.where(st), f["name"]))
    ex.obls.append(Obl(st.pc, F, "effect", "%s is never reached" % f["name"], ex.where(st), {"ghost": st.ghost, "bounded": st.bounded}))
    return opaque(ex, st, a, rty, f)


def try_from_int(ex, st, a, rty, f):
    t = ex.ty(rty)
    okv = t["variants"][ex.variant(rty, "Ok")]["fields"][0]["ty"]
    x = ex.num(a[0])
    s, n = ex.branch(st, ex.in_range(x, okv))
    out = []
    if s is not None:
        out.append((s, ex.mk_enum(rty, ex.variant(rty, "Ok"), (I(x),))))
    if n is not None:
        overflowed(n, *int_range(ex.ty(okv)))
        out.append((n, ex.mk_enum(rty, ex.variant(rty, "Err"), (Opq("TryFromIntError"),))))
    return out


def into_int(ex, st, a, rty, f):
    if isinstance(a[0], I) and ex.ty(rty)["k"] == "int":
        return [(st, a[0])]
    if isinstance(a[0], BoxV):
        return [(st, a[0])]
    raise Unsupported("conversion %s" % f["name"])


def minmax(isMin):
    def go(ex, st, a, rty, f):
        x, y = ex.num(a[0]), ex.num(a[1])
        s, n = ex.branch(st, le(x, y) if isMin else gt(x, y))
        return [(t, I(v)) for t, v in ((s, x), (n, y)) if t is not None]
    return go


RULES = [
    (r"<impl [iu]\w+>::checked_(add|sub|mul|neg|abs)$", lambda m: checked(m.group(1))),
    (r"<impl [iu]\w+>::checked_(div|rem)$", lambda m: checked_divlike({"div": "Div", "rem": "Rem"}[m.group(1)])),
    (r"<impl [iu]\w+>::overflowing_(add|sub|mul|neg)$", lambda m: overflowing(m.group(1))),
    (r"<impl [iu]\w+>::wrapping_(add|sub|mul|neg)$", lambda m: wrapping(m.group(1))),
    (r"<impl [iu]\w+>::saturating_(add|sub|mul|neg)$", lambda m: saturating(m.group(1))),
    (r"<impl [iu]\w+>::unsigned_abs$", lambda m: unsigned_abs),
    (r"<impl [iu]\w+>::abs_diff$", lambda m: abs_diff),
    (r"<impl [iu]\w+>::pow$", lambda m: int_pow),
    (r"<impl [iu]\w+>::rem_euclid$", lambda m: euclid(1)),
    (r"<impl [iu]\w+>::div_euclid$", lambda m: euclid(0)),
    (r"<impl [iu]\w+>::trailing_zeros$", lambda m: trailing_zeros),
    (r"<impl i\w+>::abs$", lambda m: int_abs),
    (r"<impl i\w+>::signum$", lambda m: signum),
    (r"<impl i\w+>::is_negative$", lambda m: is_neg),
    (r"<impl i\w+>::is_positive$", lambda m: is_pos),
    (r"<impl [iu]\w+>::max_value$", lambda m: max_value(True)),
    (r"<impl [iu]\w+>::min_value$", lambda m: max_value(False)),
    (r"^std::boxed::Box::<.*>::new$", lambda m: box_new),
    (r"^std::rc::Rc::<.*>::new$", lambda m: rc_new),
    (r"^<std::rc::Rc<.*> as std::clone::Clone>::clone$", lambda m: rc_clone),
    (r"^std::rc::Rc::<.*>::get_mut$", lambda m: rc_get_mut),
    (r"^std::rc::Rc::<.*>::try_unwrap$", lambda m: rc_try_unwrap),
    (r"^std::rc::Rc::<.*>::into_inner$", lambda m: rc_into_inner),
    (r"^std::rc::Rc::<.*>::strong_count$", lambda m: rc_count),
    (r"^std::rc::Rc::<.*>::ptr_eq$", lambda m: rc_ptr_eq),
    (r"^<std::(rc::Rc|boxed::Box)<.*> as std::(ops::Deref|ops::DerefMut|convert::AsRef.*|convert::AsMut.*|borrow::Borrow.*|borrow::BorrowMut.*)>::(deref|deref_mut|as_ref|as_mut|borrow|borrow_mut)$", lambda m: deref),
    (r"^std::mem::swap::<", lambda m: swap),
    (r"typed_swap_nonoverlapping", lambda m: swap),
    (r"^std::mem::replace::<", lambda m: replace),
    (r"^std::option::Option::<.*>::take$", lambda m: opt_take),
    (r"^std::option::Option::<.*>::replace$", lambda m: None),
    (r"(^std::ptr::read::<|intrinsics::read_via_copy)", lambda m: ptr_read),
    (r"(^std::ptr::write::<|intrinsics::write_via_move)", lambda m: ptr_write),
    (r"intrinsics::copy(_nonoverlapping)?::<", lambda m: ptr_copy),
    (r"intrinsics::ptr_offset_from(_unsigned)?::<", lambda m: ptr_distance),
    (r"^std::mem::drop::<", lambda m: mem_drop),
    (r"^std::mem::forget::<", lambda m: mem_forget),
    (r"^std::rt::begin_panic|^core::panicking::panic$|^std::panicking::panic$|^core::panicking::panic_(fmt|display|explicit|str).*|^std::rt::panic_(fmt|display).*|panicking::(panic_fmt|panic_display.*|panic_str.*|panic_explicit|unreachable_display.*|assert_failed.*|panic_nounwind.*|panic|begin_panic.*)$", lambda m: panic_any),
    (r"(option|result)::(unwrap_failed|expect_failed)$", lambda m: unwrap_failed),
    (r"intrinsics::(cold_path|caller_location|assume|likely|unlikely|assert_inhabited)", lambda m: opaque),
    (r"^std::hint::black_box", lambda m: lambda ex, st, a, rty, f: [(st, a[0])]),
    (r"std::fmt::Arguments::<.*>::(new|from|as_)|std::fmt::Arguments.*::new", lambda m: fmt_args),
    (r"std::fmt::rt::|std::fmt::Formatter|core::fmt::", lambda m: opaque),
    (r"std::io::(_print|_eprint|stdout|stderr|Write)|std::io::", lambda m: out_io),
    (r"^<[iu]\w+ as std::convert::TryFrom<[iu]\w+>>::try_from$|impl std::convert::TryFrom<[iu]\w+> for [iu]\w+>::try_from$|<[iu]\w+ as std::convert::TryInto<[iu]\w+>>::try_into$", lambda m: try_from_int),
    (r"impl std::convert::From<[iu]\w+> for [iu]\w+>::from$|<[iu]\w+ as std::convert::Into<[iu]\w+>>::into$", lambda m: into_int),
    (r"^<std::boxed::Box<.*> as std::convert::(Into<std::boxed::Box<.*>>>::into|From<std::boxed::Box.*>>::from)$", lambda m: into_int),
    (r"^<[iu]\w+ as std::cmp::Ord>::(min|max)$|impl std::cmp::Ord for [iu]\w+>::(min|max)$|^std::cmp::(min|max)::<[iu]\w+>$", lambda m: minmax((m.group(1) or m.group(2) or m.group(3)) == "min")),
]
RULES = [(re.compile(r), g) for r, g in RULES]
_cache = {}


def lookup(f):
    n = f["name"]
    if n not in _cache:
        r = None
        if not f["local"]:
            for rx, g in RULES:
                m = rx.search(n)
                if m:
                    r = g(m)
                    break
        _cache[n] = r
    return _cache[n]


def is_output(f):
    return lookup(f) in (out_io, fmt_args, opaque, panic_any, unwrap_failed)
