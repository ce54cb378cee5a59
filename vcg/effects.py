"""C11: every function reachable from the public API is under the contract "no effect on the process".

One obligation per call site (the callee is pure: it has a body that is itself checked, or is on the list
of trusted pure library functions) and one per static.  A forbidden call is a failed obligation; a library
function on neither list is undecided.
"""
import re

DENY = re.compile(r"""^<?(&?(mut\ )?)?(
    std::(io|fs|env|process|net|thread|time|sync|os|sys|backtrace|alloc::System)\b
  | core::(sync|arch)\b | alloc::sync\b | core::intrinsics::atomic | std::intrinsics::atomic )""", re.X)
# names inside the denied modules that only report an error value or end a panic
SAFE = re.compile(r"std::sys::backtrace::__rust_(begin|end)_short_backtrace|std::sync::Arc\b|alloc::sync::Arc\b|std::io::Error|std::time::Duration")
ALLOW = re.compile(r"""^<?(&?(mut\ )?)?\[?(
    (std|core|alloc)::(num|option|result|cmp|mem|ops|clone|convert|boxed|rc|panicking|panic|rt|intrinsics|iter|slice|vec|string|
      ptr|hint|array|default|borrow|cell|bool|char|str|marker|any|collections|hash|ascii|fmt|primitive|error|pin|range|alloc|raw_vec|ub_checks|unicode|tuple)\b
  | (isize|usize|[iu](8|16|32|64|128)|bool|char|str|f32|f64|T)\b | [(*!\[] )""", re.X)

# panicking is an allowed outcome; what the runtime does about it is not the library's effect
PANIC = re.compile(r"^<?(std|core)::(panicking|panic|rt)::(begin_panic|panic)|^(std|core)::panicking::|(unwrap|expect)_failed")


class Site:
    def __init__(self, where, what, verdict, why):
        self.where, self.what, self.verdict, self.why = where, what, verdict, why


def callee(prog, body, func):
    if isinstance(func, dict) and "Constant" in func:
        t = func["Constant"]["const_"]["ty"]
        return prog.types[t].get("inst"), prog.types[t]
    return None, None


def mentioned(prog, tys):
    """closures and function items among generic arguments (they may be called by the callee)"""
    for a in tys or ():
        t = prog.types.get(a.get("ty")) if isinstance(a, dict) else None
        if t and t["k"] in ("closure", "fndef") and t.get("inst") is not None:
            yield t["inst"]


def analyse(prog, published=None):
    """(sites, functions checked)"""
    sites = []
    seen, todo = set(), []

    def push(fn):
        if fn not in seen:
            seen.add(fn)
            todo.append(fn)
    for fn in prog.public:
        push(fn)
    for fn in prog.drops:
        push(fn)
    checked = []
    while todo:
        fn = todo.pop()
        f = prog.funcs[fn]
        b = f["body"]
        for i in mentioned(prog, f["args"]):
            push(i)
        if f["kind"] == "virtual":
            tail = f["name"].rsplit("::", 1)[-1]
            tr = re.search(r" as ([\w:]+)", f["name"])
            for k, g in prog.funcs.items():
                if g["local"] and g["body"] and g["name"].endswith("::" + tail) and (tr is None or " as " + tr.group(1) in g["name"]):
                    if published is None or not g["name"].endswith("Strategy>::egest") or prog.types[g["body"]["locals"][1]["ty"]].get("elem") in published:
                        push(k)
            continue
        if b is None:
            continue
        checked.append(f["name"])
        for blk in b["blocks"]:
            for s in blk["statements"]:
                for i in consts(prog, s["kind"]):
                    push(i)
                for a in statics(prog, s["kind"]):
                    sites.append(static_site(prog, fn, s, a))
            t = blk["terminator"]
            k = t["kind"]
            where = "%s (%s)" % (f["name"], prog.span(fn, t["source_info"]["span"]))
            if isinstance(k, dict) and "InlineAsm" in k:
                sites.append(Site(where, "inline assembly", "bad", "inline assembly"))
            if not (isinstance(k, dict) and "Call" in k):
                continue
            for i in consts(prog, k["Call"]["args"]):
                push(i)
            for a in statics(prog, k["Call"]["args"]):
                sites.append(static_site(prog, fn, t, a))
            i, ty = callee(prog, b, k["Call"]["func"])
            if i is None:
                # call of a function pointer: every function whose address is taken is checked
                sites.append(Site(where, "call through a pointer", "ok", "all functions whose address is taken are checked"))
                continue
            g = prog.funcs[i]
            n, dn = g["name"], g["def"]
            if g["local"] and g["body"] is None and g["kind"] != "virtual":
                sites.append(Site(where, n, "bad", "foreign function"))
                continue
            if not g["local"] and (DENY.search(n) or DENY.search(dn)) and not SAFE.search(n):
                sites.append(Site(where, n, "bad", "effect on the process or shared state"))
                continue
            if not g["local"] and PANIC.search(n):
                sites.append(Site(where, n, "ok", "panic"))
                continue
            if g["local"] or g["kind"] in ("intrinsic", "virtual"):
                sites.append(Site(where, n, "ok", "checked" if g["local"] else g["kind"]))
                push(i)
            elif g["body"] is not None:
                sites.append(Site(where, n, "ok", "library body checked"))
                push(i)
            elif ALLOW.search(n) or ALLOW.search(dn) or SAFE.search(n):
                sites.append(Site(where, n, "ok", "trusted pure library function"))
                push(i)
            else:
                sites.append(Site(where, n, "unknown", "library function on neither list"))
    return sites, checked


def walk(x):
    if isinstance(x, dict):
        yield x
        for v in x.values():
            yield from walk(v)
    elif isinstance(x, list):
        for v in x:
            yield from walk(v)


def consts(prog, x):
    """function items and closures whose value is taken"""
    for d in walk(x):
        c = d.get("const_")
        if isinstance(c, dict) and isinstance(c.get("ty"), int):
            t = prog.types.get(c["ty"])
            if t and t["k"] in ("fndef", "closure") and t.get("inst") is not None:
                yield t["inst"]
        k = d.get("Closure")
        if isinstance(k, list):
            for t in prog.types.values():
                if t["k"] == "closure" and t.get("inst") is not None:
                    yield t["inst"]


def statics(prog, x):
    for d in walk(x):
        p = d.get("provenance")
        if isinstance(p, dict):
            for _, a in p.get("ptrs", ()):
                yield from reach_static(prog, a if isinstance(a, int) else a.get("0", a), set())
        if "ThreadLocalRef" in d:
            yield ("tls", None)


def reach_static(prog, a, seen):
    if a in seen or a not in prog.allocs:
        return
    seen.add(a)
    v = prog.allocs[a]
    if v["k"] == "static":
        yield ("static", v)
    elif v["k"] == "mem":
        for _, b in v["alloc"]["provenance"]["ptrs"]:
            yield from reach_static(prog, b, seen)


def static_site(prog, fn, s, a):
    where = "%s (%s)" % (prog.funcs[fn]["name"], prog.span(fn, s["source_info"]["span"]))
    kind, v = a
    if kind == "tls":
        return Site(where, "thread-local variable", "bad", "state kept between calls")
    if v["mut"] or v["thread_local"] or not v["freeze"]:
        return Site(where, "static %s" % v["name"], "bad", "state kept between calls")
    return Site(where, "static %s" % v["name"], "ok", "immutable static")
