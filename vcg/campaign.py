"""Generate and discharge the obligations of a set of procedures, each in its own forked process."""
import fcntl
import multiprocessing as mp
import os
import queue as queue_
import signal
import time
import traceback
from collections import Counter
from multiprocessing.connection import wait

_SLOTS = -1
CPUS = max(2, min(8, os.cpu_count() or 2))


class Slot:
    """one of CPUS tickets shared by all workers: record locks, which the kernel drops with their owner"""

    def __enter__(self):
        while True:
            for k in range(CPUS):
                try:
                    fcntl.lockf(_SLOTS, fcntl.LOCK_EX | fcntl.LOCK_NB, 1, k)
                    self.k = k
                    return self
                except OSError:
                    pass
            time.sleep(0.003)

    def __exit__(self, *_):
        fcntl.lockf(_SLOTS, fcntl.LOCK_UN, 1, self.k)


def _worker(obls, budget, conn):
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    die_with_parent()
    import verify
    try:
        while True:
            for i in conn.recv():
                with Slot():
                    conn.send((i, None))
                    try:
                        r = verify.discharge(obls[i], budget)
                    except Exception as e:     # solver failure: undecided, never an alarm
                        r = ("unknown", "error %s: %s" % (type(e).__name__, e), None, 0.0)
                conn.send((i, r))
    except (EOFError, OSError):
        pass
    os._exit(0)


def discharge_all(obls, budget, on, deadline):
    """calls on(i, result) for each obligation as it is decided; a worker that dies or overruns its
    budget twice over is replaced and its obligation left undecided"""
    ctx = mp.get_context("fork")
    n = max(1, min(12, len(obls) // (CPUS * 8)))
    todo = [list(range(i, min(i + n, len(obls)))) for i in range(0, len(obls), n)][::-1]
    ws = {}

    def hire():
        a, b = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(obls, budget, b))
        p.start()
        b.close()
        ix = todo.pop()
        ws[a] = [p, list(ix), None]            # process, open obligations, start of the running one
        a.send(ix)

    def dismiss(c, why):
        p, ix, _ = ws.pop(c)
        p.kill()
        p.join()
        c.close()
        if ix:
            on(ix[0], ("unknown", why, None, 0.0))
            if ix[1:]:
                todo.append(ix[1:])

    try:
        while (todo or any(w[1] for w in ws.values())) and time.time() < deadline:
            while todo and len(ws) < CPUS:
                hire()
            for c in wait(list(ws), timeout=1.0):
                w = ws[c]
                try:
                    i, r = c.recv()
                    if r is None:
                        w[2] = time.time()
                        continue
                    w[1].remove(i)
                    w[2] = None
                    on(i, r)
                    if not w[1]:
                        if todo:
                            ix = todo.pop()
                            w[1] = list(ix)
                            c.send(ix)
                        else:
                            dismiss(c, "")
                except (EOFError, OSError):
                    dismiss(c, "solver process died")
            for c, w in list(ws.items()):
                if w[2] and time.time() - w[2] > 2 * budget + 10:
                    dismiss(c, "solver ignored its time limit")
    finally:
        for c, (p, _, _) in list(ws.items()):
            p.kill()
            p.join()


def die_with_parent():
    import ctypes
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)


# ------------------------------------------------------------------ procedures
def procs_of(V):
    """names of all procedures under contract in the program at hand -> generator of obligations"""
    out = {"ratio": V.v_ratio, "ratio_u": V.v_ratio_u, "clog": V.v_clog, "homographic": V.v_homographic,
           "combine": V.v_combine, "compare": V.v_compare, "consume": V.v_consume, "lemmas": V.lemmas,
           "uniqueness": V.uniqueness, "library": V.library, "equality": V.v_equality,
           "unwrap_special": lambda: V.v_accessor("unwrap_special"), "unwrap_other": lambda: V.v_accessor("unwrap_other")}
    for t in V.published():
        k = V.spec.m.kinds[t][0]
        name = "impl-" + k
        while name in out:
            name += "'"
        out[name] = lambda t=t: V.v_impl(t)
    for fn, c in V.derived.items():
        name = "number-" + V.spec.m.kinds[c.ty][0]
        while name in out:
            name += "'"
        out[name] = lambda fn=fn: V.v_number_fn(fn)

    def neutral():
        from neutral import Neutral
        return Neutral(V).run()
    out["neutral"] = neutral
    return out


def clean(x):
    return x if isinstance(x, (int, bool, str)) else str(x)


def _failure(o, r, role):
    import verify
    f = {"kind": o.kind, "desc": o.desc, "where": o.where, "verdict": r[0], "backend": r[1], "seconds": round(r[3], 2),
         "role": role, "inferred": bool(o.info.get("ghost", {}).get("inferred")),
         "model": {k: clean(v) for k, v in (r[2] or {}).items()} if isinstance(r[2], dict) else None, "expr": None}
    ex = o.info.get("ghost", {}).get("expr")
    if ex is not None and isinstance(r[2], dict):
        try:
            f["expr"] = ex(verify.evaluator(r[2]))
        except Exception:
            pass
    return f


def _covers(proc):
    """one satisfiability question per kind of result: can it happen at all?"""
    from verify import Obl
    from terms import F
    return [Obl((), F, "cover", label, proc.name, {"pcs": sorted(pcs, key=len)[:4], "ghost": {}, "bounded": False}) for label, pcs in proc.covers.items()]


def _main(V, name, fn, kinds, budget, deadline, q):
    os.setpgid(0, 0)
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    die_with_parent()
    try:
        t0 = time.time()
        proc = fn()
        gen = time.time() - t0
        def role(k):
            return kinds.get(k, kinds.get("*"))
        obls = [o for o in proc.obls if role(o.kind)]
        skipped = Counter(o.kind for o in proc.obls if not role(o.kind))
        cov = _covers(proc)
        allo = obls + cov
        st = {"kinds": Counter(), "proved": Counter(), "backends": Counter(), "covered": [], "uncovered": [], "secs": 0.0, "slow": []}

        def on(i, r):
            o = allo[i]
            st["secs"] += r[3]
            if o.kind == "cover":
                st["covered" if r[0] == "proved" else "uncovered"].append(o.desc)
                return
            st["done"] = st.get("done", 0) + 1
            st["kinds"][o.kind] += 1
            if r[3] > 5:
                st["slow"].append([o.kind, o.desc, round(r[3], 1)])
            if r[0] == "proved":
                st["proved"][o.kind] += 1
                for b in r[1].split("+"):
                    st["backends"][b] += 1
            elif o.kind == "library":
                proc.open.add(o.where)             # no failure: it is used as an axiom, and said so
            else:
                q.put(("fail", name, _failure(o, r, role(o.kind))))
        if proc.error:
            q.put(("fail", name, {"kind": "reach", "desc": "outside the verifier's reach: " + proc.error, "where": proc.name, "verdict": "unknown",
                                  "backend": "generator", "seconds": 0, "role": "own", "inferred": False, "model": None, "expr": None}))
        if allo:
            discharge_all(allo, budget, on, deadline)
        missing = len(obls) - st.get("done", 0)
        if name == "library":
            obls = [o for o in obls if o.where not in proc.open]
            st["kinds"]["library"] = st["proved"]["library"] = len(obls)
            proc.closed = sorted({o.where for o in obls})
        if missing:
            q.put(("fail", name, {"kind": "time", "desc": "%d obligations not decided in time" % missing, "where": proc.name, "verdict": "unknown",
                                  "backend": "deadline", "seconds": 0, "role": "own", "inferred": False, "model": None, "expr": None}))
        q.put(("done", name, {
            "function": proc.name, "what": proc.what, "error": proc.error, "cases": proc.cases, "paths": proc.paths, "returns": proc.returns,
            "obligations": len(obls), "discharged": sum(st["proved"].values()), "kinds": dict(st["kinds"]), "not_needed_here": dict(skipped),
            "backends": dict(st["backends"]), "covered": sorted(st["covered"]), "uncovered": sorted(st["uncovered"]),
            "solver_s": round(st["secs"], 1), "generate_s": round(gen, 1), "wall_s": round(time.time() - t0, 1), "slow": st["slow"],
            "inlined": sorted(V.prog.funcs[f]["name"] for f in proc.inlined), "builtins": sorted(proc.builtins),
            "closed": getattr(proc, "closed", []),
            "loops": len(proc.loops), "states": getattr(proc, "states", None)}))
    except Exception as e:
        traceback.print_exc()
        q.put(("fail", name, {"kind": "error", "desc": "generator failed: %s: %s" % (type(e).__name__, e), "where": name, "verdict": "unknown",
                              "backend": "generator", "seconds": 0, "role": "own", "inferred": False, "model": None, "expr": None}))
        q.put(("done", name, None))


def run(V, wanted, budget, deadline, patience=25.0):
    """wanted: {procedure: {kind: role}} -> (results, failures).  Once something is refuted the rest
    gets `patience` more seconds."""
    global _SLOTS
    ctx = mp.get_context("fork")
    _SLOTS = os.memfd_create("slots")
    table = procs_of(V)
    q = ctx.Queue()
    ps, failures, results = {}, [], {}
    for name, kinds in wanted.items():
        if name not in table:
            failures.append((name, {"kind": "reach", "desc": "no such function in the program", "where": name, "verdict": "unknown", "backend": "generator",
                                    "seconds": 0, "role": "own", "inferred": False, "model": None, "expr": None}))
            continue
        p = ctx.Process(target=_main, args=(V, name, table[name], kinds, budget, deadline, q))
        p.start()
        ps[name] = p
    waiting = set(ps)
    end = deadline + 10
    while waiting:
        try:
            k, name, x = q.get(timeout=0.5)
        except queue_.Empty:
            for n in list(waiting):
                if not ps[n].is_alive() and q.empty():
                    waiting.discard(n)
                    failures.append((n, {"kind": "error", "desc": "generator process ended", "where": n, "verdict": "unknown", "backend": "generator",
                                         "seconds": 0, "role": "own", "inferred": False, "model": None, "expr": None}))
            if time.time() > end:
                break
            continue
        if k == "fail":
            x["inferred"] = x["inferred"] or bool(V.spec.m.guessed)
            failures.append((name, x))
            if x["verdict"] == "refuted" and x["role"] == "own" and not x["inferred"]:
                end = min(end, time.time() + patience)
        else:
            results[name] = x
            waiting.discard(name)
        if time.time() > end:
            break
    for n in waiting:
        failures.append((n, {"kind": "time", "desc": "stopped before all obligations were decided", "where": n, "verdict": "unknown", "backend": "deadline",
                             "seconds": 0, "role": "own", "inferred": False, "model": None, "expr": None}))
    for n, p in ps.items():
        if n not in waiting:
            p.join(5)
        if p.is_alive():
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.kill()
        p.join()
    os.close(_SLOTS)
    return results, failures
