"""The program: the compiler's own MIR of /repo's crate, as dumped by mirdump."""
import json


class Unsupported(Exception):
    """A construct outside the verifier's reach: never an alarm, the caller falls back."""


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.funcs = {int(k): v for k, v in d["funcs"].items()}
        self.types = {int(k): v for k, v in d["types"].items()}
        self.allocs = {int(k): v for k, v in d["allocs"].items()}
        self.roots = d["roots"]
        self.public = d["public"]
        self.impls = d["impls"]
        self.cfg = {}
        self.unions = {}
        self.count = {}
        self.drops = [k for k, f in self.funcs.items() if f["local"] and f["name"].endswith(" as std::ops::Drop>::drop")]
        self.tyname = {}
        for k, t in self.types.items():
            self.tyname.setdefault(t.get("s"), k)
            if t["k"] == "adt" and not t["args"]:
                self.tyname.setdefault(t["name"], k)

    def find(self, name):
        for k, f in self.funcs.items():
            if f["name"] == name:
                return k
        return None

    def span(self, fn, sid):
        b = self.funcs[fn]["body"]
        return b["spans"].get(str(sid), "?") if b else "?"

    def info(self, fn):
        """(rpo index, predecessors, loops) of a function body; loops: header -> set of blocks"""
        if fn not in self.cfg:
            self.cfg[fn] = self._cfg(self.funcs[fn]["body"])
        return self.cfg[fn]

    def counted(self, fn):
        """'iterator' if the function steps through an array or a range, 'array' if it has an array at all"""
        if fn not in self.count:
            ss = [self.types[l["ty"]] for l in self.funcs[fn]["body"]["locals"]]
            it = any(x in t["s"] for t in ss for x in ("slice::Iter", "array::IntoIter", "option::IntoIter", "iter::Once", "ops::Range", "IndexRange"))
            it = it and not any(x in t["s"] for t in ss for x in ("iter::FromFn", "iter::Successors", "iter::Repeat"))
            self.count[fn] = "iterator" if it else "array" if any(t["k"] == "array" for t in ss) else None
        return self.count[fn]

    def unrecurse(self, fn, type_ok):
        """turn the tail calls of a function to itself into jumps to its start; True if that removed
        all of them.  Only drops of values without shared parts may follow such a call."""
        body = self.funcs[fn]["body"]
        bs = body["blocks"]

        def target(b):
            k = bs[b]["terminator"]["kind"]
            if not isinstance(k, dict) or "Call" not in k:
                return None
            f = k["Call"]["func"]
            t = f.get("Constant", {}).get("const_", {}).get("ty") if isinstance(f, dict) else None
            return k["Call"] if t is not None and self.types[t].get("inst") == fn else None

        def idle(b, seen):
            """from b on nothing happens but drops, then the function returns"""
            if b in seen:
                return True
            seen.add(b)
            for s in bs[b]["statements"]:
                k = s["kind"]
                if isinstance(k, dict) and "Assign" in k:
                    pl, rv = k["Assign"]
                    if pl["projection"] or self.types[body["locals"][pl["local"]]["ty"]]["k"] != "bool":
                        return False
            k = bs[b]["terminator"]["kind"]
            if k == "Return":
                return True
            if not isinstance(k, dict):
                return False
            (t, v), = k.items()
            if t == "Drop" and not type_ok(body["locals"][v["place"]["local"]]["ty"]):
                return False
            return t in ("Goto", "Drop", "SwitchInt") and all(idle(x, seen) for x in self.succs(bs[b]["terminator"]))
        calls = [b for b in range(len(bs)) if target(b)]
        if not calls:
            return False
        for b in calls:
            c = target(b)
            d = c["destination"]
            if d["local"] != 0 or d["projection"] or c["target"] is None or len(c["args"]) != body["arg_count"] or not idle(c["target"], set()):
                return False
        for b in calls:
            c = target(b)
            info = bs[b]["terminator"]["source_info"]
            new = []
            for i in range(body["arg_count"]):
                body["locals"].append(dict(body["locals"][i + 1]))
                new.append(len(body["locals"]) - 1)

            def assign(dst, op):
                return {"kind": {"Assign": [{"local": dst, "projection": []}, {"Use": op}]}, "source_info": info}
            bs[b]["statements"] += [assign(n, a) for n, a in zip(new, c["args"])]
            bs[b]["statements"] += [assign(i + 1, {"Move": {"local": n, "projection": []}}) for i, n in enumerate(new)]
            bs[b]["terminator"] = {"kind": {"Goto": {"target": 0}}, "source_info": info}
        self.cfg.pop(fn, None)
        return True

    @staticmethod
    def succs(term):
        k = term["kind"]
        if isinstance(k, str):
            return []
        (t, v), = k.items()
        if t == "Goto":
            return [v["target"]]
        if t == "SwitchInt":
            return [b for _, b in v["targets"]["branches"]] + [v["targets"]["otherwise"]]
        if t in ("Drop", "Assert"):
            return [v["target"]]
        if t == "Call":
            return [v["target"]] if v["target"] is not None else []
        if t == "InlineAsm":
            raise Unsupported("inline assembly")
        return []

    def _cfg(self, body):
        n = len(body["blocks"])
        succ = [self.succs(b["terminator"]) for b in body["blocks"]]
        order, seen = [], set()
        stack = [(0, iter(succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        rpo = {b: i for i, b in enumerate(order)}
        preds = {b: [] for b in order}
        for b in order:
            for s in succ[b]:
                preds[s].append(b)
        # dominators
        dom = {b: set(order) for b in order}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = set.intersection(*[dom[p] for p in preds[b]]) | {b} if preds[b] else {b}
                if new != dom[b]:
                    dom[b] = new
                    ch = True
        loops = {}
        for b in order:
            for s in succ[b]:
                if s in dom[b]:
                    body_ = loops.setdefault(s, {s})
                    todo = [b]
                    while todo:
                        x = todo.pop()
                        if x not in body_:
                            body_.add(x)
                            todo.extend(preds[x])
                elif rpo[s] <= rpo[b]:
                    raise Unsupported("irreducible control flow")
        return rpo, preds, loops, dom
