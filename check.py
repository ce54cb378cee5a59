#!/usr/bin/env python3
"""Decide one property on the current working tree of /repo.

    python3-vt check.py C05 [--tier thorough]     decide, exit 0 held / 1 VIOLATION / 2 no answer
    python3-vt check.py --replay FILE             run a reported failing input again
"""
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "vcg"))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
LIMIT = 860                                   # seconds; a check is given 900


class NoAnswer(Exception):
    pass


# ------------------------------------------------------------------ what each property needs
def kinds(own="", dep="", soft=""):
    d = {}
    for r, s in (("soft", soft), ("dep", dep), ("own", own)):
        for k in s.split():
            d[k] = r
            if k == "value":
                d["silent"] = r
    return d


FULL = "value inv panic overflow term divzero early"
VALUE = "value inv overflow"
BASE = {"clog": kinds(dep=FULL), "impl-ratio": kinds(dep=FULL)}
LEMMAS = {"lemmas": kinds("lemma axiom")}
LIBRARY = {"library": kinds("library")}
HOMO = ("homographic", "number-homo", "impl-homo")
COMB = ("combine", "number-comb", "impl-comb")


def plan(prop, names):
    """{procedure: {kind of obligation: own | dep | soft}}"""
    homo = [n for n in names if n.rstrip("'") in HOMO]
    comb = [n for n in names if n.rstrip("'") in COMB]
    every = homo + comb + ["ratio", "ratio_u", "clog", "impl-ratio", "compare", "consume"]
    if prop == "C01":
        return {"ratio": kinds(FULL), "ratio_u": kinds(FULL), "uniqueness": kinds("axiom"), **BASE}
    if prop == "C02":
        return {"impl-ratio": kinds(FULL), "clog": kinds(FULL), "ratio": kinds(dep=VALUE), "ratio_u": kinds(dep=VALUE), **LEMMAS}
    if prop == "C03":
        return {"compare": kinds("value inv panic overflow divzero", "term"), "equality": kinds("value panic"), **BASE, **LEMMAS}
    if prop == "C04":
        d = {n: kinds("value inv", "overflow divzero") for n in homo}
        return {**d, "ratio": kinds(dep=VALUE), **BASE, **LEMMAS}
    if prop == "C05":
        d = {n: kinds("value inv", "overflow divzero") for n in comb}
        d.update({n: kinds(dep=VALUE) for n in homo})
        return {**d, "ratio": kinds(dep=VALUE), **BASE, **LEMMAS}
    if prop == "C06":
        return {"consume": kinds(FULL), **BASE, **LEMMAS}
    if prop == "C07":
        d = {n: kinds("panic overflow silent", "inv divzero", "wrap") for n in every}
        d.update({n: kinds("panic overflow silent", "inv value divzero", "wrap") for n in homo})
        return {**d, "unwrap_special": kinds("panic"), "unwrap_other": kinds("panic"), "equality": kinds("panic"), **LEMMAS}
    if prop == "C08":
        d = {n: kinds("divzero", "value inv") for n in homo + comb + ["ratio", "ratio_u"]}
        return {**d, **BASE, **LEMMAS}
    if prop == "C09":
        d = {n: kinds("term", "inv") for n in every}
        d.update({n: kinds("term", "inv value") for n in homo})
        return {**d, **LEMMAS}
    if prop == "C10":
        return {"neutral": kinds("never value inv"), "uniqueness": kinds("axiom"), **BASE}
    if prop == "C12":
        d = {n: kinds("value inv", "overflow divzero") for n in every if n != "compare"}
        return {**d, "uniqueness": kinds("axiom"), "equality": kinds("value"), "unwrap_special": kinds("value"), "unwrap_other": kinds("value"), **LEMMAS}
    raise NoAnswer("unknown property " + prop)


# ------------------------------------------------------------------ building
def sysroot():
    return subprocess.run(["rustc", "+" + NIGHTLY, "--print", "sysroot"], env=env(), capture_output=True, text=True, check=True).stdout.strip()


def env(**kw):
    e = dict(os.environ, HOME="/root", **kw)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN"):
        e.pop(k, None)
    return e


def mirdump():
    """the MIR dumper, built by setup (or now)"""
    exe = os.path.join(BUILD, "mirdump")
    src = os.path.join(HERE, "mirdump", "main.rs")
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
        os.makedirs(BUILD, exist_ok=True)
        tmp = "%s.%d" % (exe, os.getpid())
        p = subprocess.run(["rustc", "+" + NIGHTLY, "-O", "--edition", "2021", src, "-o", tmp], env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise NoAnswer("mirdump does not build:\n" + p.stdout[-3000:])
        os.replace(tmp, exe)
    return exe


def crate():
    """edition and root file of the library crate"""
    t = open(os.path.join(REPO, "Cargo.toml")).read()
    m = re.search(r'^\s*edition\s*=\s*"(\d+)"', t, re.M)
    lib = re.search(r'^\[lib\][^\[]*?^\s*path\s*=\s*"([^"]+)"', t, re.M | re.S)
    return m.group(1) if m else "2015", os.path.join(REPO, lib.group(1) if lib else "src/lib.rs")


def dumps(run):
    """MIR of the working tree with debug assertions off and (when that differs) on"""
    exe = mirdump()
    edition, root = crate()
    out = []
    seen = set()
    for da in ("off", "on"):
        f = os.path.join(run, "mir-%s.json" % da)
        p = subprocess.run([exe, "--edition", edition, "--crate-type", "lib", "--crate-name", "clarith", root, "-Zmir-opt-level=0",
                            "-C", "overflow-checks=on", "-C", "debug-assertions=" + da, "--emit=metadata", "-o", os.path.join(run, "lib%s.rmeta" % da),
                            "-Zalways-encode-mir", "--cap-lints", "allow"], cwd=REPO,
                           env=env(LD_LIBRARY_PATH=os.path.join(sysroot(), "lib"), MIRDUMP_OUT=f), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode or not os.path.exists(f):
            raise NoAnswer("the crate does not compile for extraction:\n" + p.stdout[-3000:])
        data = open(f, "rb").read()
        if data not in seen:
            seen.add(data)
            out.append((da, f))
    return out


class Drivers:
    """builds the replay driver while the obligations are generated"""

    def __init__(self, run):
        self.dir = os.path.join(run, "target")
        self.p = subprocess.Popen([sys.executable, os.path.join(HERE, "vcg", "replay.py"), self.dir], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

    def get(self):
        import replay
        text = self.p.communicate()[0]
        if self.p.returncode:
            raise NoAnswer("replay driver: %s" % text)
        return replay.exes(self.dir)


# ------------------------------------------------------------------ checking
def prove(prop, run, tier, deadline, t0):
    """(results, failures, info)"""
    import campaign
    from mir import Program, Unsupported
    from verify import Verifier
    results, failures, info = {}, [], {"dumps": []}
    budget = 30.0 if tier == "quick" else 120.0
    for da, f in dumps(run):
        tag = "" if da == "off" else "@debug-assertions"
        info["dumps"].append("debug-assertions=" + da)
        prog = Program(f)
        try:
            V = Verifier(prog)
            V.derive_all()
        except Unsupported as e:
            failures.append(("program" + tag, failure("reach", "outside the verifier's reach: %s" % e)))
            continue
        if prop in ("C11", "C12"):
            effects_of(prop, prog, V, tag, results, failures, deadline)
        if prop == "C11":
            continue
        res, fails = campaign.run(V, {**plan(prop, list(campaign.procs_of(V))), **LIBRARY}, budget, deadline)
        for n, r in res.items():
            if r is not None:
                results[n + tag] = r
        failures += [(n + tag, f) for n, f in fails]
    return results, failures, info


def failure(kind, desc, role="own", verdict="unknown", where="", expr=None, model=None):
    return {"kind": kind, "desc": desc, "where": where, "verdict": verdict, "backend": "generator", "seconds": 0, "role": role,
            "inferred": False, "model": model, "expr": expr}


def effects_of(prop, prog, V, tag, results, failures, deadline):
    """the 'no effect' contract of every reachable function"""
    import campaign
    import effects
    t = time.time()
    sites, checked = effects.analyse(prog, V.published())
    bad = [s for s in sites if s.verdict != "ok"]
    if prop == "C12":
        bad = [s for s in bad if s.verdict == "bad"]
    results["effects" + tag] = {
        "function": "%d functions" % len(checked), "what": "effects", "error": None, "cases": len(checked), "paths": len(sites), "returns": len(checked),
        "obligations": len(sites), "discharged": len(sites) - len(bad), "kinds": {"effect": len(sites)}, "not_needed_here": {},
        "backends": {"effect typing": len(sites) - len(bad)}, "covered": ["call"], "uncovered": [], "solver_s": 0.0, "generate_s": round(time.time() - t, 1),
        "wall_s": round(time.time() - t, 1), "slow": [], "inlined": sorted(checked), "loops": 0, "states": None,
        "builtins": sorted({s.what for s in sites if s.why == "trusted pure library function"})}
    for s in bad:
        role = "own" if prop == "C11" else "dep"
        failures.append(("effects" + tag, failure("effect", "%s: %s" % (s.what, s.why), role, "refuted" if s.verdict == "bad" else "unknown", s.where)))
    if prop == "C11" and any(s.verdict == "bad" for s in bad):
        # which inputs get there?
        names = [n for n in campaign.procs_of(V) if n not in ("lemmas", "uniqueness", "neutral", "equality", "unwrap_special", "unwrap_other")]
        res, fails = campaign.run(V, {n: kinds("effect") for n in names}, 10.0, min(deadline, time.time() + 120))
        for n, f in fails:
            if f["kind"] == "effect":
                failures.append((n + tag, dict(f, role="own")))


def vacuous(results):
    """procedures whose obligations say nothing: no path, no obligation, or no result that can happen"""
    out = []
    for n, r in results.items():
        if r["what"] == "lemma":
            if not r["obligations"]:
                out.append(n)
        elif not r["error"] and (not r["cases"] or not r["returns"] or not r["covered"]):
            out.append(n)
    return out


def valid(e):
    from oracle import IMAX, IMIN, UMAX
    if not isinstance(e, tuple) or not e:
        return False
    if e[0] == "r":
        return all(isinstance(i, int) and IMIN <= i <= IMAX for i in e[1:])
    if e[0] == "u":
        return all(isinstance(i, int) and 0 <= i <= UMAX for i in e[2:])
    if e[0] in ("h", "c"):
        return all(isinstance(i, int) and IMIN <= i <= IMAX for i in e[1]) and all(valid(x) for x in e[2:])
    return e[0] in ("cmp", "con") and all(valid(x) for x in e[1:])


def find_input(prop, exes, seed, seconds, failures):
    """(cases tried, failing case or None), directed by the models of failed obligations"""
    import search
    directed = []
    for _, f in sorted(failures, key=lambda x: ("own", "soft", "dep").index(x[1]["role"])):
        if f["expr"] is not None and valid(f["expr"]) and f["expr"] not in directed:
            directed.append(f["expr"])
    directed = directed[:64]
    if prop == "C11":
        return search.silent(exes, seed, directed, seconds)
    soft = any(f["kind"] in ("wrap", "overflow") for _, f in failures)
    return search.run(prop, exes, seed, seconds, directed, soft)


def decide(prop, tier, seed):
    t0 = time.time()
    run = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(run)
    try:
        return decide_in(prop, tier, seed, run, t0)
    finally:
        shutil.rmtree(run, ignore_errors=True)


def decide_in(prop, tier, seed, run, t0):
    drivers = Drivers(run)
    try:
        return decide_with(prop, tier, seed, run, t0, drivers)
    finally:
        if drivers.p.poll() is None:
            drivers.p.communicate()


def decide_with(prop, tier, seed, run, t0, drivers):
    quick = tier == "quick"
    deadline = t0 + (420 if quick else 600)
    results, failures, info = prove(prop, run, tier, deadline, t0)
    empty = vacuous(results)
    for n in empty:
        failures.append((n, failure("vacuity", "nothing was proved about %s" % n)))
    exes = drivers.get()
    refuted = [(n, f) for n, f in failures if f["verdict"] == "refuted" and f["role"] == "own" and not f["inferred"]]
    if not failures:
        seconds = 4 if quick else 60
    elif refuted:
        seconds = 60 if quick else 150
    else:
        seconds = 90 if quick else 200
    tried, found = find_input(prop, exes, seed, seconds, failures)
    verdict, replay = "held", None
    if found:
        verdict = "violated"
        replay = write_replay(prop, found, refuted or failures)
    elif refuted:
        verdict = "violated (no failing input found)"
        replay = write_replay(prop, None, refuted)
    evidence(prop, tier, seed, t0, results, failures, info, tried, found, seconds, verdict, replay)
    for n, f in failures[:20]:
        print("%s: %s obligation %s: %s [%s] (%s, %s)" % (n, f["role"], f["verdict"], f["desc"], f["kind"], f["where"], f["backend"]))
    n, d = totals(results)
    print("%s: %d obligations, %d discharged, %d inputs tried, %.0f s: %s" % (prop, n, d, tried, time.time() - t0, verdict))
    if found:
        print("failing input: %s [%s build] gave %s (%s)" % (found["line"], found["profile"], found["got"], found["why"]))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    if refuted:
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay))
        return 1
    if failures:
        print("%s: not everything could be proved; bounded search in its place found nothing" % prop)
    return 0


def totals(results):
    return sum(r["obligations"] for r in results.values()), sum(r["discharged"] for r in results.values())


# ------------------------------------------------------------------ reports
def write_replay(prop, found, failures):
    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s.json" % prop)
    own = [dict(f, procedure=n, expr=repr(f["expr"])) for n, f in failures]
    with open(path, "w") as o:
        json.dump({"property": prop, "failing_input": found, "failed_obligations": own[:40],
                   "rerun": "python3-vt /verif/check.py --replay " + path}, o, indent=1, default=str)
        o.write("\n")
    return path


TRUSTED = [
    "rustc (nightly) front end up to MIR, rustc_public, and the MIR dumper /verif/mirdump",
    "the symbolic MIR semantics and contract rules in /verif/vcg (execu.py, builtins_mir.py, spec.py, loops.py)",
    "the polynomial normaliser in /verif/vcg/terms.py",
    "z3, cvc5",
    "the allocator (std::boxed::box_new_uninit gives a fresh block; giving a block back touches nothing else)",
]
ASSUMED = [
    "memory and stack are not exhausted (allocation failure and stack overflow are not modelled)",
    "the checked program is the MIR at -Zmir-opt-level=0; later compiler passes are assumed to preserve it",
    "dropping a value has no effect (checked: the crate implements no Drop)",
    "machine word is 64 bit",
]


def evidence(prop, tier, seed, t0, results, failures, info, tried, found, seconds, verdict, replay):
    n, d = totals(results)
    proved = not failures
    closed = {b for r in results.values() for b in r.get("closed", ())}
    builtins = sorted({b for r in results.values() for b in r["builtins"]} - closed)
    backends = {}
    for r in results.values():
        for b, c in r["backends"].items():
            backends[b] = backends.get(b, 0) + c
    cov = {
        "obligations": n, "discharged": d,
        "checker_cmd": "python3-vt check.py %s" % prop,
        "trusted_base": TRUSTED + ["library function taken by axiom: " + b for b in builtins],
        "functions_under_contract": {k: {x: r[x] for x in ("function", "cases", "paths", "returns", "obligations", "discharged", "kinds", "not_needed_here", "covered",
                                                           "uncovered", "solver_s", "generate_s", "loops", "states", "slow", "error")} for k, r in sorted(results.items())},
        "library_axioms_proved_from_the_library_body": sorted(closed),
        "functions_verified_inline": sorted({f for r in results.values() for f in r["inlined"] if "clarith" in f}),
        "library_bodies_verified_inline": len({f for r in results.values() for f in r["inlined"] if "clarith" not in f}),
        "backends": backends,
        "solver_s": round(sum(r["solver_s"] for r in results.values()), 1),
        "extraction": info["dumps"],
        "undischarged": [dict(f, procedure=k, expr=repr(f["expr"])) for k, f in failures[:60]],
        "cross_check": {"inputs_run_on_the_real_code": tried, "seconds": seconds, "failing": found},
        "bounded_stand_in": None if proved else "random and model-directed inputs on the real code in place of the undischarged obligations",
        "verdict": verdict,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    e = {"property": prop, "tier": tier, "seed": seed, "level": "proof" if proved else "other", "coverage": cov,
         "assumptions": ASSUMED, "wall_s": round(time.time() - t0, 1), "violations": 0 if verdict == "held" else 1}
    if not proved:
        cov["explanation"] = "not all obligations were discharged on this run; see undischarged and bounded_stand_in"
    path = os.path.join(HERE, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as o:
        json.dump(e, o, indent=1, default=str)
        o.write("\n")
    os.replace(path + ".tmp", path)


def rerun(path):
    r = json.load(open(path))
    f = r["failing_input"]
    for o in r["failed_obligations"]:
        print("obligation %s: %s [%s] %s\n   model %s" % (o["verdict"], o["desc"], o["kind"], o["where"], o["model"]))
    if not f:
        print("no failing input was found")
        return 1
    run = os.path.join(BUILD, "replay-%d" % os.getpid())
    try:
        from replay import Driver
        exes = Drivers(run).get()
        for k, exe in exes.items():
            d = Driver(exe)
            print("%s: %s -> %s" % (k, f["line"], d.run([f["line"]])[0]))
            if f.get("other"):
                print("%s: %s -> %s" % (k, f["other"], d.run([f["other"]])[0]))
            d.stop()
        print("reported: %s (%s)" % (f["got"], f["why"]))
    finally:
        shutil.rmtree(run, ignore_errors=True)
    return 0


def main():
    a = sys.argv[1:]
    if a[:1] == ["--setup"]:
        mirdump()
        return 0
    if a[:1] == ["--replay"]:
        return rerun(a[1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    try:
        return decide(a[0], tier if tier in ("quick", "thorough") else "quick", int(os.environ.get("VERIF_SEED", "1") or 1))
    except NoAnswer as e:
        print("no answer: %s" % e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


def overdue(*_):
    print("no answer: out of time", file=sys.stderr, flush=True)
    os._exit(2)


if __name__ == "__main__":
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(2))
    signal.signal(signal.SIGALRM, overdue)
    signal.alarm(LIMIT)
    sys.exit(main())
