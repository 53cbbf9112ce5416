"""Campaign engine: runs seeded cases in parallel, gates, minimises and replays violations, writes evidence."""
import collections, copy, hashlib, json, multiprocessing as mp, os, re, signal, sys, time, traceback
import simlib
from simlib import HarnessError, VERIF, WORK, Server, rng

REPLAYS = os.path.join(VERIF, "replays")
EVID = os.path.join(VERIF, "evidence")


class Ctx:
    """Executes plans for one worker; caches fault-free baselines."""

    def __init__(self, sim, exe, hexe=None):
        self.s = Server(sim)
        self.exe, self.hexe = exe, hexe
        self.cache = collections.OrderedDict()
        self.reset()

    def reset(self):
        self.runs = 0
        self.us = 0
        self.fired = collections.Counter()
        self.hashes = set()
        self.procs = 0
        self.calls = 0
        self.preempts = 0
        self.probes = collections.Counter()
        self.log = []  # hashes in order, for the determinism gate

    def run(self, plan, nontrivial=True):
        plan.setdefault("img", self.exe)
        r = self.s.run(plan)
        self.runs += 1
        self.us += r["us"]
        self.calls += r["calls"]
        self.preempts += r["preempts"]
        for st in r["steps"]:
            for p in st["procs"]:
                self.procs += 1
                for f in p["fired"]:
                    self.fired[f.split("@")[0]] += 1
        if r["preempts"]:
            self.fired["preemption"] += r["preempts"]
        if nontrivial:
            self.hashes.add(r["hash"])
        self.log.append(r["hash"])
        return r

    def base(self, plan):
        k = hashlib.sha1(json.dumps(plan, sort_keys=True).encode()).hexdigest()
        if k in self.cache:
            return self.cache[k]
        r = self.run(plan, False)
        for p in r.get("procs") or [q for st in r.get("steps", []) for q in st["procs"]]:
            # a text that makes the assembler write out of bounds even undisturbed (C37, not claimed) is no reference
            if not p["av"] and any(x.startswith("heap-overflow") for x in p["diag"]):
                p["av"] = "undisturbed " + p["diag"][0]
        self.cache[k] = r
        if len(self.cache) > 200:
            self.cache.popitem(False)
        return r


# ---------------------------------------------------------------- helpers over results
def plan1(case, faults=(), knobs=None, want=None, **kw):
    """One invocation of one process."""
    pr = {"argv": case["argv"], "faults": list(faults)}
    if case.get("env"):
        pr["env"] = case["env"]
    p = {"files": case["files"], "steps": [{"procs": [pr]}], "want": want or {}}
    if knobs:
        p["knobs"] = knobs
    if case.get("dirs"):
        p["dirs"] = case["dirs"]
    p.update(kw)
    return p


def proc(r, step=-1, i=0):
    return r["steps"][step]["procs"][i]


def outs(r):
    """name(lower) -> (size, hash) of files that differ from the inputs"""
    return {f[0].lower(): (f[1], f[2]) for f in r["files"] if f[3] != "gone"}


def gone(r):
    return [f[0] for f in r["files"] if f[3] == "gone"]


def fdata(r, name):
    for f in r["files"]:
        if f[0].lower() == name.lower() and len(f) > 4:
            return f[4]
    return None


def has_msg(p):
    t = p["out"] + p["errout"]
    return bool(re.search(r"(?i)error|fatal|warning|cannot|fail|memory", re.sub(r"\d+ warnings?, 0 errors", "", t)))


def mask_out(t):
    return re.sub(r"\d+ ms", "N ms", t)


def obj_paths(base_out):
    return [k for k in base_out if k.endswith((".obj", ".bin", ".exe", ".o", ".dll"))]


def bad_end(p):
    """Ways a process must never end, or bookkeeping it must never break."""
    if p["end"] in ("crash", "abort", "trap"):
        return "ended by %s (%s)" % (p["end"], p["av"])
    if p["end"] in ("hang", "budget"):
        return "did not terminate (%s)" % p["end"]
    if p["av"]:
        return "invalid memory access: " + p["av"]
    if p["diag"]:
        return "runtime misuse: " + p["diag"][0]
    return None


# ---------------------------------------------------------------- worker pool
_G = {}


def _winit(sim, exe, hexe):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _G["ctx"] = Ctx(sim, exe, hexe)


def _wtask(a):
    modname, prop, seed, idx, tier = a
    ctx = _G["ctx"]
    ctx.reset()
    try:
        import props
        P = props.PROPS[prop]
        v, samples = [], []
        n = 0
        for case in P.cases(ctx, seed, idx, tier):
            case.setdefault("prop", prop)
            r = P.oracle(ctx, case)
            n += 1
            if len(samples) < 1 and case.get("sample", 1):
                samples.append(describe(case))
            if r:
                v.append((r, case))
                if len(v) >= 3:
                    break
        return {"idx": idx, "v": v, "runs": ctx.runs, "us": ctx.us, "fired": dict(ctx.fired), "hashes": list(ctx.hashes), "cases": n, "samples": samples, "calls": ctx.calls, "probes": dict(ctx.probes), "pre": ctx.preempts}
    except HarnessError as e:
        _G["ctx"].s.p = None
        return {"idx": idx, "err": "%s" % e}
    except Exception:
        return {"idx": idx, "err": traceback.format_exc()}


def describe(case):
    d = {k: v for k, v in case.items() if k not in ("files", "mods")}
    d["files"] = [f["p"] + (" (%d bytes)" % len(f["d"]) if "d" in f else " <- " + f["h"]) for f in case.get("files", [])]
    return d


# ---------------------------------------------------------------- embedding and minimising
def embed(case):
    c = copy.deepcopy(case)

    def walk(o):
        if isinstance(o, dict):
            if "h" in o and "p" in o:
                with open(o["h"], "rb") as f:
                    o["d"] = f.read().decode("latin1")
                del o["h"]
            for v in o.values():
                walk(v)
        elif isinstance(o, list):
            for v in o:
                walk(v)
    walk(c)
    return c


def vclass(msg):
    """The class of a violation: its message up to the first ':'"""
    return msg.split(":")[0]


def minimise(ctx, P, case, msg, budget=45.0):
    t0 = time.time()
    best, cls, tries = case, vclass(msg), 0

    def ok(c):
        nonlocal best, tries, msg
        if time.time() - t0 > budget:
            return False
        tries += 1
        try:
            r = P.oracle(ctx, c)
        except HarnessError:
            ctx.s.p = None
            return False
        except Exception:
            return False
        if r and vclass(r) == cls:
            best, msg = c, r
            return True
        return False

    def lists(c):
        res = []
        for k in ("faults", "sched", "ops", "mods", "seq", "tree", "miss"):
            if isinstance(c.get(k), list) and c[k]:
                res.append(k)
        return res

    changed = True
    while changed and time.time() - t0 < budget:
        changed = False
        for k in lists(best):
            n = 2
            while len(best[k]) >= 1 and n <= 2 * len(best[k]):
                L = best[k]
                step = max(1, len(L) // n)
                hit = False
                for i in range(0, len(L), step):
                    c = copy.copy(best)
                    c[k] = L[:i] + L[i + step:]
                    if k == "mods" and not c[k]:
                        continue
                    if ok(c):
                        hit = changed = True
                        break
                if not hit:
                    if step == 1:
                        break
                    n *= 2
        for k in list((best.get("knobs") or {})):
            c = copy.copy(best)
            c["knobs"] = {a: b for a, b in best["knobs"].items() if a != k}
            changed |= ok(c)
        if hasattr(P, "smaller"):      # a case whose parts belong together
            hit = True
            while hit and time.time() - t0 < budget:
                hit = False
                for c in P.smaller(best):
                    if time.time() - t0 > budget: break
                    if ok(c):
                        hit = changed = True
                        break
            continue
        # options
        i = 0
        while i < len(best.get("argv", [])):
            a = best["argv"][i]
            if a.startswith("-") and len(best["argv"]) > 1:
                c = copy.copy(best)
                c["argv"] = best["argv"][:i] + best["argv"][i + 1:]
                if ok(c):
                    changed = True
                    continue
            i += 1
        # source lines
        for fi in range(len(best.get("files", []))):
            f = best["files"][fi]
            if "d" not in f or not f["p"].lower().endswith((".asm", ".inc")):
                continue
            lines = f["d"].split("\n")
            step = max(1, len(lines) // 2)
            while step >= 1 and time.time() - t0 < budget:
                i = 0
                while i < len(lines):
                    cand = lines[:i] + lines[i + step:]
                    c = copy.copy(best)
                    c["files"] = list(best["files"])
                    c["files"][fi] = {"p": f["p"], "d": "\n".join(cand)}
                    if ok(c):
                        lines = cand
                        changed = True
                    else:
                        i += step
                    if time.time() - t0 > budget:
                        break
                step //= 2
    return best, msg, tries


# ---------------------------------------------------------------- main entry
def known_findings():
    p = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


REAL = ["all of uasm.exe: the unmodified project objects compiled by its own makefile from the working tree (command line, tokenizer, parser, macro engine, passes, symbol table, fixups, writers, listing, debug info, messages)"]
STUB = ["msvcrt.dll: files, streams, heap, clock, environment, signals, qsort, strings", "kernel32.dll: VirtualAlloc/Free, console", "Windows file system (in-memory, case-insensitive)", "process scheduler and loader"]


def run_check(prop, tier, seed, hooks=False, jobs=None):
    import props
    P = props.PROPS[prop]
    t0 = time.time()
    sim = simlib.build_sim()
    exe = simlib.build_uasm()
    hexe = simlib.build_uasm(True) if P.hooks else None
    print("check %s tier=%s seed=%d" % (prop, tier, seed), flush=True)
    tb = time.time()
    # determinism self-test on this image before anything is believed
    a, b = Ctx(sim, exe, hexe), Ctx(sim, exe, hexe)
    P.selftest(a, b, seed)
    a.s.close(); b.s.close()
    limit = float(os.environ.get("UASM_SIM_SECONDS", 0)) or (P.quick_s if tier == "quick" else P.thorough_s)
    ntasks = P.quick_n if tier == "quick" else P.thorough_n
    agg = {"runs": 0, "us": 0, "calls": 0, "cases": 0, "pre": 0}
    fired, probes, hashes, samples, viol, tasks = collections.Counter(), collections.Counter(), set(), [], [], 0
    known = [k for k in known_findings() if k["property"] == prop]
    knownhit = {}
    err = None
    capped = False
    t1 = time.time()
    jobs = jobs or int(os.environ.get("UASM_SIM_JOBS", "0")) or min(8, os.cpu_count() or 4)
    with mp.get_context("fork").Pool(jobs, _winit, (sim, exe, hexe)) as pool:
        it = pool.imap_unordered(_wtask, ((None, prop, seed, i, tier) for i in range(ntasks)))
        for r in it:
            if "err" in r:
                err = r["err"]
                break
            tasks += 1
            for k in agg:
                agg[k] += r[k]
            fired.update(r["fired"]); probes.update(r["probes"])
            if len(hashes) < 3000000:
                hashes.update(r["hashes"])
            if len(samples) < 3:
                samples += r["samples"]
            for m, c in r["v"]:
                kf = next((k for k in known if re.search(k["match"], m)), None)
                if kf:
                    knownhit[kf["id"]] = kf
                else:
                    viol.append((m, c))
            if viol:
                break
            if time.time() - t1 > limit:
                capped = True
                break
        pool.terminate()
    wall = time.time() - t1
    code = 0
    rep = None
    if err:
        print("HARNESS ERROR: " + err)
        code = 2
    elif viol:
        viol.sort(key=lambda x: (x[0], json.dumps(x[1], sort_keys=True)))
        m, c = viol[0]
        code, rep = report(sim, exe, hexe, P, prop, seed, m, c)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(time.time() - t0, 2), "violations": 1 if code == 1 else 0,
          "assumptions": P.assumptions + ["msvcrt/kernel32 behave as the simulated runtime does; validated by running the project's regression set in it with the same 451 results as under wine"],
          "coverage": {"evaluations": agg["cases"], "distinct_nontrivial": len(hashes), "rule": P.rule + " Distinct: different hash of the complete event log (every call, its operands and results, every byte written) among runs with at least one fault, perturbation or schedule decision.",
                       "samples": samples[:3] or [{"note": "no case"}], "simulated_runs": agg["runs"], "seeds": tasks, "seeds_per_hour": int(tasks / max(wall, .001) * 3600), "runs_per_hour": int(agg["runs"] / max(wall, .001) * 3600),
                       "simulated_seconds": round(agg["us"] / 1e6, 3), "events": agg["calls"], "faults_injected": dict(sorted(fired.items())), "preemptions": agg["pre"], "probes": dict(sorted(probes.items())),
                       "components_real": REAL, "components_stub": STUB + P.stubs, "stopped_by_time": capped, "build_s": round(tb - t0, 2), "exhaustive": False}}
    if code != 2:
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    missing = [p for p in P.need_probes if not probes.get(p)]
    if code == 0 and missing and not capped:
        print("warning: probes at zero: " + ", ".join(missing))
    print("%s: %d cases, %d runs, %d seeds in %.1fs; faults %s" % (prop, agg["cases"], agg["runs"], tasks, wall, dict(fired.most_common(12))))
    return code


def report(sim, exe, hexe, P, prop, seed, m, c):
    c = embed(c)
    # gate 1: same plan twice in two fresh simulators, identical logs and verdict
    logs = []
    for _ in range(2):
        x = Ctx(sim, exe, hexe)
        r = P.oracle(x, c)
        logs.append((r, tuple(x.log)))
        x.s.close()
    if logs[0] != logs[1] or not logs[0][0] or vclass(logs[0][0]) != vclass(m):
        print("HARNESS ERROR: a violation did not reproduce: %r vs %r / %r" % (m, logs[0][0], logs[1][0]))
        return 2, None
    x = Ctx(sim, exe, hexe)
    best, msg, tries = minimise(x, P, c, m)
    x.s.close()
    y = Ctx(sim, exe, hexe)
    r = P.oracle(y, best)
    y.s.close()
    if not r or vclass(r) != vclass(m):
        best, r = c, logs[0][0]
        y = Ctx(sim, exe, hexe)
        P.oracle(y, best)
        y.s.close()
    os.makedirs(REPLAYS, exist_ok=True)
    doc = {"property": prop, "seed": seed, "violation": r, "log": y.log, "case": best, "minimiser_runs": tries}
    h = hashlib.sha1(json.dumps(doc["case"], sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(REPLAYS, "%s-%s.json" % (prop, h))
    with open(path, "w") as f:
        json.dump(doc, f, indent=1)
    # gate 2: replay the file in a fresh process
    import subprocess
    q = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), "--replay", path], capture_output=True, text=True)
    if q.returncode != 1:
        print("HARNESS ERROR: replay did not reproduce\n" + q.stdout[-2000:] + q.stderr[-2000:])
        return 2, path
    print("violation: " + r)
    print("  seed %d, %s" % (seed, json.dumps({k: v for k, v in best.items() if k not in ("files", "mods")})[:600]))
    print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
    return 1, path


def replay(path):
    import props
    with open(path) as f:
        doc = json.load(f)
    P = props.PROPS[doc["property"]]
    sim = simlib.build_sim()
    exe = simlib.build_uasm()
    hexe = simlib.build_uasm(True) if P.hooks else None
    x = Ctx(sim, exe, hexe)
    r = P.oracle(x, doc["case"])
    x.s.close()
    same = x.log == doc["log"]
    print("replay of %s (seed %d): %s" % (doc["property"], doc["seed"], r or "no violation"))
    print("event log " + ("identical to the recorded one" if same else "differs from the recorded one (different code or plan)"))
    if r:
        print("VIOLATION property=%s replay=%s" % (doc["property"], path))
        return 1
    return 0
