"""C03 and C06-C18: cases and oracles."""
import struct
from base import *

OBJEXT = (".obj", ".bin", ".exe", ".o", ".dll")


# ---------------------------------------------------------------- reference model of the command line
FMT = {"bin": "bin", "mz": "exe", "pe": "exe", "coff": "obj", "omf": "obj", "elf": "obj", "elf64": "obj", "macho64": "obj", "win64": "obj", "djgpp": "obj"}


def absname(p, cwd="C:\\work"):
    p = p.replace("/", "\\")
    if p[1:2] != ":":
        p = "C:" + p if p.startswith("\\") else cwd + "\\" + p
    parts = []
    for x in p.split("\\"):
        if x == "..":
            parts.pop()
        elif x not in (".", ""):
            parts.append(x)
    return "\\".join(parts).upper()


def _split(n):
    n = n.replace("/", "\\")
    i = max(n.rfind("\\"), n.rfind(":")) + 1
    return n[:i], n[i:]


def declared(argv, cwd="C:\\work", env=""):
    """The documented naming rules: [(source, {kind: path})] for each source argument in order. Knows the option spellings the workloads use."""
    ext = "obj"
    dirs, named, res = {}, {}, []
    zs = lst = False
    sym = imp = None
    for a in env.split() + list(argv):
        if a[:1] not in "-/":
            d = {}
            for k, e in (("obj", ext), ("lst", "lst"), ("err", "err")):
                base = _split(a)[1]
                if k in named:
                    dd, nn = _split(named[k])
                    nn = nn or base
                    full = dd + (nn if "." in nn else nn + "." + e)
                else:
                    full = dirs.get(k, "") + (base.rsplit(".", 1)[0] if "." in base else base) + "." + e
                d[k] = absname(full, cwd)
            if zs: del d["obj"]
            if not lst: del d["lst"]
            if sym: d["sym"] = absname(sym, cwd)
            if imp: d["def"] = absname(imp, cwd)
            res.append((a, d))
            named = {}
            continue
        o = a[1:]
        if o in FMT:
            ext = FMT[o]
        elif o == "Zs":
            zs = True
        elif o[:2] in ("Fo", "Fl", "Fw", "Fs", "Fd") :
            v = o[2:].lstrip("=")
            k = {"Fo": "obj", "Fl": "lst", "Fw": "err", "Fs": "sym", "Fd": "def"}[o[:2]]
            if k == "lst": lst = True
            if k == "sym": sym = v or sym
            elif k == "def": imp = v or imp
            else:
                if _split(v)[1] == "":  # a directory, or no name: the current one again
                    dirs[k] = v
                else:
                    named[k] = (dirs.get(k, "") if _split(v)[0] == "" else "") + v
    return res


def created(p, cls="create"):
    return {k.split("|", 1)[1] for k in p["ops"] if k.startswith(cls + "|") and not k.endswith("|*")}


def exists(r, path, files):
    """(exists, size, hash, untouched) of a path after the run"""
    for f in r["files"]:
        if f[0].upper() == path.upper():
            return None if f[3] == "gone" else (f[1], f[2], f[3])
    for f in files:
        if f["p"].upper() == path.upper():
            return (None, None, "same")
    return None


JUNK = "stale output of an earlier version\r\n" * 40

MSG = re.compile(r"(?:Error|Warning|Fatal error) A\d{4}: ")


def msglines(t):
    return [l for l in t.replace("\r", "").split("\n") if MSG.search(l)]


BANNER = re.compile(r"^UASM v.*\n.*\n.*\n\n?")


def nobanner(t):
    return BANNER.sub("", t.replace("\r", ""))


def cdiff(x, y):
    X, Y = x.split("\n"), y.split("\n")
    i = next((i for i in range(min(len(X), len(Y))) if X[i] != Y[i]), min(len(X), len(Y)))
    return "line %d: %r / %r" % (i, X[i:i + 1], Y[i:i + 1])


def errlines(t):
    return [l for l in msglines(t) if "Warning A" not in l]


def anyfault(r, b, o=None, kinds="iiiaqk"):
    """One random fault of any kind, or a quota. Returns (fault or None, quota or None)."""
    p = proc(b)
    k = r.choice(kinds)
    if k == "a" and p["allocs"]:
        n = p["allocs"]
        return r.choice([{"k": "alloc", "n": r.randrange(n)}, {"k": "alloc", "n": r.randrange(n), "sticky": 1}, {"k": "membudget", "n": r.randrange(1, max(2, p["maxlive"]))}])
    if k == "k":
        return {"k": "kill", "n": r.randrange(max(1, p["calls"]))}
    if k == "s":
        return {"k": "sig", "n": r.randrange(max(1, p["calls"])), "err": r.choice([11, 21, 21])}
    ops = [(c, pth, n) for c, pth, n in opsof(b) if c in ("open", "create", "read", "write", "seek", "close", "chsize", "remove", "stat", "find", "findnext", "rename")]
    if not ops:
        return {"k": "alloc", "n": 0}
    c, pth, n = r.choices(ops, [1 + n ** .5 for _, _, n in ops])[0]
    return io_fault(r, c, pth, n)


@named
def w_regerr(r):
    """A regression source that the tool must reject."""
    global _regerr
    L = [c for c in W.regress() if "err" in c["fmt"].lower()]
    return dict(r.choice(L)) if L else w_error(r)


@named
def w_rich(r):
    """Regression sources weighted up: they exercise the most of the language."""
    k = r.random()
    if k < .5: return w_reg(r)
    if k < .75: return w_hand(r)
    if k < .85: return w_probe(r)
    return w_gen(r)


def nofo(argv):
    a, i = [], 0
    while i < len(argv):
        if argv[i] in ("-Fo", "-Fw"):
            i += 2
            continue
        if argv[i][:3] in ("-Fo", "-Fw"):
            i += 1
            continue
        a.append(argv[i])
        i += 1
    return a


# ---------------------------------------------------------------- C03
class C03(Prop):
    rule = "A case is a source that must be rejected (hand-written, generated or regression error program), or a valid one with 1-2 faults of any kind, with or without a stale object file from an earlier run at the output path."
    need_probes = ["failed run", "stale object before", "failed by fault"]

    def cases(self, ctx, seed, idx, tier):
        r = rng(seed, "C03", idx)
        k = r.random()
        w = w_error(r) if k < .3 else w_left(r) if k < .4 else w_regerr(r) if k < .6 else w_any(r)
        if r.random() < .15:
            w = dict(w, argv=[r.choice(["-WX", "-W3", "-e1", "-e2", "-q"])] + w["argv"])
        kn = rknobs(r)
        b = ctx.base(plan1(w, knobs=kn))
        objs = [x for x in created(proc(b)) if x.lower().endswith(OBJEXT)]
        for j in range(16):
            c = dict(w, knobs=kn, faults=[], objs=objs)
            # "findnext" fails after the module has been assembled
            if r.random() < .5 and objs:
                c["files"] = w["files"] + [{"p": o, "d": JUNK[:r.choice([0, 10, 1400])]} for o in objs]
            if j and (k >= .6 or r.random() < .6):
                c["faults"] = [f for f in (anyfault(r, b, kinds="iiiia") for _ in range(r.choice([1, 1, 2]))) if f.get("cls") != "findnext"]
                if r.random() < .15:
                    c["faults"] = []
                    c["quota"] = r.randrange(0, 3000)
            yield c
            if not j and k < .6 and r.random() < .5:
                break

    def oracle(self, ctx, case):
        b = ctx.base(plan1({k: v for k, v in case.items() if k != "faults"}, knobs=case.get("knobs")))
        kw = {"quota": case["quota"]} if "quota" in case else {}
        t = ctx.run(plan1(case, case["faults"], case.get("knobs"), budget=20 * b["calls"] + 200000, **kw))
        p = proc(t)
        e = bad_end(p)
        if e:
            return "bad end: " + e if case["faults"] and not bad_end(proc(b)) else None
        if p["code"] == 0:
            if proc(b)["code"]:
                return "exit status 0 for a program that must be rejected: "
            return None
        ctx.probes["failed run"] += 1
        if p["fired"]: ctx.probes["failed by fault"] += 1
        stale = {f["p"].upper() for f in case["files"] if f["p"].lower().endswith(OBJEXT)} & set(case["objs"])
        if stale: ctx.probes["stale object before"] += 1
        made = created(p)
        for o in case["objs"]:
            if any(f.get("cls") in ("remove", "create", "rename") and f["path"].upper() in (o, "*") for f in case["faults"]) and p["fired"]:
                continue
            x = exists(t, o, case["files"])
            if not x:
                continue
            if x[2] == "same" and o not in made and p["fired"] and (any(f["k"] != "io" for f in case["faults"]) or any(f.get("cls") in ("find", "stat") for f in case["faults"])):
                continue  # the run failed before it could know about the output
            if x[2] == "same" and "quota" in case and o not in made:
                continue
            return "nonzero exit status but an object file is left behind: %s (%s)" % (o, x)


# ---------------------------------------------------------------- C06
ENVNAMES = "TMP TEMP TMPDIR HOME PATH LIB LIBPATH PWD LANG LC_ALL TZ TERM COLUMNS LINES NO_COLOR CLICOLOR_FORCE USER USERNAME COMPUTERNAME HOSTNAME OS COMSPEC SYSTEMROOT PROMPT SOURCE_DATE_EPOCH DEBUG VERBOSE MASM ML ML64 _ML_ ASM ASMFLAGS LINK CL CFLAGS JWASM WASM WATCOM UASMOPT UASMFLAGS UASM64 UASM_INCLUDE UASM_DEBUG UASM_TMP DOS_INCLUDE NT_INCLUDE PROCESSOR_ARCHITECTURE NUMBER_OF_PROCESSORS LESS PAGER EDITOR CI".split()
ENVVALS = ["", "1", "0", "C:\\tmp", "C:\\tmp;C:\\bin", "-c", "/Zi /Fl", "de_DE.UTF-8", "40", "x" * 300, "1700000000"]


class C06(Prop):
    rule = "A case is one workload run once under the reference environment and then under a perturbed one: image, heap and stack addresses, heap and stack contents before first use, reuse of freed blocks, stdio buffer size, terminal or file as stdout, unrelated environment variables."
    need_probes = ["perturbed run"]

    def cases(self, ctx, seed, idx, tier):
        r = rng(seed, "C06", idx)
        k = r.random()
        w = w_rich(r) if k < .6 else (W.scale(r.randrange(100000)) if r.random() < .6 else W.scale(r.randrange(100000), "casing")) if k < .7 else w_left(r) if k < .9 else w_error(r)
        if r.random() < .25 or .6 <= k < .7:
            w = dict(w, argv=r.choice([["-Fl"], ["-Fs=syms.txt"], ["-Fl", "-Sa"], ["-EP"], ["-Zi8"], ["-Zi"]]) + w["argv"])
        for j in range(6):
            kn = rknobs(r, light=False)
            if r.random() < .5: kn["fill"] = r.choice([-1, 0, 255, 0x20, 0xEE])
            env = {}
            if r.random() < .3: env = {"FOO": "x" * r.randrange(300), "TMP": "C:\\tmp"}
            if r.random() < .5: env.update({n: r.choice(ENVVALS) for n in r.sample(ENVNAMES, r.choice([1, 3, 10, 40]))}, **{"*": r.choice(ENVVALS)})
            yield dict(w, knobs=kn, penv=env)

    def oracle(self, ctx, case):
        b = ctx.base(plan1(case))
        pb = proc(b)
        if pb["end"] != "exit" or pb["av"]:
            return None
        penv = dict(case.get("penv", {}))
        if "*" in penv:  # whatever variables the program asks for, those that the user has named in it apart
            v = penv.pop("*")
            for n in pb["envq"]:
                if n not in ("UASM", "INCLUDE") and not any(n in (f["d"] if "d" in f else open(f["h"], encoding="latin1").read()).upper() for f in case["files"]) and not any(n in a.upper() for a in case["argv"] + [str(x) for x in (case.get("env") or {}).values()]):
                    penv[n] = v
        c2 = dict(case, env=dict(case.get("env") or {}, **penv))
        t = ctx.run(plan1(c2, knobs=case.get("knobs"), budget=20 * (b["calls"] + nbytes(b, case)) + 300000))
        ctx.probes["perturbed run"] += 1
        p = proc(t)
        if p["end"] != "exit" or p["av"]:
            return "outcome depends on the environment: reference run exits %d, perturbed run: %s" % (pb["code"], bad_end(p) or p["end"])
        if p["code"] != pb["code"]:
            return "exit status depends on the environment: %d / %d" % (pb["code"], p["code"])
        ob, ot = outs(b), outs(t)
        if ob != ot:
            d = sorted(set(ob.items()) ^ set(ot.items()))[0][0]
            if d.endswith(".lst"):  # the listing ends with the elapsed time
                db = [fdata(ctx.run(plan1(x, knobs=k, want={"data": 1}), False), d) for x, k in ((case, None), (c2, case.get("knobs")))]
                if None not in db and mask_out(db[0]) == mask_out(db[1]) and {k: v for k, v in ob.items() if k != d} == {k: v for k, v in ot.items() if k != d}:
                    return None
            return "output differs between two runs on the same inputs: %s %s / %s" % (d.split("\\")[-1].split(".")[-1], ob.get(d), ot.get(d))
        if mask_out(p["out"]) != mask_out(pb["out"]):
            return "console output differs between two runs on the same inputs: "


# ---------------------------------------------------------------- C08
def modset(r, n, fmtset=None):
    mods, files, opts, g = modset0(r, n, fmtset)
    return mods, files, opts + [o for o in xopts(r) if o[:3] not in ("-nm", "-nd" if "-macho64" in opts else "-nm")], g


def modset0(r, n, fmtset=None):
    """n modules that share files and options; [(main name)], files, opts"""
    k = r.random()
    if k < .55:
        byg = {}
        for c in W.regress():
            byg.setdefault(c["fmt"], []).append(c)
        gs = sorted(g for g in byg if len(byg[g]) >= 2)
        g = r.choices(gs, [len(byg[g]) ** .5 for g in gs])[0]
        L = [c for c in byg[g] if sum(os.path.getsize(f["h"]) for f in c["files"]) < 60000] or byg[g][:2]
        pick = [dict(r.choice(L)) for _ in range(n)]
        seen, files, mods = set(), [], []
        for c in pick:
            m = c["argv"][-1]
            if m in mods:
                continue
            mods.append(m)
            for f in c["files"]:
                if f["p"].lower() not in seen:
                    seen.add(f["p"].lower())
                    files.append(f)
        return mods, files, nofo(pick[0]["argv"][:-1]) + r.choice([[]] * 6 + [["-EP"]]), g
    if k < .85:
        fmt = r.choice(W.FORMATS)
        opts = r.choice(W.OPTSETS[fmt]) + r.choice([(), ("-Fl",), ("-q",), ("-Fl", "-Sg"), ("-EP",), ("-q", "-EP")])
        files, mods = [], []
        for i in range(n):
            w = W.hand(fmt, r.choice([0, 0, 3, 20]), opts, name="m%d" % i, seed=r.randrange(1, 500))
            if r.random() < .3:
                e = w_error(r)
                if e.get("fmt") == fmt: w = dict(w, files=[dict(w["files"][0], d=e["files"][0]["d"])] + w["files"][1:])
            mods.append("m%d.asm" % i)
            files += [f for f in w["files"] if f["p"].lower() not in {x["p"].lower() for x in files}]
        return mods, files, w["argv"][:-1], fmt
    f, bits = r.choice(W.GENFMT)
    files, mods = [], []
    for i in range(n):
        w = W.gen(r.randrange(1 << 30), r.choice([10, 30, 80]), (f, bits))
        ren = {}
        for x in w["files"][1:]:
            b = x["p"].split("\\")[-1]
            ren[b] = "g%d_%s" % (i, b)
        s = w["files"][0]["d"]
        for a, c in ren.items():
            s = s.replace("include " + a, "include " + c)
        files.append({"p": WORK + "g%d.asm" % i, "d": s})
        files += [{"p": WORK + ren[x["p"].split("\\")[-1]], "d": x["d"]} for x in w["files"][1:]]
        mods.append("g%d.asm" % i)
    return mods, files, ["-" + f], f


def probebits(opts, g):
    """the kind of probe program that fits the options of a set of modules"""
    if g in W.PROBEBITS:
        return W.PROBEBITS[g]
    o = [x.lower() for x in opts]
    if any(x in o for x in ("-win64", "-elf64", "-macho64")):
        return 64
    return 32 if any(x in o for x in ("-coff", "-elf", "-pe", "-djgpp")) else 16


def mixset(r, n):
    """n modules of different formats, each with its own options: [(options, main name)], files, [], name"""
    mods, files, seen = [], [], {}
    for i in range(n):
        w = w_reg(r) if r.random() < .6 else W.hand(*(lambda f: (f, r.choice([0, 0, 3, 20]), r.choice(W.OPTSETS[f]) + r.choice([(), ("-Fl",), ("-Fs=s%d.txt" % i,), ("-W3",)])))(r.choice(W.FORMATS)), name="x%d" % i, seed=r.randrange(1, 500))
        m = w["argv"][-1]
        if m.lower() in {x.lower() for _, x in mods} or any(f["p"].lower() in seen and seen[f["p"].lower()] != f for f in w["files"]):
            continue
        for f in w["files"]:
            if f["p"].lower() not in seen:
                seen[f["p"].lower()] = f
                files.append(f)
        mods.append((nofo(w["argv"][:-1]), m))
    return mods, files, [], "mixed"


class C08(Prop):
    quick_s = 60.0
    rule = "A case is 2-4 modules (regression sources of one group, hand-written or generated programs, some invalid) assembled in one invocation in a random order, listed or found by wildcard, with options changing between them, optionally with a fault aimed at one module's files; each is also assembled alone."
    need_probes = ["combined run", "module failed in company", "fault in one module"]

    def cases(self, ctx, seed, idx, tier):
        r = rng(seed, "C08", idx)
        mixed = r.random() < .3
        mods, files, opts, g = modset(r, r.choice([2, 2, 3, 4])) if not mixed else mixset(r, r.choice([2, 3, 4]))
        if len(mods) < 2:
            return
        if not mixed and r.random() < .25:  # the same text again: what is done or said once for a run shows
            m = r.choice(mods)
            f = [f for f in files if f["p"].split("\\")[-1] == m][:1]
            if f:
                files = files + [dict(f[0], p=WORK + "cp0.asm")]
                mods = mods + ["cp0.asm"]
        if r.random() < .4:  # some modules leave things open or changed behind; others show what was left
            files = [dict(f) for f in files]
            names = [m[1] if mixed else m for m in mods]
            if not mixed and r.random() < .6:
                bits = probebits(opts, g)
                for i in range(r.choice([1, 1, 2])):
                    names.append("pr%d.asm" % i)
                    mods = mods + [names[-1]]
                    files.append({"p": WORK + names[-1], "d": W.probe(bits, r.randrange(1, 200))})
            for f in files:
                if f["p"].split("\\")[-1] in names and r.random() < (.2 if "\\pr" in f["p"] else .6):
                    d = f["d"] if "d" in f else open(f["h"], encoding="latin1", newline="").read()
                    f.pop("h", None)
                    f["d"] = W.leftover(r, d)
        for j in range(4):
            L = mods[:]
            r.shuffle(L)
            seq = [[[], m] for m in L] if not mixed else [[list(o), m] for o, m in L]
            L = [m for o, m in seq]
            if r.random() < .35:
                for s in seq:
                    if r.random() < .5:
                        s[0] = [r.choice(["-Fl", "-Zd", "-W1", "-W3", "-Sa", "-Zp4", "-Cp", "-DFOOX=3", "-Sg", "-q", "-Gz", "-Zne" if False else "-Zf", "-Flx%d.lst" % r.randrange(9), "-Foo%d.out" % r.randrange(99), "-nm=NAME%d" % r.randrange(9), "-e3"])]
            c = {"name": "multi-" + g, "files": files, "opts": opts, "seq": seq, "faults": []}
            if j and r.random() < .5:
                m = r.choice(L)
                c["faults"] = [{"k": "io", "cls": r.choice(["read", "write", "open", "create", "close"]), "path": WORK + m, "n": 0, "err": EIO, "sticky": r.randrange(2)}]
                f = c["faults"][0]
                if f["cls"] in ("write", "create", "close") and r.random() < .9:
                    f["path"] = (declared(opts + [m])[0][1])["obj"]
                    f["n"] = r.choice([0, 0, 1, 5])
                c["fm"] = m
            yield c

    def alone(self, ctx, case, opts, m):
        return ctx.base({"files": case["files"], "steps": [{"procs": [{"argv": opts + [m]}]}], "want": {}})

    def oracle(self, ctx, case):
        opts = list(case["opts"])
        exp, code, allm, con = {}, 0, [], ""
        argv = list(opts)
        spoiled = set()
        for o, m in case["seq"]:
            opts = opts + o
            # a named output belongs to the next module only
            cur = opts
            argv += o + [m]
            a = self.alone(ctx, case, cur, m)
            opts = [x for x in opts if not re.match(r"-F[olw].", x)] + (["-Fl"] if any(x.startswith("-Fl") for x in opts) else [])
            if proc(a)["end"] != "exit" or bad_end(proc(a)):
                return None
            if proc(a)["code"]:
                code = 1
            con += nobanner(proc(a)["out"])
            oo = outs(a)
            if set(oo) & (set(exp) | spoiled):
                return None  # two modules declare the same output
            if m == case.get("fm"):
                spoiled |= set(oo) | {x.lower() for x in created(proc(a))}
            else:
                exp.update(oo)
                allm += msglines(proc(a)["out"])
        t = ctx.run({"files": case["files"], "steps": [{"procs": [{"argv": argv, "faults": case["faults"]}]}], "want": {}, "budget": 30000000})
        p = proc(t)
        ctx.probes["combined run"] += 1
        if code: ctx.probes["module failed in company"] += 1
        if p["fired"]: ctx.probes["fault in one module"] += 1
        e = bad_end(p)
        if e:
            return "bad end of a run over several modules: " + e
        ot = outs(t)
        if case.get("fm"):
            d = {x.lower() for k, v in declared(argv) if k == case["fm"] for x in v.values()} | spoiled
            ot = {k: v for k, v in ot.items() if k not in d}
            exp = {k: v for k, v in exp.items() if k not in d}
        if ot != exp:
            d = sorted(set(exp.items()) ^ set(ot.items()))[0][0]
            if d.endswith(".lst"):
                return self.lst(ctx, case, argv, d)
            return "a module assembled in company differs from the same module alone: %s has %s, alone %s" % (d, ot.get(d), exp.get(d))
        if not case.get("fm"):
            if p["code"] != code:
                return "exit status of several modules is %d but should be %d: " % (p["code"], code)
            if msglines(p["out"]) != allm:
                x = [l for l in msglines(p["out"]) if l not in allm] or [l for l in allm if l not in msglines(p["out"])] or ["order"]
                return "diagnostics of a module assembled in company differ from those of the same module alone: " + x[0]
            if mask_out(nobanner(p["out"])) != mask_out(con):
                return "console output of modules assembled in company differs from that of the modules alone: " + cdiff(mask_out(con), mask_out(nobanner(p["out"])))
        elif p["fired"] and not p["code"] and not (case["faults"][0]["cls"] == "close" and case["faults"][0]["path"].lower() == (WORK + case["fm"]).lower()):  # closing a file that was only read can't lose anything
            return "exit status 0 although a module met an i/o error: "

    def lst(self, ctx, case, argv, d):
        t = ctx.run({"files": case["files"], "steps": [{"procs": [{"argv": argv, "faults": case["faults"]}]}], "want": {"data": 1}, "budget": 30000000}, False)
        opts = list(case["opts"])
        for o, m in case["seq"]:
            opts = opts + o
            a = ctx.run({"files": case["files"], "steps": [{"procs": [{"argv": opts + [m]}]}], "want": {"data": 1}}, False)
            opts = [x for x in opts if not re.match(r"-F[olw].", x)] + (["-Fl"] if any(x.startswith("-Fl") for x in opts) else [])
            x, y = fdata(a, d), fdata(t, d)
            if x is not None:
                if y is None:
                    return "a module assembled in company lacks its listing: " + d
                x, y = mask_out(x), mask_out(y)
                if x != y:
                    X, Y = x.split("\n"), y.split("\n")
                    q = next((i for i in range(min(len(X), len(Y))) if X[i] != Y[i]), -1)
                    return "the listing of a module assembled in company differs from the same module alone: line %d %r / %r" % (q, X[q], Y[q])
        return None


# ---------------------------------------------------------------- C09
class C09(Prop):
    rule = "A case is a command line naming 1-5 sources (good, bad, missing, matched by a wildcard or not), in any order, directly, through a response file or the UASM variable, with -WX/-W/-e settings and optionally one fault of any kind."
    need_probes = ["several modules", "nonzero", "zero"]

    def cases(self, ctx, seed, idx, tier):
        r = rng(seed, "C09", idx)
        fmt = r.choice(["coff", "bin32", "omf", "elf", "win64"])
        files, names = [], []
        for i in range(r.choice([1, 2, 3, 5])):
            k = r.random()
            w = W.hand(fmt, r.choice([0, 3]), r.choice(W.OPTSETS[fmt]), name="q%d" % i, seed=i + 1)
            if k < .3:
                e = w_error(r)
                while e["fmt"] != fmt:
                    e = w_error(r)
                w["files"][0]["d"] = e["files"][0]["d"]
            elif k < .45:
                w["files"][0]["d"] = w["files"][0]["d"].replace("start:", "start:\r\n .if eax\r\n .endif\r\n %s" % r.choice(["echo text", "mov ax, bx", "db 1,2"]), 1)
            if k < .9:
                files += [f for f in w["files"] if f["p"].lower() not in {x["p"].lower() for x in files}]
            names.append("q%d.asm" % i)
        opts = w["argv"][:-1] + r.choice([[], [], ["-WX"], ["-W3"], ["-W4", "-WX"], ["-e1"], ["-e3"], ["-q"], ["-eq"], ["-Fl"]])
        for j in range(5):
            L = names[:]
            r.shuffle(L)
            form = r.choice(["list", "list", "wild", "rsp", "env", "mixed"])
            c = {"name": "status", "files": files, "form": form, "opts": opts, "seq": L, "faults": []}
            if r.random() < .4:
                c["rf"] = r.randrange(1 << 30)
            if r.random() < .3:
                c["knobs"] = {"findord": r.randrange(1, 99)}
            yield c

    def line(self, case):
        L, o, f, env = case["seq"], list(case["opts"]), case["form"], {}
        files = list(case["files"])
        if f == "list": a = o + L
        elif f == "wild": a = o + ["q*.asm"]
        elif f == "rsp":
            files.append({"p": WORK + "a.rsp", "d": "\r\n".join(o + L) + "\r\n"})
            a = ["@a.rsp"]
        elif f == "env":
            a = L
            env = {"UASM": " ".join(o)}
        else:
            files.append({"p": WORK + "a.rsp", "d": " ".join(L[:1]) + "\r\n"})
            a = o + ["@a.rsp"] + L[1:]
        return a, files, env

    def oracle(self, ctx, case):
        a, files, env = self.line(case)
        w = {"argv": a, "files": files, "env": env}
        faults = case["faults"]
        if case.get("rf") is not None and not faults:
            b = ctx.base(plan1(w, knobs=case.get("knobs")))
            if proc(b)["end"] != "exit":
                return None
            faults = case["faults"] = [anyfault(rng(case["rf"]), b, kinds="iiiia")]
        t = ctx.run(plan1(w, faults, case.get("knobs"), budget=30000000))
        p = proc(t)
        e = bad_end(p)
        if e:
            return "bad end: " + e
        have = {f["p"].lower().split("\\")[-1] for f in files}
        src = [m for m in case["seq"] if m in have] if case["form"] == "wild" else case["seq"]
        want = 0
        objs = {}
        for m in src:
            if m not in have:
                want = 1
                continue
            s = ctx.base(plan1({"files": case["files"], "argv": list(case["opts"]) + [m]}))
            if proc(s)["code"]:
                want = 1
            objs[m] = (proc(s)["code"], declared(list(case["opts"]) + [m])[0][1]["obj"])
        if case["form"] == "wild" and not src:
            want = 1
        if len(src) > 1: ctx.probes["several modules"] += 1
        ctx.probes["nonzero" if p["code"] else "zero"] += 1
        if not p["fired"] and p["code"] != want:
            return "exit status is %d but should be %d: %s" % (p["code"], want, " ".join(a))
        if p["fired"] and want and not p["code"]:
            return "exit status 0 although a module cannot be assembled: "
        if p["code"] == 0:
            if errlines(p["out"]):
                return "exit status 0 although an error was reported: " + errlines(p["out"])[0]
            o = {k.upper() for k in outs(t)}
            for m, (c, path) in objs.items():
                if path not in o:
                    return "exit status 0 but a requested object file is missing: " + path
        elif not has_msg(p) and "-eq" not in case["opts"] and not any(f.get("path", "").lower() == "<stdout>" for f in faults):
            return "nonzero exit without any message: code %d" % p["code"]


# ---------------------------------------------------------------- C11
class C11(Prop):
    rule = "A case is a workload (one or several modules) interrupted by a break or a fault signal at one random call of the run, at a random buffer size, with or without a stale object at the output path."
    need_probes = ["signal handled", "object was open"]

    def cases(self, ctx, seed, idx, tier):
        r = rng(seed, "C11", idx)
        w = w_any(r)
        if r.random() < .3:
            mods, files, opts, g = modset(r, 3)
            w = {"name": "multi", "files": files, "argv": opts + mods, "fmt": g}
        kn = rknobs(r)
        b = ctx.base(plan1(w, knobs=kn))
        p = proc(b)
        if p["end"] != "exit" or p["av"]:
            return
        objs = [x for x in created(p) if x.lower().endswith(OBJEXT)]
        for j in range(20):
            c = dict(w, knobs=kn, objs=objs, faults=[{"k": "sig", "n": r.randrange(p["calls"]) if r.random() < .7 else max(0, p["calls"] - 1 - r.randrange(min(p["calls"], 40))), "err": r.choice([11, 21])}])
            if r.random() < .4:
                c["files"] = w["files"] + [{"p": o, "d": JUNK} for o in objs]
            if r.random() < .2:
                c["faults"].append(io_fault(r, *r.choice([x for x in opsof(b) if x[0] in ("write", "close", "open", "create")] or [("write", "<stdout>", 1)])))
            yield c

    def oracle(self, ctx, case):
        b = ctx.base(plan1(case, knobs=case.get("knobs")))
        if proc(b)["end"] != "exit" or proc(b)["av"]:
            return None
        t = ctx.run(plan1(case, case["faults"], case.get("knobs"), budget=20 * b["calls"] + 200000))
        p = proc(t)
        e = bad_end(p)
        if e:
            return "bad end after an interrupt: " + e
        if not any("sig" in f for f in p["fired"]) or p["end"] != "exit":
            return None
        ctx.probes["signal handled"] += 1
        if set(case["objs"]) & created(p): ctx.probes["object was open"] += 1
        if p["code"] == 0 and not proc(b)["code"]:
            return "exit status 0 although the assembly was interrupted: "
        ob = outs(b)
        for o in case["objs"]:
            x = exists(t, o, case["files"])
            if not x or (x[2] == "same" and o not in created(p)):
                continue
            if any(f.get("cls") in ("remove", "create") and f["path"].upper() == o for f in case["faults"]):
                continue
            if ob.get(o.lower()) == x[:2]:
                continue
            return "an interrupted run leaves an incomplete object file: %s %s, complete %s" % (o, x, ob.get(o.lower()))


# ---------------------------------------------------------------- C12
class C12(Prop):
    rule = "A case is a history of 1-4 runs in one directory; between runs the source is edited; each run may be killed at a random call, or meet a fault, a full disk or stale files; the last run is undisturbed."
    need_probes = ["killed", "converged"]

    def cases(self, ctx, seed, idx, tier):
        r = rng(seed, "C12", idx)
        w = w_any(r)
        if r.random() < .3: w = dict(w, argv=["-Fl"] + w["argv"])
        kn = rknobs(r)
        b = ctx.base(plan1(w, knobs=kn))
        if proc(b)["end"] != "exit" or proc(b)["av"]:
            return
        src = next((f for f in w["files"] if f["p"].lower().endswith("\\" + w["argv"][-1].lower())), None)
        for j in range(10):
            steps = []
            for _ in range(r.choice([1, 1, 2, 3])):
                st = {"edit": r.choice([None, None, "err", "big", "trunc", "empty"]), "faults": []}
                for _ in range(r.choice([1, 1, 2])):
                    st["faults"].append(anyfault(r, b, kinds="kkkkkiias"))
                if r.random() < .15:
                    st["quota"] = r.randrange(0, 4000)
                steps.append(st)
            c = dict(w, knobs=kn, seq=steps)
            if r.random() < .3:
                c["files"] = w["files"] + [{"p": o, "d": JUNK * r.choice([1, 30])} for o in created(proc(b))]
            c["main"] = src["p"] if src else None
            yield c

    def variant(self, case, kind):
        f = next(f for f in case["files"] if f["p"] == case["main"])
        if "d" in f: d = f["d"]
        else:
            with open(f["h"], "rb") as h: d = h.read().decode("latin1")
        if kind == "err": d = d + "\r\n mov nosuch, 1 2 3\r\n"
        elif kind == "big": d = d.replace("\nend", "\n db 3000 dup (1)\r\nend", 1) if "\nend" in d else d + " db 3000 dup (1)\r\n"
        elif kind == "trunc": d = d[:len(d) // 2]
        elif kind == "empty": d = ""
        return {"do": "put", "p": f["p"], "d": d}

    def oracle(self, ctx, case):
        clean = {k: v for k, v in case.items() if k != "files"}
        made = {f["p"].upper() for f in case["files"]}
        fresh = dict(clean, files=[f for f in case["files"] if not (f.get("d", "").startswith("stale output"))])
        b = ctx.base(plan1(fresh, knobs=case.get("knobs")))
        if proc(b)["end"] != "exit" or proc(b)["av"]:
            return None
        pr = {"argv": case["argv"]}
        if case.get("env"): pr["env"] = case["env"]
        steps, ed = [], False
        orig = next((f for f in case["files"] if f["p"] == case["main"]), None)
        for s in case["seq"]:
            ops = []
            if s["edit"] and case["main"]:
                ops.append(self.variant(case, s["edit"])); ed = True
            elif ed:
                ops.append(dict(orig, do="put")); ed = False
            ops.append({"do": "quota", "n": s.get("quota", -1)})
            steps.append({"ops": ops, "procs": [dict(pr, faults=s["faults"])], "budget": 4 * b["calls"] + 100000})  # an endless run is killed
        steps.append({"ops": ([dict(orig, do="put")] if ed else []) + [{"do": "quota", "n": -1}], "procs": [dict(pr)]})
        p = {"files": case["files"], "steps": steps, "want": {}, "budget": 30000000}
        if case.get("knobs"): p["knobs"] = case["knobs"]
        t = ctx.run(p)
        for i in range(len(case["seq"])):
            q = proc(t, i)
            if any("kill" in f for f in q["fired"]): ctx.probes["killed"] += 1
        p = proc(t)
        if p["end"] != "exit" or p["code"] != proc(b)["code"]:
            return "the run after a crash does not behave as a fresh one: exits %s %d, fresh %d" % (p["end"], p["code"], proc(b)["code"])
        ob, ot = outs(b), outs(t)
        decl = {x.lower() for x in created(proc(b))} | {x.lower() for x in created(p)} | {v.lower() for _, d in declared(case["argv"]) for v in d.values()}
        ot = {k: v for k, v in ot.items() if k in decl or k in ob}
        d = [k for k in set(ob) | set(ot) if ob.get(k) != ot.get(k)]
        for k in sorted(d):
            if k.endswith(".lst"):
                x = fdata(ctx.run(dict(plan1(fresh, knobs=case.get("knobs")), want={"data": 1}), False), k)
                pp = {"files": case["files"], "steps": steps, "want": {"data": 1}, "budget": 30000000}
                if case.get("knobs"): pp["knobs"] = case["knobs"]
                y = fdata(ctx.run(pp, False), k)
                if x is not None and y is not None and DATE.sub("D", mask_out(x)) == DATE.sub("D", mask_out(y)):
                    continue
            if k in ob and k in ot and ob[k][0] == ot[k][0] and stamped(case["argv"]):
                continue
            return "files after recovery are not those of a fresh run: %s %s, fresh %s" % (k, ot.get(k), ob.get(k))
        ctx.probes["converged"] += 1


DATE = re.compile(r"\d\d/\d\d/\d\d(?:\d\d)?|\d\d:\d\d:\d\d")


def stamped(argv):
    return False


# ---------------------------------------------------------------- C13
class C13(Prop):
    rule = "A case is a program with errors, with warnings only or with none, and with a stale .err file or not, optionally with a fault that does not concern the .err file."
    need_probes = ["diagnostics", "no diagnostics", "stale .err"]

    def cases(self, ctx, seed, idx, tier):
        r = rng(seed, "C13", idx)
        k = r.random()
        w = w_error(r) if k < .2 else w_left(r) if k < .4 else w_regerr(r) if k < .6 else w_any(r)
        o = r.choice([[], [], ["-W3"], ["-W4"], ["-WX"], ["-e2"], ["-e5"], ["-eq"], ["-Fw=my.err"], ["-Fw=my"], ["-Fl"], ["-q"], ["-Zs"]])
        if k >= .6 and r.random() < .5 and "h" not in w["files"][0]:
            d = w["files"][0]["d"]
            w = dict(w, files=[dict(w["files"][0], d=d.replace("start:", "start:\r\n" + "".join(" option nosuchopt%d\r\n" % i if False else " .errb <>\r\n" if False else " if1\r\n endif\r\n" for i in range(3)), 1))] + w["files"][1:])
        w = dict(w, argv=o + w["argv"])
        kn = rknobs(r)
        b = ctx.base(plan1(w, knobs=kn))
        if proc(b)["end"] != "exit":
            return
        errp = declared(w["argv"])[0][1]["err"]
        for j in range(8):
            c = dict(w, knobs=kn, faults=[], err=errp)
            if r.random() < .5:
                c["files"] = w["files"] + [{"p": errp, "d": JUNK * r.choice([1, 20])}]
            if j and r.random() < .6:
                f = anyfault(r, b, kinds="iiiiia")
                if f.get("path", "").upper() != errp and f.get("path", "").lower() != "<stdout>":
                    c["faults"] = [f]
            yield c

    def oracle(self, ctx, case):
        t = ctx.run(plan1(case, case["faults"], case.get("knobs"), want={"files": [case["err"]]}, budget=30000000), True)
        p = proc(t)
        if p["end"] != "exit" or p["av"]:
            return None
        if any("null" in f for f in p["fired"]):
            # out of memory may come before the file's name is known
            return None
        con, x = msglines(p["out"]), exists(t, case["err"], case["files"])
        ctx.probes["diagnostics" if con else "no diagnostics"] += 1
        stale = any(f["p"].upper() == case["err"] for f in case["files"])
        if stale: ctx.probes["stale .err"] += 1
        if any(f.get("cls") in ("remove", "find", "findnext") for f in case["faults"]) and p["fired"]:
            return None
        d = fdata(t, case["err"])
        if x and x[2] == "same":
            return "a stale .err file survives the run: "
        if x and "stale output" in (d or ""):
            return "the .err file keeps contents of an earlier run: "
        if "-eq" in case["argv"]:
            con = None
        if x and not msglines(d):
            return "an .err file without a diagnostic is left: "
        if con is not None:
            # diagnostics issued after the .err file is closed can only go to the console
            late = [l for l in con if re.search(r"A(?:1|2)\d{3}: .*(?:close|[Ww]rit)", l)]
            have = msglines(d or "")
            if [l for l in have if l not in con]:
                return "the .err file holds a diagnostic that the console does not: " + [l for l in have if l not in con][0]
            miss = [l for l in con if l not in have and l not in late]
            if miss:
                return "a diagnostic is missing from the .err file: " + miss[0]
            if [l for l in con if l in have] != have:
                return "the .err file and the console list diagnostics differently: "
        if p["code"] and not x and not (con or case["faults"]):
            return "nonzero exit status but neither a diagnostic nor an .err file: "
        if p["code"] and "-eq" in case["argv"] and not x and not case["faults"]:
            return "-eq: nonzero exit status but no .err file: "


# ---------------------------------------------------------------- C14
class C14(Prop):
    quick_s = 60.0
    rule = "A case is a module (with options, or in a response file with options) assembled 1, 2 and 4 times in one invocation, or 1-4 times with the same fault (I/O or allocation) at the same point of every repetition after the first; the memory held at exit is compared, and the files open at exit are counted. Other cases: faults anywhere, 24-40 repetitions under a small handle limit."
    need_probes = ["repeated", "with fault", "fault repeated"]

    def cases(self, ctx, seed, idx, tier):
        r = rng(seed, "C14", idx)
        k = r.random()
        w = w_reg(r) if k < .32 else w_error(r) if k < .5 else w_left(r) if k < .7 else W.scale(r.randrange(100000)) if k < .8 else w_any(r)
        w = dict(w, argv=nofo([a for a in w["argv"]]))
        if r.random() < .3:
            w["argv"][:0] = r.choice([["-e1"], ["-e2"], ["-WX"], ["-Zi8"], ["-Zi"], ["-Fl"], ["-Fl", "-Sg"], ["-Fs=s.txt"], ["-Fdd.def"]])
        c = dict(w, faults=[], knobs=rknobs(r))
        unit = [x for x in r.sample(["-Fo=o1.out", "-nm=NAMEX", "-Fl=x.lst", "-nd=DSEG", "-nt=TSEG", "-nc=CLS", "-Fw=e.txt", "-Fs=t.txt", "-Fdx.def", "-DAB=1", "-IC:\\x", "-W2", "-W3"], r.choice([1, 2, 4]))] + w["argv"][-1:]
        k = r.random()
        if k < .35:
            rsp = [{"p": WORK + "u.rsp", "d": "@v.rsp "}, {"p": WORK + "v.rsp", "d": "\r\n".join(unit)}, {"p": WORK + "w.rsp", "d": ""}]
            unit = r.choice([["@u.rsp"], ["@v.rsp"], ["@v.rsp", "@w.rsp"], ["@RVAR"]])
            c = dict(c, files=c["files"] + rsp, env={"RVAR": "@v.rsp"})
        if k < .6: c["unit"] = unit
        yield c
        b = ctx.base(plan1(w, knobs=c["knobs"]))
        for _ in range(5):
            yield dict(c, faults=[anyfault(r, b, kinds="iiia") for _ in range(r.choice([1, 2]))])
        for _ in range(5):
            f = anyfault(r, b, kinds="iia")
            if f["k"] != "membudget":
                f.pop("sticky", 0)
                yield dict(c, rep=f)
        yield dict(c, many=r.choice([24, 40]), knobs=dict(c["knobs"], maxopen=r.choice([10, 12, 16])))

    def oracle(self, ctx, case):
        kn = case.get("knobs")
        b = ctx.base(plan1(case, knobs=kn))
        if proc(b)["end"] != "exit" or proc(b)["av"]:
            return None
        m = case["argv"][-1]
        if case.get("many"):
            k2 = {k: v for k, v in kn.items() if k != "maxopen"}
            nest = ctx.base(plan1(case, knobs=kn))
            one = ctx.base(plan1(case, knobs=k2))
            if outs(nest) != outs(one) or proc(nest)["code"] != proc(one)["code"]:
                return None  # the module itself needs more
            t = ctx.run(plan1(dict(case, argv=case["argv"] + [m] * case["many"]), knobs=kn, budget=max(40000000, 100 * b["calls"])))
            if proc(t)["end"] != "exit":
                return "bad end when many modules are assembled: " + proc(t)["end"]
            if proc(t)["code"] != proc(b)["code"]:
                return "file handles run out over many modules: exit status %d, one module alone %d" % (proc(t)["code"], proc(b)["code"])
            return None
        unit = case.get("unit") or [m]
        if case.get("unit"):
            u = proc(ctx.base(plan1(dict(case, argv=case["argv"][:-1] + unit), knobs=kn)))
            if u["end"] != "exit" or u["av"]:
                return None
        av = lambda n: case["argv"] + unit * (n - 1)
        if case.get("rep"):
            f, key, fs, hs = case["rep"], "", [], []
            if f["k"] == "io": key = f["cls"] + "|" + f["path"]
            for n in (1, 2, 3, 4):
                t = ctx.run(plan1(dict(case, argv=av(n)), fs, kn, budget=max(40000000, 100 * b["calls"])))
                p = proc(t)
                if p["end"] != "exit" or p["av"]:
                    return None
                if len(p["fired"]) != len(fs):
                    return None
                hs.append((p["heap"], p["code"]))
                fs = fs + [dict(f, n=f["n"] + (p["ops"].get(key, 0) if key else p["allocs"]))]
            ctx.probes["fault repeated"] += 1
            for i, what in ((0, "heap blocks"), (2, "memory mappings")):
                g = [hs[j + 1][0][i] - hs[j][0][i] - (len(unit) if i == 0 else 0) for j in range(3)]
                if min(g) > 0:
                    return "every further module that is hit by a fault leaves more %s allocated: %s" % (what, g)
            return None
        if case["faults"]:
            t = ctx.run(plan1(case, case["faults"], kn, budget=20 * b["calls"] + 200000))
            p = proc(t)
            if p["end"] != "exit" or p["av"]:
                return None
            if p["fired"]: ctx.probes["with fault"] += 1
            st = p["streams"]
            if st:
                return "files are still open at exit: %s" % st[0]
            if p["finds"] and not any("null" in f for f in p["fired"]):
                return "a directory search is still open at exit: "
            return None
        hs = []
        for n in (1, 2, 4):
            t = ctx.run(plan1(dict(case, argv=av(n)), knobs=kn, budget=max(40000000, 100 * b["calls"])))
            p = proc(t)
            if p["end"] != "exit" or p["av"]:
                return "bad end when a module is assembled %d times: %s" % (n, bad_end(p) or p["end"])
            if p["streams"]:
                return "files are still open at exit: " + p["streams"][0]
            if p["finds"]:
                return "a directory search is still open at exit: "
            hs.append((p["heap"], p["code"]))
        ctx.probes["repeated"] += 1
        (h1, c1), (h2, c2), (h4, c4) = hs
        if len({c1, c2, c4}) > 1 and not case.get("unit"):
            return "the exit status changes when a module is assembled again: %s" % [c1, c2, c4]
        for i, what in ((0, "heap blocks"), (2, "memory mappings")):
            g = (h4[i] - h2[i]) / 2 - (len(unit) if i == 0 else 0)  # the C runtime's start-up code copies each argument into one block
            if g > 0:
                return "every further module leaves more %s allocated: %g per module" % (what, g)


# ---------------------------------------------------------------- C15
def mutate(r, f):
    """Another version of an input file, or None: it is removed."""
    d = f.get("d")
    if d is None:
        d = open(f["h"], encoding="latin1", newline="").read()
    k = r.random()
    if k < .2:
        return None
    if f["p"].lower().endswith((".bin", ".dat")) or "\0" in d:
        k = r.random()
        if k < .3: return d[::-1]
        if k < .5: return d[:r.randrange(len(d) + 1)]
        if k < .6: return ""
        if k < .8: return d + chr(r.randrange(256)) * r.choice([1, 5, 300, 5000])
        i = r.randrange(len(d) + 1)
        return d[:i] + "MUT" + d[i:]
    cr = "\r\n" if "\r\n" in d else "\n"
    L = d.split(cr)
    i = r.randrange(len(L))
    k = r.random()
    if k < .35:
        L.insert(i, r.choice([" nop", " db 77", "; nothing", "", " dd 1,2,3,4", "newequ equ 5", "include nosuch.inc", " db 200 dup (1)", ".err"]))
    elif k < .6:
        del L[i:i + r.choice([1, 1, 2, 10])]
    elif k < .8:
        m = list(re.finditer(r"\b\d+\b", d))
        if m:
            m = r.choice(m)
            return d[:m.start()] + str(int(m.group(0)) + r.choice([1, 1, 3, 100])) + d[m.end():]
    elif k < .9:
        return cr.join(L[:i]) + cr
    else:
        j = r.randrange(len(L))
        L[i], L[j] = L[j], L[i]
    return cr.join(L)


class C15(Prop):
    rule = "A case is any workload (valid, invalid, truncated, spliced, several modules) under a storm of 1-6 faults of all kinds at once: i/o errors, full disk, failing allocations, signals, clock jumps, small buffers."
    need_probes = ["ended"]

    def cases(self, ctx, seed, idx, tier):
        r = rng(seed, "C15", idx)
        k = r.random()
        w = w_any(r) if k < .5 else w_left(r) if k < .6 else w_error(r) if k < .75 else w_regerr(r)
        if r.random() < .2:
            mods, files, opts, g = modset(r, 3)
            w = {"name": "multi", "files": files, "argv": opts + mods, "fmt": g}
        w = dict(w, argv=r.choice([[], ["-Fl"], ["-e1"], ["-e2"], ["-Fs=s.txt"], ["-EP"], ["-Fl", "-Sa"]]) + w["argv"])
        kn = rknobs(r, light=False)
        b = ctx.base(plan1(w, knobs=kn))
        if proc(b)["end"] != "exit" or proc(b)["av"]:
            return
        for j in range(20):
            fs = [anyfault(r, b, kinds="iiiiaas") for _ in range(r.choice([1, 2, 3, 6]))]
            if r.random() < .3:
                fs.append({"k": "clock", "n": r.randrange(max(1, proc(b)["times"])), "delta": r.choice([-86400 * 3650, 86400 * 3650, 3600, -1, 10 ** 9])})
            if r.random() < .15:  # somebody rewrites an input, even while it is being read
                f = r.choice(w["files"])
                d = mutate(r, f) if f["p"].lower().endswith((".bin", ".dat")) else None  # other source texts are not a fault
                fs.append(dict({"k": "mut", "path": f["p"], "n": r.randrange(b["calls"]), "ip": 1}, **({"rm": 1} if d is None else {"d": d})))
            c = dict(w, knobs=kn, faults=fs)
            if r.random() < .2: c["quota"] = r.randrange(0, 5000)
            yield c

    def oracle(self, ctx, case):
        b = ctx.base(plan1(case, knobs=case.get("knobs")))
        if proc(b)["end"] != "exit" or proc(b)["av"]:
            return None
        kw = {"quota": case["quota"]} if "quota" in case else {}
        t = ctx.run(plan1(case, case["faults"], case.get("knobs"), budget=20 * b["calls"] + 200000, **kw))
        p = proc(t)
        if p["end"] == "exit": ctx.probes["ended"] += 1
        e = bad_end(p)
        if e:
            return "bad end under faults: " + re.sub(r"\+0x[0-9a-f]+", "", e)
        if p["end"] == "exit" and p["code"] not in (0, 1, 255, -1):
            return "exit status is neither 0 nor 1: %d" % p["code"]
        if p["end"] == "exit" and p["code"] == 0 and proc(b)["code"] and not any(f["k"] == "mut" for f in case["faults"]):
            return "exit status 0 for a program that must be rejected: "


# ---------------------------------------------------------------- C16
class C16(Prop):
    quick_s = 60.0
    rule = "A case is 2-3 invocations at once in one directory, sharing include files, on different sources (or one source with different output names), preempted at random calls by the seeded scheduler; one of them may be killed or meet faults."
    need_probes = ["interleaved", "one disturbed"]

    def cases(self, ctx, seed, idx, tier):
        r = rng(seed, "C16", idx)
        n = r.choice([2, 2, 3])
        if r.random() < .75:
            mods, files, opts, g = modset(r, n)
            if len(mods) < 2:
                return
            procs = [{"argv": opts + [m]} for m in mods]
        else:
            w = w_hand(r, False)
            files, g = w["files"], w["fmt"]
            procs = [{"argv": w["argv"][:-1] + ["-Foout%d.obj" % i, "-Fl=out%d.lst" % i, "-Fwerr%d.err" % i, w["argv"][-1]]} for i in range(n)]
        tot = []
        for p in procs:
            b = ctx.base({"files": files, "steps": [{"procs": [p]}], "want": {}})
            if proc(b)["end"] != "exit" or proc(b)["av"]:
                return
            tot.append(proc(b)["calls"])
        T = sum(tot)
        for j in range(6):
            k = r.choice([3, 10, 40, 150])
            pts = sorted(r.randrange(1, max(2, T)) for _ in range(k))
            sched = [[x, r.randrange(len(procs))] for x in pts]
            c = {"name": "concurrent-" + g, "files": files, "procs": procs, "sched": sched, "faults": [], "knobs": rknobs(r)}
            if r.random() < .4:
                v = r.randrange(len(procs))
                c["victim"] = v
                c["faults"] = [{"k": "kill", "n": r.randrange(tot[v])}] if r.random() < .6 else [{"k": "alloc", "n": r.randrange(2000), "sticky": 1}]
            yield c

    def oracle(self, ctx, case):
        exp, codes = {}, []
        for p in case["procs"]:
            q = {"files": case["files"], "steps": [{"procs": [p]}], "want": {}, "knobs": case["knobs"]}
            b = ctx.base(q)
            if proc(b)["end"] != "exit" or proc(b)["av"]:
                return None
            exp[len(codes)] = outs(b)
            codes.append((proc(b)["code"], mask_out(proc(b)["out"])))
        ps = [dict(p) for p in case["procs"]]
        if case["faults"]:
            ps[case["victim"]]["faults"] = case["faults"]
        t = ctx.run({"files": case["files"], "steps": [{"procs": ps, "sched": case["sched"]}], "want": {}, "knobs": case["knobs"], "budget": 40000000})
        ctx.probes["interleaved"] += t["preempts"] > 0
        if case["faults"]: ctx.probes["one disturbed"] += 1
        ot = outs(t)
        vic = case.get("victim") if case["faults"] else None
        own = set()
        if vic is not None:
            own = {k.lower() for k in created(proc(t, -1, vic))} | set(exp[vic])
        for i in range(len(ps)):
            if i == vic:
                continue
            p = proc(t, -1, i)
            if p["end"] != "exit" or (p["code"], mask_out(p["out"])) != codes[i]:
                return "an invocation is disturbed by another one in the same directory: %d of %d ends %s %d instead of %d" % (i, len(ps), p["end"], p["code"], codes[i][0])
            for k, v in exp[i].items():
                if ot.get(k) != v and not k.endswith(".lst"):
                    return "an output is disturbed by another invocation in the same directory: %s %s, alone %s" % (k, ot.get(k), v)
                if k not in ot:
                    return "an output is disturbed by another invocation in the same directory: %s is missing" % k
        extra = set(ot) - own - set().union(*(set(x) for x in exp.values()))
        if extra:
            return "concurrent invocations leave an extra file: " + sorted(extra)[0]


# ---------------------------------------------------------------- C17
class C17(Prop):
    rule = "A case is a workload with output naming options (-Fo, -Fl, -Fw, -Fs, -Fd as file or directory), in a directory with unrelated files, with or without faults of any kind; every path the run creates, writes, truncates, renames or removes is compared with the set a model of the naming rules declares."
    need_probes = ["checked", "faulted"]

    def cases(self, ctx, seed, idx, tier):
        r = rng(seed, "C17", idx)
        k = r.random()
        w = w_any(r, False) if k < .7 else w_error(r) if k < .85 else w_regerr(r)
        o = []
        ds = []
        src = nofo(w["argv"])
        for opt in ("Fo", "Fl", "Fw", "Fs"):
            if r.random() < .4:
                v = r.choice(["out\\", "out.d\\", "out.d\\x.y\\", "out.d\\nam", "..\\work\\out.d\\", "other.xyz", "out\\named", "noext", "C:\\tmp\\abs.out", "a.b.c", "..\\up.o", "x/y.q"]) if opt != "Fs" else r.choice(["syms.txt", "out\\s.x"])
                o.append("-%s=%s" % (opt, opt.lower() + v if v[0] not in "C.ox" else v) if "\\" in v or "/" in v or opt == "Fs" else "-%s=%s%s" % (opt, opt.lower(), v))
        if r.random() < .2: o.append("-Zs")
        if r.random() < .2: o.append("-EP")
        src, w = list(src), dict(w)
        if r.random() < .3:  # other forms of the source's name
            m = src[-1]
            n = r.choice(["mod", "my.mod.asm", "src.d\\mod", "src.d\\my.mod", "..\\work\\mod.v2", "C:\\work\\src.d\\mod", "a.b\\..\\mod", "mod."])
            if sum(f["p"].lower().startswith("c:\\work") for f in w["files"]) == 1 or "d\\" not in n:
                src[-1] = n
                w["files"] = [dict(f, p=absname(n)) if f["p"].split("\\")[-1] == m else f for f in w["files"]]
        if r.random() < .15:  # a second module
            w["files"] = w["files"] + [{"p": WORK + "second", "d": "end\r\n"}]
            o += ["second"] + r.choice([[], ["-Fo=out.d\\"], ["-Fl=x.y\\..\\out.d\\"], ["-Fo=sec"], ["-Fl"]])
        # distinct outputs only
        o2, seen = [], set()
        for x in o:
            v = x.split("=")[-1]
            if v not in seen or v.endswith("\\"):
                seen.add(v)
                o2.append(x)
        if w["fmt"] in ("coff", "cinvoke") and r.random() < .2: o2.append("-Fd=imp.def")
        w = dict(w, argv=src[:-1] + o2 + src[-1:], dirs=["C:\\work\\out", "C:\\tmp", "C:\\work\\x", "C:\\work\\out.d\\x.y", "C:\\work\\src.d", "C:\\work\\a.b", "C:\\work\\x.y"])
        base = _split(w["argv"][-1])[1].rsplit(".", 1)[0]
        junk = [{"p": WORK + n, "d": "precious " + n} for n in ("other.obj", "a.tmp", "mod.txt", "gen.bak", base + ".obj.bak", base + ".inc2", base + "2.err", "uasm.tmp", base, "x\\keep.obj", "out\\keep.err")]
        # files with the names the outputs would have had without the options, and near them
        decl = {v for _, x in declared(w["argv"]) for v in x.values()}
        junk += [{"p": p + base + e, "d": "precious " + base + e} for p in (WORK, WORK + "out\\", "C:\\tmp\\", WORK + "x\\", "C:\\") for e in (".obj", ".exe", ".bin", ".lst", ".err", ".sym", ".def", ".o", ".tmp", ".map") if r.random() < .5 and absname(p + base + e) not in decl]
        w["files"] = w["files"] + [f for f in junk if f["p"].lower() not in {x["p"].lower() for x in w["files"]}]
        kn = rknobs(r)
        b = ctx.base(plan1(w, knobs=kn))
        if proc(b)["end"] != "exit" or proc(b)["av"]:
            return
        yield dict(w, knobs=kn, faults=[])
        for j in range(8):
            yield dict(w, knobs=kn, faults=[anyfault(r, b, kinds="iiiiaks") for _ in range(r.choice([1, 1, 2]))])

    def oracle(self, ctx, case):
        t = ctx.run(plan1(case, case["faults"], case.get("knobs"), budget=30000000))
        p = proc(t)
        ctx.probes["checked"] += 1
        if p["fired"]: ctx.probes["faulted"] += 1
        d = declared(case["argv"])
        decl = {v for _, x in d for v in x.values()}
        bad = [x for x in t["touched"] if x not in decl]
        if bad:
            kind = "an input file" if any(f["p"].upper() == bad[0] for f in case["files"]) else "a file that the command line does not declare"
            return "the run modifies %s: %s" % (kind, bad[0])
        for f in case["files"]:
            if f["p"].upper() not in decl:
                x = exists(t, f["p"], case["files"])
                if not x or x[2] != "same":
                    return "the run changes or removes a file it does not own: " + f["p"]
        if not case["faults"] and p["end"] == "exit" and p["code"] == 0:
            have = {k.upper() for k in outs(t)}
            for k in ("obj", "lst", "sym"):
                if k in d[0][1] and d[0][1][k] not in have and "-EP" not in case["argv"]:
                    return "a declared output is not where the naming rules put it: %s %s" % (k, d[0][1][k])
