"""The properties: case generators (seeded) and oracles. C01, C02, C04, C05; the others are in props2."""
from base import *


# ---------------------------------------------------------------- C01
class C01(Prop):
    rule = "A case is a workload (format x options x size, or a regression source, or a generated program) with 1-3 output-device faults (failed, torn or sticky write, disk quota, failed seek/close/truncate/create) placed on operations the fault-free run performs on the object file, at a random stdio buffer size."
    targets = "obj"
    need_probes = ["fault on object", "nonzero exit after fault", "zero exit with fault fired"]

    def cases(self, ctx, seed, idx, tier):
        r = rng(seed, self.__class__.__name__, idx)
        for _ in range(20):
            w = self.workload(r)
            kn = rknobs(r)
            b = ctx.base(plan1(w, knobs=kn))
            p = proc(b)
            if p["end"] == "exit" and p["code"] == 0 and not p["av"]:
                break
        else:
            return
        o = outs(b)
        tg = self.target_ops(w, b, o)
        if not tg:
            return
        tot = sum(n for _, _, n in tg)
        for j in range(min(60, 12 + tot)):
            fs = []
            q = None
            if r.random() < .25:
                size = sum(s for s, _ in o.values())
                q = r.randrange(0, max(1, size))
                if r.random() < .2:
                    q = r.choice([0, 1, max(0, size - 1)])
            else:
                for _ in range(r.choice([1, 1, 1, 2, 3])):
                    c, pth, n = r.choices(tg, [1 + n ** .5 for _, _, n in tg])[0]
                    fs.append(io_fault(r, c, pth, n))
            case = dict(w, knobs=kn, faults=fs)
            if q is not None:
                case["quota"] = q
            yield case

    def workload(self, r):
        return w_any(r, big=True)

    def target_ops(self, w, b, o):
        op = obj_paths(o)
        return [(c, pth, n) for c, pth, n in opsof(b) if c in ("write", "seek", "close", "chsize", "create") and pth.lower() in op]

    def judge(self, ctx, case, b, t):
        ob, ot, p = outs(b), outs(t), proc(t)
        for k in obj_paths(ob):
            if ot.get(k) != ob[k]:
                return "exit status 0 but the object file is %s: %s has %s, complete file is %s" % ("missing" if k not in ot else "incomplete or wrong", k, ot.get(k), ob[k])

    def oracle(self, ctx, case):
        kn = case.get("knobs") or None
        b = ctx.base(plan1(case, knobs=kn))
        if proc(b)["code"] or proc(b)["end"] != "exit":
            return None
        kw = {"quota": case["quota"]} if "quota" in case else {}
        t = ctx.run(plan1(case, case.get("faults", ()), kn, budget=20 * b["calls"] + 200000, **kw))
        p = proc(t)
        if p["fired"]:
            ctx.probes["fault on object"] += 1
            ctx.probes["nonzero exit after fault" if p["code"] else "zero exit with fault fired"] += 1
        e = bad_end(p)
        if e:
            return "bad end after an output fault: " + e
        if p["code"] == 0:
            return self.judge(ctx, case, b, t)
        if not has_msg(p) and not any(f.get("path", "").lower() == "<stdout>" for f in case.get("faults", ())):
            return "nonzero exit without any message: code %d" % p["code"]


# ---------------------------------------------------------------- C02
class C02(C01):
    rule = "As C01, but faults hit the auxiliary outputs: listing, .err file, import definition file, symbol dump and preprocessed output on stdout."
    need_probes = ["fault on object", "nonzero exit after fault"]

    def workload(self, r):
        k = r.random()
        if k < .45:
            fmt = r.choice(W.FORMATS)
            a = r.choice([("-Fl",), ("-Fl", "-Sa"), ("-Fl", "-Sg"), ("-Fl", "-Sf"), ("-Fl=out.lst", "-Sn"), ("-Fs=syms.txt",), ("-Fl", "-Fs=syms.txt")])
            return W.hand(fmt, r.choice([0, 3, 30, 200]), r.choice(W.OPTSETS[fmt]) + a, crlf=True, seed=r.randrange(1000))
        if k < .65:
            w = w_any(r, False)
            return dict(w, argv=["-EP"] + w["argv"])
        if k < .8:
            s = W.srcpe(32, r.choice([0, 5]))
            return {"name": "imp", "files": [{"p": WORK + "mod.asm", "d": W.nl(s)}], "argv": ["-coff", r.choice(["-Fd", "-Fd=imp.def"]), "mod.asm"], "fmt": "coff"}
        # warnings only: .err file is written on a successful run
        w = W.hand(r.choice(["coff", "bin32", "elf", "omf32"]), 3, ("-W3",))
        n = r.choice([1, 3, 40])
        w["files"][0] = dict(w["files"][0], d=w["files"][0]["d"].replace(".code\r\n", "\r\n".join([".code"] + [" mov [esp+4], %d" % i if False else "echo hi" for i in range(0)] + ["%%out x%d" % i for i in range(0)] + [" .err2w" for i in range(0)]) + "\r\n" + "".join(" nop\r\n" for _ in range(n))))
        return w

    def target_ops(self, w, b, o):
        op = set(o) - set(obj_paths(o))
        res = [(c, pth, n) for c, pth, n in opsof(b) if c in ("write", "seek", "close", "chsize", "create") and pth.lower() in op]
        if "-EP" in w["argv"]:
            res += [(c, pth, n) for c, pth, n in opsof(b) if c == "write" and pth == "<stdout>"]
        return res

    def judge(self, ctx, case, b, t):
        ob, ot = outs(b), outs(t)
        for k in sorted(set(ob) - set(obj_paths(ob))):
            if ot.get(k) != ob[k]:
                return "exit status 0 but %s is %s: has %s, complete is %s" % (k.split("\\")[-1].split(".")[-1], "missing" if k not in ot else "incomplete or wrong", ot.get(k), ob[k])
        if "-EP" in case["argv"] and proc(t)["out"] != proc(b)["out"]:
            return "exit status 0 but the preprocessed output is incomplete: %d of %d bytes" % (len(proc(t)["out"]), len(proc(b)["out"]))


# ---------------------------------------------------------------- C04
class C04(Prop):
    quick_s = 50.0
    rule = "A case is a workload with 1-3 input faults (read error at some buffer refill, transient or persistent; failed open, seek, or directory lookup) on the source, an include file, an INCBIN file, a response file or the debug-info re-read, at a random buffer size."
    need_probes = ["fault fired", "nonzero exit after fault"]

    def cases(self, ctx, seed, idx, tier):
        r = rng(seed, "C04", idx)
        for _ in range(20):
            w = w_any(r, r.random() < .3, big=True)
            if r.random() < .15:  # through a response file
                w = dict(w, files=w["files"] + [{"p": WORK + "args.rsp", "d": "\r\n".join(w["argv"]) + "\r\n"}], argv=["@args.rsp"])
            kn = rknobs(r)
            if r.random() < .5:
                kn["bufsiz"] = r.choice([16, 32, 64, 200, 512])
            b = ctx.base(plan1(w, knobs=kn))
            p = proc(b)
            if p["end"] == "exit" and p["code"] == 0 and not p["av"]:
                break
        else:
            return
        o = outs(b)
        tg = [(c, pth, n) for c, pth, n in opsof(b) if c in ("read", "open", "seek", "stat", "find", "findnext", "close") and pth.lower() not in o]
        tot = sum(n for _, _, n in tg)
        for j in range(min(60, 10 + tot)):
            fs = []
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                c, pth, n = r.choices(tg, [(3 if c == "read" else 1) * (1 + n ** .5) for c, _, n in tg])[0]
                fs.append(io_fault(r, c, pth, n))
            yield dict(w, knobs=kn, faults=fs)

    def oracle(self, ctx, case):
        kn = case.get("knobs") or None
        b = ctx.base(plan1(case, knobs=kn))
        if proc(b)["code"] or proc(b)["end"] != "exit":
            return None
        t = ctx.run(plan1(case, case.get("faults", ()), kn, budget=20 * b["calls"] + 200000))
        p = proc(t)
        if p["fired"]:
            ctx.probes["fault fired"] += 1
            ctx.probes["nonzero exit after fault" if p["code"] else "zero exit with fault fired"] += 1
        e = bad_end(p)
        if e:
            return "bad end after an input fault: " + e
        if p["code"] == 0:
            ob, ot = outs(b), outs(t)
            if ob != ot:
                # a file that cannot be opened counts as absent: the result must then be the one without it
                ab = {f["path"].lower() for f in case.get("faults", ()) if f["cls"] == "open"}
                if ab:
                    c2 = dict(case, files=[f for f in case["files"] if f["p"].lower() not in ab])
                    b2 = ctx.base(plan1(c2, knobs=kn))
                    if proc(b2)["code"] == 0 and outs(b2) == ot:
                        return None
                k = sorted(set(ob.items()) ^ set(ot.items()))[0][0]
                return "exit status 0 after an input fault but an output is wrong: %s %s, correct %s" % (k, ot.get(k), ob.get(k))
        elif not has_msg(p):
            return "nonzero exit without any message: code %d" % p["code"]


# ---------------------------------------------------------------- C05
class C05(Prop):
    rule = "A case is a workload with one failing allocation, a persistent failure from one allocation on, or a memory budget; allocation sites are sampled over the whole run."
    need_probes = ["fault fired", "nonzero exit after fault"]

    def cases(self, ctx, seed, idx, tier):
        r = rng(seed, "C05", idx)
        w = w_any(r) if r.random() < .8 else w_error(r)
        kn = rknobs(r)
        b = ctx.base(plan1(w, knobs=kn))
        p = proc(b)
        if p["end"] != "exit" or p["av"] or not p["allocs"]:
            return
        n = p["allocs"]
        for j in range(40):
            k = r.random()
            if k < .55: f = {"k": "alloc", "n": r.randrange(n)}
            elif k < .65: f = {"k": "alloc", "n": max(0, n - 1 - r.randrange(min(n, 60)))}
            elif k < .85: f = {"k": "alloc", "n": r.randrange(n), "sticky": 1}
            else: f = {"k": "membudget", "n": r.randrange(1, p["maxlive"])}
            yield dict(w, knobs=kn, faults=[f])

    def oracle(self, ctx, case):
        kn = case.get("knobs") or None
        b = ctx.base(plan1(case, knobs=kn))
        if proc(b)["end"] != "exit" or proc(b)["av"]:
            return None
        t = ctx.run(plan1(case, case.get("faults", ()), kn, budget=20 * b["calls"] + 200000))
        p = proc(t)
        if p["fired"]:
            ctx.probes["fault fired"] += 1
            ctx.probes["nonzero exit after fault" if p["code"] else "zero exit with fault fired"] += 1
        e = bad_end(p)
        if e:
            return "bad end after an allocation failure (%s)" % re.sub(r"\+0x[0-9a-f]+", "", e)
        if p["code"] == 0:
            if proc(b)["code"] == 0 and outs(b) != outs(t):
                return "exit status 0 after an allocation failure but an output differs: %s" % sorted(set(outs(b).items()) ^ set(outs(t).items()))[0][0]
            if proc(b)["code"]:
                return "exit status 0 after an allocation failure for a program with errors: "
        elif not has_msg(p):
            return "nonzero exit without any message: code %d" % p["code"]


from props2 import *
from props3 import *
from props4 import *
from props6 import *

PROPS = {k: v() for k, v in sorted(globals().items()) if isinstance(v, type) and issubclass(v, Prop) and re.match(r"C\d\d$", k)}
