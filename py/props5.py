"""C23: cases and oracle."""
from props4 import *

# the messages about file operations: kind, name, error number
IOMSG = re.compile(r"[AW]?\d{4}: (Cannot open file|File read error|File write error|Cannot close file): \"?(.*?)\"? \[(\w+)\]")


PROPS23 = {"C19": C19()}


class C23(Prop):
    quick_s = 35.0
    rule = "A case is a command line (any workload, several modules, response files, preprocessing, import definition) with one fault: an operation on one file fails with some error number, or the disk is full. What is said about file operations must concern that file."
    need_probes = ["named", "long names", "source or include file", "object", "report", "disk full"]

    def workload(self, r):
        k = r.random()
        if k < .2:
            mods, files, opts, g = modset(r, r.choice([2, 3, 4]))
            w = {"name": "msgs-" + g, "files": files, "argv": opts + mods}
        elif k < .3:
            w = w_any(r, False)
            w = dict(w, argv=["-EP"] + w["argv"])
        elif k < .35:
            w = {"name": "imp", "files": [{"p": WORK + "mod.asm", "d": W.nl(W.srcpe(32, r.choice([0, 5])))}], "argv": ["-coff", r.choice(["-Fd", "-Fd=imp.def"]), "mod.asm"], "fmt": "coff"}
        elif k < .5:
            w = w_error(r) if r.random() < .5 else w_left(r)
        elif k < .6:                   # files of equal names in several directories
            C = PROPS23["C19"]
            c = next(C.cases(None, r.randrange(1 << 30), 0, "quick"))
            w = {"name": "tree", "files": [{"p": f["p"], "d": C.render(f, c["mac"], c["far"])} for f in c["tree"]], "argv": ["-bin"] + [x for o, m in c["seq"] for x in o + [m]], "env": c["env"], "dirs": DIRS19}
        else:
            w = w_any(r, True)
        if r.random() < .15:
            w = dict(w, files=w["files"] + [{"p": WORK + "args.rsp", "d": "\r\n".join(w["argv"]) + "\r\n"}], argv=["@args.rsp"])
        return w

    def cases(self, ctx, seed, idx, tier):
        r = rng(seed, "C23", idx)
        if r.random() < .08:           # names too long to be opened, or to be combined with their directory
            for j in range(14):
                yield self.longname(r)
            return
        w = self.workload(r)
        kn = rknobs(r)
        b = ctx.base(plan1(w, knobs=kn))
        p = proc(b)
        if p["end"] != "exit" or p["av"]:
            return
        o = outs(b)
        if o and r.random() < .4:      # outputs of an earlier run, which may have to be deleted
            w = dict(w, files=w["files"] + [{"p": x.upper(), "d": JUNK} for x in sorted(o)] + [{"p": os.path.splitext(x)[0].upper() + ".ERR", "d": JUNK} for x in obj_paths(o) if os.path.splitext(x)[0] + ".err" not in o])
            b = ctx.base(plan1(w, knobs=kn))
            if proc(b)["end"] != "exit": return
        tg = [x for x in opsof(b) if x[0] in ("read", "open", "seek", "stat", "find", "findnext", "close", "write", "create", "chsize", "remove") and x[1][0] != "<"]   # not the console: the message itself would be lost
        for j in range(14):
            c = dict(w, knobs=kn, faults=[])
            if r.random() < .12:
                size = sum(s for s, _ in o.values())
                c["quota"] = r.choice([0, 1, max(0, size - 1), r.randrange(max(1, size))])
            else:
                cl, pth, n = r.choices(tg, [1 + n ** .5 for _, _, n in tg])[0]
                c["faults"] = [io_fault(r, cl, pth, n)]
            yield c

    def longname(self, r):
        n = r.choice([100, 150, 200, 240, 255, 256, 260, 270, 300, 400, 600, 1000, 2000, 4000])
        N = r.choice(["n", "ab", "xyz_"]) * n
        N = N[:n]
        src = "m.asm"
        opt, name = r.choice([("-Fo=%s.x", N), ("-Fo=%s", N), ("-Fo=%s\\", N), ("-Fl=%s", N), ("-Fw=%s", N), ("-Fs=%s", N), ("-Fd=%s.def", N), ("@%s", N), ("-Fi%s.inc", N), (None, N), (None, N), ("inc", N), ("bin", N)])
        fs = [{"p": WORK + src, "d": ".386\r\n.model flat\r\n.code\r\nstart: nop\r\n" + ("include %s.inc\r\n" % N if opt == "inc" else "incbin <%s.bin>\r\n" % N if opt == "bin" else "") + r.choice(["", "", "mov zz, eax\r\n"]) + "end\r\n"}]
        D = "d" * r.choice([10, 100, 200])
        argv = ["-coff"] + r.choice([[], ["-Fl"], ["-Fo=" + D + "\\"]])
        if opt is None:
            src = N + r.choice([".asm", ""])
            if n < 240: fs[0]["p"] = WORK + src
        elif opt in ("inc", "bin"): pass
        else: argv.append(opt % N)
        return {"name": "long", "long": N, "opt": opt, "files": fs, "argv": argv + [src], "dirs": ["C:\\work", WORK + D], "knobs": rknobs(r), "faults": []}

    def oracle(self, ctx, case):
        if case.get("long"):
            p = proc(ctx.run(plan1(case, (), case["knobs"] or None)))
            N = case["long"]
            ctx.probes["long names"] += 1
            if p["end"] != "exit" or p["av"]:
                return "a name of %d characters makes it end otherwise: %s" % (len(N), bad_end(p) or p["end"])
            if len(N) > 259 and case["opt"] and not p["code"] and case["opt"] not in ("-Fw=%s",) and not any("A4" in l and N[:60] in l for l in (p["out"] + p["errout"]).split("\n")):
                return "a name of %d characters can't be opened, but the exit status is 0: %s" % (len(N), case["opt"])
            if p["code"] and not any(N[:60] in l for l in errlines(p["out"])) and not any("A2156" in l or "A2039" in l or "A2" in l and "zz" in l for l in errlines(p["out"])):
                return "a name of %d characters (%s) is not in the messages: %s" % (len(N), case["opt"] or "source", errlines(p["out"])[:2])
            return None
        kn = case.get("knobs") or None
        b = ctx.base(plan1(case, knobs=kn))
        pb = proc(b)
        kw = {"quota": case["quota"]} if "quota" in case else {}
        t = ctx.run(plan1(case, case["faults"], kn, budget=20 * b["calls"] + 200000, **kw))
        p = proc(t)
        if p["end"] != "exit" or p["av"] or pb["end"] != "exit" or not p["fired"] or any(x.lower() == "-eq" for x in case["argv"]):
            return None
        if case["name"] == "tree" and case["faults"] and case["faults"][0]["cls"] == "open": return None   # then another file is used, C19
        old = set(IOMSG.findall(pb["out"] + pb["errout"]))
        msgs = [m for m in IOMSG.findall(p["out"] + p["errout"]) if m not in old]
        if case["faults"]:
            f = case["faults"][0]
            err, name = f["err"], f["path"].split("\\")[-1].lower()
        else:
            err, name = 28, None
            outp = {x.split("\\")[-1] for x in {x.lower() for c, x, n in opsof(t) if c in ("create", "write")}}
        if name == "*":                # continuing a directory search: the name is that on the command line
            name = None
            outp = {x["p"].split("\\")[-1].lower() for x in case["files"]} | {a.split("\\")[-1].lower() for a in case["argv"]}
        def ok(m):
            n = m[1].replace("/", "\\").split("\\")[-1].lower()
            if not name: return n in outp
            m = m[1].replace("/", "\\").lower()
            if f["cls"] == "read" and name.endswith((".inc", ".asm")): return absname(m).lower() == f["path"].lower()
            return n == name and (absname(m).lower() == f["path"].lower() or m[1:2] != ":" and role == "source or include file")   # searched for under this name
        if case["faults"]:
            wr = {x.lower() for c, x, n in opsof(b) if c == "create"}
            role = "object" if f["path"].lower() in obj_paths(wr) else "report" if f["path"].lower() in wr else "source or include file"
            ctx.probes[role] += 1
        else: ctx.probes["disk full"] += 1
        for m in msgs:
            if not ok(m):
                return "a message blames another file: %s: %s, failed was %s of %s" % (m[0], m[1], case["faults"][0]["cls"] if case["faults"] else "writing", name or sorted(outp))
        if p["code"] and not pb["code"]:
            if not msgs:
                return "the file that failed (%s) is not named: %s" % (name or sorted(outp), msglines(p["out"])[:3])
        if msgs: ctx.probes["named"] += 1
        if not case["faults"] or role == "report": msgs = []   # a report's write errors are noticed when it is closed: no reason is left then
        for m in msgs:
            if m[2] == "ENOENT" and case["faults"] and f["cls"] == "open": continue   # the search went on elsewhere
            if m[2] not in ("ENOENT" if err == 2 else "", str(err)):
                return "the reason is given as %s instead of %s: %s %s" % (m[2], err, m[0], m[1])


# ---------------------------------------------------------------- C24
LONG = "C:\\" + "\\".join("a directory with a long name %d" % i for i in range(6)) + "\\x"
ELSEWHERE = ["D:\\work", "C:\\", "D:\\", "C:\\Work 2\\sub.dir\\x.y", "C:\\a", "E:\\mod.asm", LONG, "D:\\w%k", "C:\\inc9\\deep\\er"]


def text(f):
    return f["d"] if "d" in f else open(f["h"], encoding="latin1", newline="").read()


class C24(Prop):
    quick_s = 35.0
    rule = "A case is any workload whose working directory, with all its files, lies somewhere else (another drive, a root directory, deep, a name with blanks or dots), or whose sources are named in another way (absolute, .\\, other case), undisturbed or with the same fault in both; everything it writes and says is compared."
    need_probes = ["moved", "named otherwise", "fault in both", "object compared"]

    def cases(self, ctx, seed, idx, tier):
        r = rng(seed, "C24", idx)
        k = r.random()
        if k < .2:
            mods, files, opts, g = modset(r, r.choice([2, 3]))
            w = {"name": "mods-" + g, "files": files, "argv": opts + mods, "srcs": mods}
        else:
            w = w_rich(r) if k < .65 else w_any(r, True) if k < .8 else w_left(r) if k < .9 else w_error(r)
            w = dict(w, srcs=w["argv"][-1:])
        if any(re.search(r"c:[\\/]+work|\.\.[\\/]", t, re.I) for t in [text(f) for f in w["files"]] + w["argv"] + list((w.get("env") or {}).values())):
            return
        b = ctx.base(plan1(w))
        if proc(b)["end"] != "exit" or proc(b)["av"]:
            return
        cv8 = "-Zi8" in w["argv"]
        for j in range(5):
            v = dict(w, knobs=rknobs(r), faults=[])
            if r.random() < .7 or any(re.match(r"-(Z[id]|F[ls]|Sp|nm)", a) for a in w["argv"]) or not any(a in w["argv"] for a in ("-bin", "-mz", "-pe")) or any("file" in text(f).lower() for f in w["files"]) or any(a[:1] == "@" for a in w["argv"]):
                v["to"] = r.choice(["D:\\abcd", "C:\\wark"]) if cv8 else r.choice(ELSEWHERE)
                if r.random() < .4: v["faults"] = [anyfault(r, b, kinds="iiia")]
            else:
                v["as"] = r.choice(["C:\\work\\%s", ".\\%s", "./%s", "C:/WORK/%s", "..\\work\\%s", "upper", ".\\.\\%s", "C:%s"])
            yield v

    def oracle(self, ctx, case):
        b = ctx.base(plan1(case, case["faults"], case["knobs"]))
        pb = proc(b)
        if pb["end"] != "exit" or pb["av"]:
            return None
        if "as" in case:
            argv = [(a.upper() if case["as"] == "upper" else case["as"] % a) if a in case["srcs"] else a for a in case["argv"]]
            t = ctx.run(plan1(dict(case, argv=argv), (), case["knobs"], budget=20 * b["calls"] + 300000))
            ctx.probes["named otherwise"] += 1
            how = "named as " + argv[-1]
            back = lambda s: s
        else:
            to = case["to"].rstrip("\\")
            mv = lambda p: to + p[len(WORK) - 1:] if p.lower().startswith(WORK.lower()) else to + "\\" if p.lower() == WORK[:-1].lower() and len(to) == 2 else to if p.lower() == WORK[:-1].lower() else p
            back = lambda s: WORK[:-1].lower() + s[len(to):] if s.lower().startswith(to.lower() + "\\") else s
            fs = [dict(f, p=mv(f["p"])) for f in case["files"]]
            if {f["p"].lower() for f in case["files"] if not f["p"].lower().startswith(WORK.lower())} & {f["p"].lower() for f in fs if f["p"].lower().startswith(to.lower() + "\\")} and len(to) > 2:
                return None
            fl = [dict(f, path=mv(f["path"])) if "path" in f else f for f in case["faults"]]
            pl = plan1(dict(case, files=fs), fl, case["knobs"], budget=20 * b["calls"] + 300000)
            if case.get("dirs"): pl["dirs"] = [mv(d) for d in case["dirs"]] + [to or "C:\\"]
            pl["cwd"] = case["to"]
            t = ctx.run(pl)
            ctx.probes["moved"] += 1
            how = "in " + case["to"]
        p = proc(t)
        if pb["fired"] and p["fired"]: ctx.probes["fault in both"] += 1
        if p["end"] != "exit" or p["av"]:
            return "%s, it doesn't end as it should: %s" % (how, bad_end(p) or p["end"])
        if p["code"] != pb["code"]:
            return "%s, the exit status is %d instead of %d: %s" % (how, p["code"], pb["code"], (errlines(p["out"]) + errlines(pb["out"]) + [""])[0])
        ob, ot = outs(b), {back(k): v for k, v in outs(t).items()}
        for k in sorted(set(ob) | set(ot)):
            if k.endswith(OBJEXT): ctx.probes["object compared"] += 1
            if ob.get(k) != ot.get(k):
                if k in ob and k in ot and not ("as" in case and not k.endswith(OBJEXT)):
                    da, db = fdata(ctx.run(dict(plan1(case, case["faults"], case["knobs"]), want={"data": 1}), False), k), None
                    if "to" in case:
                        db = fdata(ctx.run(dict(pl, want={"data": 1}), False), mv(k))
                        if da is not None and db is not None:
                            x = re.compile(re.escape(case["to"]), re.I).sub(lambda m: WORK[:-1], db) if "-Zi8" in case["argv"] else db
                            if mask_out(da) == mask_out(x): continue
                elif "as" in case and not k.endswith(OBJEXT): continue
                return "%s, an output differs: %s is %s, was %s" % (how, k.split("\\")[-1], ot.get(k), ob.get(k))
        if "to" in case and msglines(p["out"]) != msglines(pb["out"]):
            return "%s, the messages differ: %r / %r" % (how, msglines(p["out"])[:2], msglines(pb["out"])[:2])
