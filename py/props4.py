"""C19-C22: cases and oracles."""
from props3 import *


# ---------------------------------------------------------------- C19
def rcase(r, s):
    return "".join(c.upper() if r.random() < .3 else c for c in s) if r.random() < .3 else s


DIRS19 = ["C:\\work", "C:\\work\\sub", "C:\\work\\sub\\deep", "C:\\inc1", "C:\\inc2", "C:\\inc2\\sub", "C:\\env"]


class Tree:
    """Model of the search rules: which file each INCLUDE and INCBIN finds, and the bytes that follow from it."""

    def __init__(self, files, missing):
        self.f = {absname(f["p"]): f["src"] for f in files}
        self.missing = {m.upper() for m in missing}
        self.inc = []
        self.fail = []
        self.out = []
        self.depth = 0

    def find(self, cur, path):
        q = path.replace("/", "\\")
        isabs = q[:1] == "\\" or q[1:3] == ":\\"
        cand = []
        if not isabs and _split(cur)[0]:
            cand.append(_split(cur)[0] + path)
        cand.append(path)
        if not isabs:
            cand += [d + ("" if d[-1] in "\\/:" else "\\") + path for e in self.inc for d in e.split(";") if d and len(d) + 1 + len(path) < 260]
        for c in cand:
            a = absname(c)
            if a in self.f and a not in self.missing and len(c) < 260:
                return c
        return None

    def walk(self, name):
        """Emits the bytes of one text file; `name` is the string it was found by."""
        self.depth += 1
        for k, v in self.f[absname(name)]:
            if k == "db":
                self.out.append(v)
            else:
                q = self.find(name, v)
                if q is None:
                    self.fail.append((name, v))
                elif k == "include":
                    self.walk(q)
                elif k == "incbin":
                    self.out.append(self.f[absname(q)])
        self.depth -= 1


from props2 import _split


class C19(Prop):
    quick_s = 50.0
    rule = "A case is a random directory tree with files of equal names in several directories, nested INCLUDE, INCBIN (directly and in macros) and -Fi in every spelling of a path, search directories from -I and the INCLUDE variable, up to 2 files that cannot be opened, 1-2 modules; the object is compared byte by byte with a model of the documented search order."
    need_probes = ["found by current file", "found by -I", "open fault", "not found", "object checked"]

    def path(self, r, names):
        n = rcase(r, r.choice(names))
        k = r.random()
        if k < .55: p = n
        elif k < .75: p = "sub\\" + n
        elif k < .82: p = "..\\" + n
        elif k < .87: p = ".\\" + n
        elif k < .91: p = "deep\\" + n
        elif k < .95: p = "..\\inc1\\" + n
        else: p = r.choice(DIRS19) + "\\" + n
        if r.random() < .25: p = p.replace("\\", "/")
        return p

    def cases(self, ctx, seed, idx, tier):
        r = rng(seed, "C19", idx)
        k = r.random()
        many, chain = k < .05, .05 <= k < .1  # very many files, long chains
        fs, N = [], r.choice([30, 45, 60]) if many else r.choice([12, 20, 28]) if chain else r.choice([2, 3, 5])
        ismac = r.random() < .5
        dens = r.choice([.5, .8, .9, 1])
        for d in DIRS19:
            for i in range(N):
                if r.random() < dens:
                    body = [("db", "<%s/n%d>" % (d[3:].replace("\\", "/"), i))]
                    for _ in range(0 if many and i < N - 4 else 1 if chain else r.choice([0, 0, 1, 1, 2])):
                        if chain and i + 1 < N: body.append(("include", self.path(r, ["n%d.inc" % (i + 1)])))
                        elif i + 1 < N and r.random() < .6: body.append(("include", self.path(r, ["n%d.inc" % j for j in range(i + 1, N)])))
                        else: body.append(("incbin", self.path(r, ["d0.bin", "d1.bin"])))
                        if r.random() < .5: body.append(("db", "<end%d>" % i))
                        if body[-1][0] == "db" and r.random() < .4: r.shuffle(body)
                    fs.append({"p": d + "\\n%d.inc" % i, "src": body})
            for i in range(2):
                if r.random() < dens:
                    fs.append({"p": d + "\\d%d.bin" % i, "src": "[%s/d%d]" % (d[3:].replace("\\", "/"), i) + "x" * r.choice([0, 0, 5, 600])})
            if r.random() < .7: fs.append({"p": d + "\\forced.inc", "src": [("fi", "<fi:%s>" % d[3:].replace("\\", "/"))]})
        mods = []
        for m in range(r.choice([1, 1, 1, 2])):
            src = "m%d.asm" % m
            md = r.choice(["", "", "sub\\", "C:\\work\\", "sub/deep/", ".\\", "..\\inc2\\", "C:\\inc1\\"])
            body = [("db", "<main%d>" % m)]
            for _ in range(r.choice([80, 150, 300]) if many else r.choice([1, 2, 3, 5])):
                body.append(("include", self.path(r, ["n%d.inc" % j for j in range(r.choice([2, N]) if chain else N)])) if r.random() < (.9 if many else .6) else ("incbin", self.path(r, ["d0.bin", "d1.bin"])))
                if r.random() < .4: body.append(("db", "<m%d>" % len(body)))
            fs.append({"p": absname(md + src).title().replace(".Asm", ".asm"), "src": body, "main": 1})
            opts = []
            for _ in range(r.choice([0, 1, 1, 2])):
                v = ";".join(r.choice(["C:\\inc1", "C:\\inc2", "..\\inc1", "sub", "sub\\deep", "C:\\inc2\\", "nodir", "", "C:/inc1/"]) for _ in range(r.choice([1, 1, 2, 3])))
                if not v.strip(";"): continue
                opts += r.choice([["-I" + v], ["-I=" + v], ["-I", v]]) if v[0] not in "-/" else ["-I=" + v]
            if many or chain: opts += ["-e9999"]
            if r.random() < .2: opts += ["-X"]
            if r.random() < .2: opts += ["-Fi" + r.choice(["", "="]) + r.choice(["forced.inc", "sub\\forced.inc", "C:\\inc1\\forced.inc"])]
            if opts and opts[-1].startswith("-Fi="): opts[-1] = "-Fi" + opts[-1][4:]
            if r.random() < .2: opts += [r.choice(["-Fl", "-Zd", "-q", "-Sa"])]
            mods.append([opts, md + src])
        env = {}
        if r.random() < .4: env["INCLUDE"] = ";".join(r.choice(["C:\\env", "C:\\inc2", "C:\\inc1\\", "sub", ""]) for _ in range(r.choice([1, 2, 3])))
        long = None
        if not many and r.random() < .15:   # names so long that some combinations are too long for a path
            long = {k: k + "_" + k * r.randrange(1, r.choice([8, 25, 40])) for k in r.sample(["sub", "inc1", "inc2", "deep", "n1", "n2", "d0", "env"], 4)}
        for j in range(3 if many else 6):
            miss = [r.choice(fs)["p"] for _ in range(r.choice([1, 1, 2]))] if j else []
            miss = [m for m in miss if not any(f.get("main") and f["p"] == m for f in fs)]
            yield {"name": "tree", "long": long, "tree": fs, "seq": mods, "env": env, "miss": miss, "mac": ismac, "merr": r.choice([EACCES, ENOENT, ENOENT, EMFILE]), "knobs": rknobs(r), "faults": [], "far": r.random() < .3}

    def render(self, f, mac, far):
        if not isinstance(f["src"], list):
            return f["src"]
        o, n = [], 0
        if f.get("main"):
            if mac: o += ["ibm macro fn", " incbin <fn>", "endm", "dbm macro s", " db s", "endm", "icm macro fn", " include <fn>", "endm"]
            o[:0] = [".386"]
            o += ["_TEXT segment use32 'CODE'"]
        for k, v in f["src"]:
            if k == "fi": o.append("FORCED catstr <!'%s!'>" % v.replace("<", "!<").replace(">", "!>"))
            elif k == "db": o.append((" dbm <'%s'>" if mac and len(v) & 1 else " db '%s'") % v.replace("<", "{").replace(">", "}"))
            elif k == "include" and mac and len(v) % 5 == 0: o.append(" icm <%s>" % v)
            elif k == "include": o.append("include " + (v if len(v) % 3 else "<%s>" % v))
            elif mac and len(v) % 2 == 0: o.append(" ibm <%s>" % v)
            else: o.append(" incbin <%s>" % v)
        if f.get("main"):
            o += ["_TEXT ends", "end"]
        return "\r\n".join(o) + "\r\n"

    def oracle(self, ctx, case):
        if case.get("long"):
            L = case["long"]
            x = re.compile("|".join(sorted(re.escape(k) for k in L)), re.I)
            def ren(o):
                if isinstance(o, str): return x.sub(lambda m: L[m.group().lower()], o)
                if isinstance(o, (list, tuple)): return [ren(v) for v in o]
                return {k: ren(v) for k, v in o.items()} if isinstance(o, dict) else o
            case = dict(case, tree=ren(case["tree"]), seq=ren(case["seq"]), env={k: ren(v) for k, v in case["env"].items()}, miss=ren(case["miss"]), dirs=ren(DIRS19), long=None)
            if max(len(f["p"]) for f in case["tree"]) > 240: return None
            if any(len(a) > 255 for o, m in case["seq"] for a in o + [m]): return None   # no option's value may be that long
            ctx.probes["long names"] += 1
        fs = [{"p": f["p"], "d": self.render(f, case["mac"], case["far"])} for f in case["tree"]]
        argv = ["-bin"]
        for o, m in case["seq"]: argv += o + [m]
        faults = [{"k": "io", "cls": "open", "path": m, "n": 0, "err": case["merr"], "sticky": 1} for m in case["miss"]]
        t = ctx.run({"files": fs, "dirs": case.get("dirs", DIRS19), "knobs": case["knobs"], "steps": [{"procs": [{"argv": argv, "env": case["env"], "faults": faults}]}], "want": {"data": 1}, "budget": 5000000})
        p = proc(t)
        if p["fired"]: ctx.probes["open fault"] += 1
        e = bad_end(p)
        if e:
            return "bad end while searching for files: " + e
        # the model
        T = Tree(case["tree"], case["miss"])
        incs, fis, xset = [], [], False
        anyfail = False
        decl = dict((k, v) for k, v in declared(argv))
        done, need = {}, []
        for o, m in case["seq"]:
            i = 0
            while i < len(o):
                a = o[i]
                if a == "-I":
                    i += 1
                    incs.append(o[i])
                elif a.startswith("-I"): incs.append(a[2:].lstrip("="))
                elif a == "-X": xset = True
                elif a.startswith("-Fi"): fis.append(a[3:].lstrip("="))
                i += 1
            T.inc = incs + ([] if xset or not case["env"].get("INCLUDE") else [case["env"]["INCLUDE"]])
            T.out, T.fail = [], []
            for x in fis:
                q = T.find(m, x)
                if q is None: T.fail.append((m, x))
            T.walk(m)
            o_ = decl[m]["obj"]
            if o_ in done:
                return None
            done[o_] = None if T.fail else "".join(T.out).replace("<", "{").replace(">", "}")
            need += T.fail
            if T.fail: anyfail = True
        ctx.probes["not found" if anyfail else "all found"] += 1
        if len(fs) > 200: ctx.probes["very many files"] += 1
        if any(i for i in incs): ctx.probes["found by -I"] += 1
        if any(_split(m)[0] for o, m in case["seq"]): ctx.probes["found by current file"] += 1
        if p["code"] != (1 if anyfail else 0):
            return "exit status %d, but by the search rules %s: %s" % (p["code"], "a file is not found" if anyfail else "every file is found", (need or errlines(p["out"]))[:2])
        for o_, d in sorted(done.items()):
            g = fdata(t, o_)
            if d is None:
                if g is not None:
                    return "an object exists although a file was not found: " + o_
                continue
            ctx.probes["object checked"] += 1
            if g != d:
                i = next((i for i, (a, c) in enumerate(zip(g or "", d)) if a != c), min(len(g or ""), len(d)))
                return "the object does not consist of the files that the search rules give: at %d %r, expected %r" % (i, (g or "")[max(0, i - 20):i + 40], d[max(0, i - 20):i + 40])
        fic = {m for o, m in case["seq"]} if fis else ()
        for cur, v in need:
            if not any(("annot open" in l and v.replace("/", "\\").split("\\")[-1].lower() in l.lower()) for l in errlines(p["out"])):
                return "a file that is not found is not named in an error: %s" % v
            if cur not in fic and not any(l.lower().replace("/", "\\").startswith(cur.lower().replace("/", "\\") + "(") and "annot open" in l for l in errlines(p["out"])):
                return "the error about a file that is not found does not name the file that asks for it: %s" % cur


# ---------------------------------------------------------------- C20
NAMEOPT = re.compile(r"-(F[dilosw]|I)")


class C20(Prop):
    rule = "A case is an invocation (1-3 modules, options before and between them) given directly and in an equivalent form: a prefix in the UASM variable, runs of arguments in response files or in variables named by @, nested up to 12 deep, separated by any white space, quoted, ended by Ctrl-Z and garbage, options introduced by '/'; optionally with the same fault on an input or output file in both."
    need_probes = ["UASM variable", "response file", "response variable", "nested", "slash", "fault in both", "long response"]

    def cases(self, ctx, seed, idx, tier):
        r = rng(seed, "C20", idx)
        k = r.random()
        if k < .5:
            w = w_any(r) if r.random() < .8 else w_error(r)
            words, files = list(w["argv"]), w["files"]
        else:
            mods, files, opts, g = modset(r, r.choice([2, 3]))
            words = list(opts)
            for m in mods:
                if r.random() < .4: words.append(r.choice(["-Fl", "-Zd", "-W1", "-W3", "-Sa", "-Zp4", "-Cp", "-DFOOX=3", "-Sg", "-q", "-Zf", "-Flx%d.lst" % r.randrange(9), "-nm=NAME%d" % r.randrange(9), "-e3", "-Fo=o%d.out" % r.randrange(99)]))
                words.append(m)
        if r.random() < .5:
            words[:0] = r.sample(["-nologo", "-DAB=1", "-D ABC", "-IC:\\inc1", "-I=..\\inc2", "-Zp2", "-less", "-c", "-Fw=e.txt", "-Fl=l.txt", "-Cx", "-W2", "-e=7"], r.choice([1, 2, 3]))
        if r.random() < .2:
            words[:0] = ["-D%s%d=%d" % (r.choice(["X", "LONGER_NAME_", "V" * r.randrange(1, 90)]), i, i) for i in range(r.choice([20, 60, 200, 400]))]
        items, i = [], 0
        while i < len(words):
            if words[i] in ("-Fo", "-Fi", "-I", "-Fw", "-D") and i + 1 < len(words):
                items.append([words[i], words[i + 1]])
                i += 2
            else:
                items.append(words[i].split(" ") if words[i].startswith("-D ") else [words[i]])
                i += 1
        if any("@" in x or '"' in x for it in items for x in it):
            return
        direct = [x for it in items for x in it]
        b = ctx.base({"files": files, "steps": [{"procs": [{"argv": direct}]}], "want": {}})
        if proc(b)["end"] != "exit" or proc(b)["av"]:
            return
        for j in range(6):
            self.n, self.fx, self.ev, self.pr = 0, [], {}, set()
            its = items
            env = None
            if r.random() < .4:
                n = r.randrange(1, len(its) + 1)
                for i, it in enumerate(its[:n]):  # the name takes the rest of the string
                    if NAMEOPT.match(it[0]) or it[0][0] not in "-/":
                        n = i + 1
                        break
                env = " ".join(self.slash(r, x) for it in its[:n] for x in it)
                its = its[n:]
                self.pr.add("UASM variable")
            argv = self.enc(r, its, 0)
            c = {"name": "cmd", "files": files + self.fx, "direct": direct, "argv": argv, "env": dict(self.ev, **({"UASM": env} if env else {})), "knobs": rknobs(r), "faults": [], "pr": sorted(self.pr)}
            ops = [x for x in opsof(b) if x[0] in ("open", "create", "read", "write", "close", "seek")]
            if j and r.random() < .5 and ops:
                c["faults"] = [io_fault(r, *r.choice(ops))]
                c["faults"][0]["sticky"] = 1
                c["faults"][0]["n"] = r.choice([0, 0, 1])
                c["faults"][0].pop("part", 0)
            yield c

    def slash(self, r, x):
        if x[0] == "-" and r.random() < .2:
            self.pr.add("slash")
            return "/" + x[1:]
        return x

    def enc(self, r, items, depth):
        """argv words (depth 0) or the text of a response file"""
        out = []
        i = 0
        while i < len(items) or (depth == 0 and not out):
            if items and i < len(items) and self.n < 14 and depth < 12 and r.random() < (.35 if depth < 2 else .5 if depth < 5 else .7):
                n = r.choice([0, 1, 1, 2, 3, 99])
                body = self.enc(r, items[i:i + n], depth + 1)
                i += n
                self.n += 1
                nm = "R%dX" % self.n
                if depth: self.pr.add("nested")
                if r.random() < .35:
                    self.pr.add("response variable")
                    self.ev[nm] = re.sub(r"[\r\n]", " ", body) or " "
                    if r.random() < .3: self.fx.append({"p": WORK + nm, "d": "-badoption nosuch.asm"})
                else:
                    self.pr.add("response file")
                    if r.random() < .2: body += "\x1a -badoption @nosuch \0 x"
                    nm += r.choice([".rsp", "", ".txt"])
                    if r.random() < .1: nm = "rsp dir\\" + nm
                    self.fx.append({"p": WORK + nm, "d": body})
                    if depth and (" " in nm or r.random() < .3): nm = '"%s"' % nm
                out.append("@" + nm)
                continue
            if i >= len(items): break
            it = items[i]
            i += 1
            if depth == 0:
                out += [self.slash(r, it[0])] + it[1:]
            else:
                it = [self.slash(r, it[0])] + it[1:]
                if it[0][0] not in "-/" and r.random() < .25: it[0] = '"%s"' % it[0]
                out.append(r.choice([" ", "  ", "\t"]).join(it) if it[0][1:2] in "FID" else " ".join(it))
        if depth == 0:
            return out
        t = ""
        if r.random() < .3: t += r.choice([" ", "\r\n", "\t\t"])
        far = r.randrange(len(out) + 1) if r.random() < .12 else -1
        for i, x in enumerate(out):
            if i == far:  # the rest is beyond any buffer
                self.pr.add("long response")
                t += "".join(r.choice([" ", "\r\n", "\n", "\t"]) for _ in range(60)) * r.choice([3, 5, 9, 18, 40, 70, 150])
            t += x + r.choice([" ", "\r\n", "\n", "   ", "\t", "\r\n\r\n "])
        return t.rstrip() if r.random() < .4 else t

    def oracle(self, ctx, case):
        fs = [f for f in case["files"]]
        a = ctx.base({"files": fs, "knobs": case["knobs"], "steps": [{"procs": [{"argv": case["direct"], "faults": case["faults"]}]}], "want": {}})
        pa = proc(a)
        if bad_end(pa):
            return None
        t = ctx.run({"files": fs, "knobs": case["knobs"], "steps": [{"procs": [{"argv": case["argv"], "env": case["env"], "faults": case["faults"]}]}], "want": {}, "budget": 20 * a["calls"] + 300000})
        p = proc(t)
        for x in case["pr"]: ctx.probes[x] += 1
        if p["fired"]: ctx.probes["fault in both"] += 1
        e = bad_end(p)
        if e:
            return "bad end with an equivalent command line: " + e
        if p["code"] != pa["code"]:
            return "exit status %d with an equivalent command line, %d with the direct one: %s" % (p["code"], pa["code"], (errlines(p["out"]) + errlines(pa["out"]) + [p["out"][-200:]])[0])
        oa, ot = outs(a), outs(t)
        if oa != ot:
            d = sorted(set(oa.items()) ^ set(ot.items()))[0][0]
            if d.endswith(".lst") and oa.get(d) and ot.get(d) and {k for k in set(oa) | set(ot) if oa.get(k) != ot.get(k)} <= {k for k in oa if k.endswith((".lst", "l.txt"))}:
                return None
            return "an output differs with an equivalent command line: %s %s, direct %s" % (d.split("\\")[-1], ot.get(d), oa.get(d))
        if msglines(p["out"]) != msglines(pa["out"]):
            return "the diagnostics differ with an equivalent command line: %r / %r" % (msglines(p["out"])[:2], msglines(pa["out"])[:2])


# ---------------------------------------------------------------- C21
REPORT = [["-Fl"], ["-Fl=list.lst"], ["-Fl", "-Sa"], ["-Fl", "-Sg"], ["-Fl", "-Sn"], ["-Fl", "-Sf"], ["-Fl", "-Sx"], ["-Fs=syms.txt"], ["-Fw=errs.txt"], ["-q"], ["-nologo"], ["-less"], ["-W0"], ["-W1"], ["-W2"], ["-W3"], ["-W4"], ["-e99"], ["-eq"], ["-c"]]


class C21(Prop):
    quick_s = 50.0
    rule = "A case is a workload assembled without any reporting option and with 1-4 of them (listing with any contents, symbol dump, error file, quiet, warning level, error limit, terminal), undisturbed or with 1-2 faults on the reporting outputs, standard output included; objects are compared byte by byte."
    need_probes = ["with reporting", "fault on reporting"]

    def cases(self, ctx, seed, idx, tier):
        r = rng(seed, "C21", idx)
        k = r.random()
        w = w_rich(r) if k < .75 else w_left(r) if k < .85 else w_error(r) if k < .92 else w_regerr(r)
        a = [x for x in w["argv"] if not re.match(r"-(F[lsw]|S[agnfx]$|q$|nologo|less|W\d|e\d|eq)", x)]
        w = dict(w, argv=a)
        for j in range(8):
            rep = [x for o in r.sample(REPORT, r.choice([1, 1, 2, 3, 4])) for x in o]
            kn = rknobs(r)
            if r.random() < .3: kn["tty"] = 1
            v = dict(w, rep=rep, knobs=kn, faults=[])
            if j >= 4:
                b = ctx.base(plan1(dict(w, argv=rep + a), knobs=kn))
                o = outs(b)
                op = set(o) - set(obj_paths(o))
                tg = [(c, q, n) for c, q, n in opsof(b) if c in ("write", "seek", "close", "chsize", "create") and (q.lower() in op or q == "<stdout>")]
                if not tg: continue
                for _ in range(r.choice([1, 1, 2])):
                    c, q, n = r.choices(tg, [1 + n ** .5 for _, _, n in tg])[0]
                    v["faults"].append(io_fault(r, c, q, n))
            yield v

    def oracle(self, ctx, case):
        b = ctx.base(plan1(case, knobs=None))
        pb = proc(b)
        if pb["end"] != "exit" or pb["av"]:
            return None
        c2 = dict(case, argv=case["rep"] + case["argv"])
        t = ctx.run(plan1(c2, case["faults"], case["knobs"], budget=40 * (b["calls"] + nbytes(b, case)) + 500000))
        p = proc(t)
        ctx.probes["with reporting"] += 1
        if p["fired"]: ctx.probes["fault on reporting"] += 1
        e = bad_end(p)
        if e:
            return "bad end with reporting options: " + e
        ob, ot = ({k: v for k, v in outs(x).items() if k.endswith(OBJEXT)} for x in (b, t))
        if p["code"] != pb["code"] and not p["fired"]:
            return "reporting options change the exit status: %d, without %d" % (p["code"], pb["code"])
        if p["code"] == 0 and pb["code"]:
            return "exit status 0 with reporting options for a program that must be rejected: "
        if p["code"] == 0 and ot != ob:
            d = sorted(set(ob.items()) ^ set(ot.items()))[0][0]
            return "reporting options change the object: %s %s, without %s" % (d.split("\\")[-1].split(".")[-1], ot.get(d), ob.get(d))
        if p["code"] and pb["code"] == 0:
            bad = [k for k, v in ot.items() if ob.get(k) != v]
            if bad: return "a failing report leaves a wrong object: %s" % bad[0]
            if not has_msg(p) and not any(f.get("path", "").lower() == "<stdout>" for f in case["faults"]) and "-eq" not in case["rep"]:
                return "nonzero status without a message: "


# ---------------------------------------------------------------- C22
class C22(Prop):
    rule = "A case is an invocation over 2-4 modules (by list or wildcard, with stale outputs of an earlier version of each) that is killed, interrupted or runs out of memory at a random call; afterwards every module's outputs must be complete, untouched, or belong to the one module that was in work."
    need_probes = ["modules complete", "modules untouched", "module in work", "kill", "memory", "signal"]

    def cases(self, ctx, seed, idx, tier):
        r = rng(seed, "C22", idx)
        mods, files, opts, g = modset(r, r.choice([2, 3, 3, 4]))
        opts = [o for o in opts if not o.startswith("-F") or o in ("-Fl",)]
        if r.random() < .3 and "-Fl" not in opts: opts = ["-Fl"] + opts
        if len(mods) < 2:
            return
        wild = None
        if r.random() < .25:
            e = {m.lower().rsplit(".", 1)[-1] for m in mods}
            if len(e) == 1 and {f["p"].lower() for f in files if f["p"].lower().endswith("." + list(e)[0])} == {absname(m).lower() for m in mods}:
                wild = "*." + list(e)[0]
        argv = opts + ([wild] if wild else mods)
        kn = rknobs(r)
        b = ctx.base({"files": files, "knobs": kn, "steps": [{"procs": [{"argv": argv}]}], "want": {}})
        p = proc(b)
        if p["end"] != "exit" or p["av"]:
            return
        for j in range(14):
            k = r.random()
            if k < .5: f = {"k": "kill", "n": r.randrange(p["calls"])}
            elif k < .75: f = {"k": "sig", "n": r.randrange(p["calls"]), "err": r.choice([21, 21, 11])}
            else: f = {"k": "alloc", "n": r.randrange(max(1, p["allocs"])), "sticky": 1}
            yield {"name": "dur-" + g, "files": files, "opts": opts, "mods": mods, "wild": wild, "knobs": kn, "faults": [f], "stale": r.random() < .6}

    def oracle(self, ctx, case):
        files = list(case["files"])
        argv = case["opts"] + ([case["wild"]] if case["wild"] else case["mods"])
        plan = {"knobs": case["knobs"], "steps": [{"procs": [{"argv": argv}]}], "want": {}}
        own = {}
        for m, d in declared(case["opts"] + case["mods"]):
            for x in d.values():
                if x in own: return None
                own[x] = m
        if case["stale"]:
            files += [{"p": x, "d": "stale " + x} for x in sorted(own)]
        b = ctx.base(dict(plan, files=files))
        pb = proc(b)
        if pb["end"] != "exit" or pb["av"]:
            return None
        t = ctx.run(dict(plan, files=files, steps=[{"procs": [{"argv": argv, "faults": case["faults"]}]}], budget=20 * b["calls"] + 300000))
        p = proc(t)
        if not p["fired"]:
            return None
        k = case["faults"][0]["k"]
        if k != "kill":
            e = bad_end(p)
            if e:
                return "bad end: " + e
        ctx.probes[{"kill": "kill", "sig": "signal", "alloc": "memory"}[k]] += 1
        order = case["mods"]
        if case["wild"]:
            order = sorted(order, key=lambda m: m.upper())  # the order of a directory search
        st = {}
        for x, m in own.items():
            a, c = exists(b, x, files), exists(t, x, files)
            initial = ("same" if case["stale"] else None)
            now = None if not c else "same" if c[2] == "same" else c[:2]
            fin = None if not a else "same" if a[2] == "same" else a[:2]
            s = set()
            if now == fin: s.add("done")
            if now == initial: s.add("un")
            st.setdefault(m, []).append((x, s))
        res = []
        for m in order:
            L = st[m]
            done, un = all("done" in s for _, s in L), all("un" in s for _, s in L)
            res.append((m, done, un))
        # complete*, one in work, untouched*
        i = 0
        while i < len(res) and res[i][1]:
            i += 1
        rest = res[i:]
        if rest and not rest[0][2]:
            ctx.probes["module in work"] += 1
            rest = rest[1:]
        if i: ctx.probes["modules complete"] += 1
        if rest: ctx.probes["modules untouched"] += 1
        for m, done, un in rest:
            if not un:
                bad = [x for x, s in st[m] if "un" not in s]
                return "outputs of more than one module are disturbed by one %s: %s is neither complete nor as it was, module order %s, state %s" % ({"kill": "kill", "sig": "signal", "alloc": "lack of memory"}[k], bad[0], order, [(a, "complete" if d else "untouched" if u else "disturbed") for a, d, u in res])
