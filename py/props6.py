"""C25: cases and oracle."""
from props5 import *

OPENERS = re.compile(r"^\s*(?:%?\s*)(?:[^\s;:]+:+\s*)?(?:(rept|repeat|for|forc|irp|irpc|while|%?if|ife|if1|if2|ifb|ifnb|ifdef|ifndef|ifidni?|ifdifi?)\b|(?:[^\s;]+\s+)?(macro|struc|struct|union)\b)", re.I)
CLOSERS = re.compile(r"^\s*(?:[^\s;:]+:+\s*)?(?:(endm|endif)\b|(?:[^\s;]+\s+)?(ends)\b)", re.I)


def cuttable(lines):
    """depth[i]: how many constructs that mustn't be divided are open before line i; None: it can't be said"""
    d, out, st = 0, [], []
    for l in lines:
        out.append(len(st))
        c = l.split(";")[0].rstrip("\r\n \t")
        w = c.split()
        if re.match(r"\s*comment\s", c, re.I): return None
        if st and st[-1] == "cont": st.pop()
        m = OPENERS.match(c)
        if m:
            k = (m.group(1) or m.group(2)).lower()
            if k in ("struc", "struct", "union"): st.append("s")
            else: st.append("m" if not k.lstrip("%").startswith("if") else "i")
        else:
            m = CLOSERS.match(c)
            if m:
                k = (m.group(1) or m.group(2)).lower()
                if k == "ends":
                    if st and st[-1] == "s": st.pop()
                elif not st or st[-1] != ("m" if k == "endm" else "i"): return None
                else: st.pop()
        if c.endswith(("\\", ",")): st.append("cont")
        elif c.count("<") > c.count(">") or c.count("{") != c.count("}"): st.append("cont")
    return out if not st else None


NAMES25 = ["part%d.inc", "sub dir\\p%d.inc", "sub\\deeper\\part%d", "..\\other\\p%d.i", "D:\\far\\part%d.txt", "p%d.x.y", "C:\\inc25\\p%d.inc"]
DIRS25 = ["C:\\work", "C:\\work\\sub dir", "C:\\work\\sub\\deeper", "C:\\other", "D:\\far", "C:\\inc25"]


class C25(Prop):
    quick_s = 35.0
    rule = "A case is a program of any workload whose text is divided otherwise: stretches of its lines are moved to include files (nested, in other directories, the beginning perhaps to an -Fi file), with other line ends, without a last one or with ^Z after it, and delivered through buffers of other sizes; undisturbed or with a fault (then it may also fail). Object, status and the texts of the messages are those of the undivided program."
    need_probes = ["divided", "nested", "same file again", "-Fi", "line ends", "fault", "object compared", "same diagnostics"]

    def split(self, r, lines, depth, plain, files, p):
        """moves stretches of lines to include files"""
        i, out = 0, []
        n = len(lines)
        while i < n:
            if r.random() < p and depth[i] == depth[0]:
                m = min(n, i + r.choice([1, 1, 2, 3, 5, 10, 30, 100, 1000]))
                j = next((j for j in range(m, i, -1) if j == n or depth[j] == depth[i]), i)
                if all(depth[x] >= depth[i] for x in range(i, j)) and j > i and not any(re.match(r"\s*end\b", l, re.I) for l in lines[i:j]):
                    sub, dp = lines[i:j], depth[i:j]
                    # names in the text are searched for beside the including file
                    nm = r.choice(NAMES25 if plain(sub) else NAMES25[:1] + NAMES25[5:6]) % self.k
                    self.k += 1
                    t = "\n".join(sub)
                    if self.same is not None and t in self.same:      # the same lines again: the same file again
                        out.append(self.same[t])
                        self.pr.add("same file again")
                        i = j
                        continue
                    if self.lvl < self.maxlvl and self.k < 60 and r.random() < (.4 if self.maxlvl < 5 else .9) and "\\" not in nm:
                        self.lvl += 1
                        sub = self.split(r, sub, dp, plain, files, .3)
                        if self.lvl: self.pr.add("nested")
                        self.lvl -= 1
                    self.put(r, nm, sub, files)
                    q = r.choice(["include %s", "INCLUDE %s", " include <%s>", "include %s ; a part of the program"]) if " " not in nm else "include <%s>"
                    out.append(q % nm)
                    if self.same is not None: self.same[t] = out[-1]
                    i = j
                    if self.k >= 60: p = 0
                    continue
            out.append(lines[i])
            i += 1
        return out

    def put(self, r, nm, lines, files):
        e = r.choice(["\r\n", "\r\n", "\n"])
        t = e.join(lines)
        k = r.random()
        if k < .6: t += e
        elif k < .75: t += e + "\x1a" + r.choice(["", "junk\r\n", "mov zz, zz\r\n"])
        elif k < .82: t += "\x1a"
        elif k < .88: t += e + e
        files.append({"p": absname(nm), "d": t})

    def cases(self, ctx, seed, idx, tier):
        r = rng(seed, "C25", idx)
        k = r.random()
        w = w_rich(r) if k < .3 else w_any(r, True) if k < .6 else w_gen(r) if k < .75 else w_left(r) if k < .85 else w_error(r)
        w = dict(w, argv=[a for a in w["argv"] if not re.match(r"-(Z[id]|F[ls]|Sp|nm|EP|eq)", a)])
        main = next((f for f in w["files"] if f["p"].split("\\")[-1] == w["argv"][-1]), None)
        if not main: return
        d = text(main)
        every = "".join(text(f) for f in w["files"])
        if re.search(r"@line|@file|\.err|%out|\becho\b|@date|@time|\x1a|\x00|@environ|\.if[12]\b|includelib.*\.inc|<\\>|textequ\s*<\s*>", every, re.I) or len(d) > 200000: return
        lines = d.replace("\r\n", "\n").rstrip("\n").split("\n")
        depth = cuttable(lines)
        if depth is None: return
        b = ctx.base(plan1(w))
        if proc(b)["end"] != "exit" or proc(b)["av"]: return
        plain = lambda ls: not any(re.search(r"include|incbin", l, re.I) for l in ls)
        for j in range(5):
            self.k, self.lvl, self.pr = 0, 0, set()
            self.maxlvl = r.choice([4, 4, 4, 9, 15])
            self.same = {} if r.random() < .5 else None
            files = [f for f in w["files"] if f is not main]
            argv = list(w["argv"])
            ls = self.split(r, lines, depth, plain, files, r.choice([.02, .1, .4, 1]))
            if r.random() < .2:        # the beginning by -Fi
                c = [i for i in range(1, len(ls)) if i < 40]
                if depth == cuttable(lines) and c:
                    dl = cuttable(ls)
                    c = [i for i in c if dl and not dl[i] and not any(re.match(r"\s*end\b", l, re.I) for l in ls[:i])]
                    if c:
                        i = r.choice(c)
                        self.put(r, "first.inc", ls[:i], files)
                        ls = ls[i:]
                        argv[:0] = [r.choice(["-Fi=first.inc", "-Fifirst.inc", "-Fi=C:\\work\\first.inc"])]
                        self.pr.add("-Fi")
            e = r.choice(["\r\n", "\n"])
            if e.join(lines) not in d: self.pr.add("line ends")
            if self.k: self.pr.add("divided")
            c = dict(w, files=[{"p": main["p"], "d": e.join(ls) + r.choice([e, e, e, "", e + "\x1a", e + e, "\x1a"])}] + files, argv=argv, orig=w["files"], oargv=w["argv"], knobs=rknobs(r), dirs=sorted(set(DIRS25) | set(w.get("dirs") or ())), faults=[], probes=sorted(self.pr))
            if r.random() < .3 and self.k:
                b2 = ctx.run(plan1(c, (), c["knobs"], budget=20 * b["calls"] + 20 * nbytes(b, w) + 300000))
                if proc(b2)["end"] == "exit": c["faults"] = [anyfault(r, b2, kinds="iiia")]
            yield c

    def smaller(self, case):
        """one file less, or some lines less in both forms"""
        main = case["oargv"][-1].lower()
        n = next((i for i, f in enumerate(case["orig"]) if f["p"].split("\\")[-1].lower() == main), None)
        if n is None: return
        for i, f in enumerate(case["files"]):
            inc = re.compile(r"(?im)^\s*include\s+<?%s>?( ;.*)?$" % re.escape(next((m for q in NAMES25 for m in [q % k for k in range(61)] if absname(m).lower() == f["p"].lower()), "??")))
            for j, g in enumerate(case["files"]):
                if j != i and "d" in g and "d" in f and inc.search(g["d"].replace("\r", "")):
                    fs = list(case["files"])
                    t = f["d"].split("\x1a")[0].rstrip("\r\n").replace("\r", "")
                    fs[j] = dict(g, d=inc.sub(lambda m: t, g["d"].replace("\r", "")))
                    del fs[i]
                    yield dict(case, files=fs)
        t = text(case["orig"][n]).replace("\r", "").split("\n")
        step = max(1, len(t) // 2)
        while step:
            for i in range(0, len(t), step):
                lost, fs = t[i:i + step], []
                for f in case["files"]:
                    if "d" in f:
                        L = f["d"].split("\n")
                        for l in list(L):
                            q = l.replace("\r", "").replace("\x1a", "")
                            if q in lost and not l.startswith("\x1a"):
                                L.remove(l)
                                lost = [x for k, x in enumerate(lost) if k != lost.index(q)]
                        f = dict(f, d="\n".join(L))
                    fs.append(f)
                o = list(case["orig"])
                o[n] = {"p": o[n]["p"], "d": "\n".join(t[:i] + t[i + step:])}
                yield dict(case, files=fs, orig=o)
            step //= 2

    def oracle(self, ctx, case):
        b = ctx.base(plan1(dict(case, files=case["orig"], argv=case["oargv"])))
        pb = proc(b)
        if pb["end"] != "exit" or pb["av"]: return None
        t = ctx.run(plan1(case, case["faults"], case["knobs"] or None, budget=40 * (b["calls"] + nbytes(b, case)) + 400000))
        p = proc(t)
        for x in case["probes"]: ctx.probes[x] += 1
        if p["fired"]:
            ctx.probes["fault"] += 1
            if p["end"] != "exit" or p["av"] or p["code"]: return None        # the other properties say what it has to look like then
        if p["end"] != "exit" or p["av"]:
            return "divided, it doesn't end as it should: %s" % (bad_end(p) or p["end"])
        if p["code"] != pb["code"]:
            return "divided, the exit status is %d instead of %d: %s" % (p["code"], pb["code"], (errlines(p["out"]) + errlines(pb["out"]) + [""])[0])
        if not p["fired"]:
            ma, mb = diags(pb["out"]), diags(p["out"])
            ctx.probes["same diagnostics"] += bool(ma)
            if ma != mb and not any("A1113" in x for x in ma + mb):
                return "divided, the diagnostics differ: %r / %r" % ([x for x in mb if x not in ma][:2] or mb[:1], [x for x in ma if x not in mb][:2] or ma[:1])
        ob, ot = obj_paths(outs(b)), obj_paths(outs(t))
        if set(ob) != set(ot): return "divided, the objects differ: %s / %s" % (sorted(ot), sorted(ob))
        for k in ob:
            ctx.probes["object compared"] += 1
            if outs(b)[k] != outs(t)[k]:
                da = fdata(ctx.run(dict(plan1(dict(case, files=case["orig"], argv=case["oargv"])), want={"data": 1}), False), k)
                db = fdata(ctx.run(dict(plan1(case, case["faults"], case["knobs"] or None), want={"data": 1}, dirs=case["dirs"]), False), k)
                if mask_out(da) == mask_out(db): continue
                return "divided, the object differs: %s is %d bytes, was %d" % (k.split("\\")[-1], len(db), len(da))


DIAG = re.compile(r"(?:[Ee]rror|[Ww]arning)\s+[AW]\d{4}:.*")


def diags(s):
    """the diagnostics without the places where they occurred"""
    return sorted(DIAG.findall(s.replace("\r", "")))
