"""C07, C10 and C18-C21: cases and oracles."""
import calendar, datetime
from props2 import *


# ---------------------------------------------------------------- C07
def omf_nosum(d):
    """An OMF file without its record checksums (each one is checked)."""
    o, i = [], 0
    while i + 3 <= len(d):
        n = ord(d[i + 1]) | ord(d[i + 2]) << 8
        rec = d[i:i + 3 + n]
        if n < 1 or len(rec) < 3 + n:
            return d
        if ord(rec[-1]) and sum(map(ord, rec)) & 255:
            return None
        o.append(rec[:-1])
        i += 3 + n
    return "".join(o) + d[i:]


def u32(d, i):
    return struct.unpack("<I", d[i:i + 4].encode("latin1"))[0] if 0 <= i and i + 4 <= len(d) else None


def pe_stamps(d):
    """Offsets of the time stamps of a PE file: the file header's and the export directory's."""
    e = u32(d, 0x3c)
    if d[:2] != "MZ" or e is None or d[e:e + 4] != "PE\0\0":
        return []
    res = [e + 8]
    ns, oh = ord(d[e + 6]) | ord(d[e + 7]) << 8, ord(d[e + 20]) | ord(d[e + 21]) << 8
    o = e + 24
    dd = o + (112 if d[o:o + 2] == "\x0b\x02" else 96)
    rva = u32(d, dd)
    for i in range(ns):
        s = o + oh + 40 * i
        va, sz, raw = u32(d, s + 12), u32(d, s + 16), u32(d, s + 20)
        if rva and None not in (va, sz, raw) and va <= rva < va + sz:
            res.append(raw + rva - va + 4)
    return res


STAMP = re.compile(r"\{\{D(.{1,20}?)\|(.{1,20}?)\}\}", re.S)
COFFY = ("-coff", "-win64", "-djgpp")


def norm_time(name, d, argv, kn, tvals, bad):
    """The file with everything that may encode the time replaced; wrong encodings are put into bad."""
    secs = {t & 0xffffffff for t in tvals}
    offs = []
    l = name.lower()
    if l.endswith(OBJEXT):
        if any(a in COFFY for a in argv):
            offs = [4]
        elif "-pe" in argv or d[:2] == "MZ":
            offs = pe_stamps(d)
    for o in offs:
        v = u32(d, o)
        if v not in secs and not (v == 0 or "-pe" not in argv and d[:2] == "MZ"):
            bad.append("time stamp %#x at offset %d is not a time of this run %s" % (v, o, sorted(secs)[:4]))
        d = d[:o] + "TTTT" + d[o + 4:]
    if "-omf" in argv and l.endswith(OBJEXT):
        x = omf_nosum(d)
        if x is None:
            bad.append("an OMF record has a wrong checksum")
        else:
            d = x

    def f(m):
        ok = set()
        for t in tvals:
            x = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t + kn.get("tz", 0) * 60)
            ok.add((x.strftime("%m/%d/%y"), x.strftime("%H:%M:%S")))
        if (m.group(1), m.group(2)) not in ok:
            bad.append("@Date/@Time is %s %s, clock %s" % (m.group(1), m.group(2), sorted(ok)[:3]))
        return "{{D}}"
    d = STAMP.sub(f, d)
    if l.endswith(".lst"):
        d = mask_out(d)
    return d


class C07(Prop):
    rule = "A case is a workload (some use @Date and @Time) run once at a reference time with a standing clock and once at another date, time zone and clock speed, with up to 3 clock jumps (forward, back, over midnight) placed between the clock reads; outputs are compared after the documented time fields have been checked against the times the run was given and blanked."
    need_probes = ["other clock", "@Date checked", "stamp checked", "jump"]

    def cases(self, ctx, seed, idx, tier):
        r = rng(seed, "C07", idx)
        k = r.random()
        w = w_rich(r) if k < .45 else w_hand(r) if k < .9 else w_error(r)
        dated = False
        if k >= .45 and r.random() < .7:
            d = w["files"][0]["d"]
            cr = "\r\n" if "\r\n" in d else "\n"
            m = re.search(r"(?im)^\.data\r?$", d)
            if m:
                dated = True
                add = cr + cr.join(["qdt catstr <!'>,@Date,<!'>", "qtm catstr <!'>,@Time,<!'>", " db '{{D',qdt,'|',qtm,'}}'"] * 1)
                if r.random() < .5:
                    add += cr + " db '{{D',qdt,'|',qtm,'}}'"
                d = d[:m.end()].rstrip("\r") + add + cr + d[m.end():].lstrip("\r\n")
                if r.random() < .4:
                    d = re.sub(r"(?m)^end( start)?\r?$", lambda q: ".data" + cr + " db '{{D',qdt,'|',qtm,'}}'" + cr + q.group(0), d, 1)
                w = dict(w, files=[dict(w["files"][0], d=d)] + w["files"][1:])
        argv = [a for a in w["argv"] if not (dated and a.startswith(("-Fl", "-Fs")))]
        w = dict(w, argv=argv)
        omfdbg = "-omf" in argv
        for j in range(6):
            kn = {"mt": 1600000000}
            kn["clock"] = r.choice([r.randrange(315532800 + 86400, 4260000000), r.randrange(1700000000, 1800000000)])
            if r.random() < .3:  # just before midnight, the end of a year, a leap day
                kn["clock"] = calendar.timegm((r.choice([1999, 2023, 2024, 2037, 2099]), r.choice([12, 12, 2, 6]), 1, 0, 0, 0)) + r.choice([27, 28, 29, 30]) * 86400 - r.choice([1, 1, 2, 40])
            if r.random() < .04:
                kn["clock"] = r.randrange(2 ** 32, 2 ** 32 + 10 ** 9)
            if r.random() < .5 and not omfdbg:
                kn["tz"] = r.choice([-720, -480, -90, 60, 330, 345, 840])
            if r.random() < .6:
                kn["freeze"] = 0
                kn["tick"] = r.choice([1, 10, 1000, 100000, 3000000])
            fs = []
            if r.random() < .6:
                for _ in range(r.choice([1, 1, 2, 3])):
                    fs.append({"k": "clock", "n": r.randrange(6), "delta": r.choice([1, 2, 60, 86400, 3600, -1, -3600, -86400, -86400 * 365, 86400 * 3650, 43200])})
            yield dict(w, knobs=kn, faults=fs)

    def oracle(self, ctx, case):
        k0 = {"mt": case["knobs"].get("mt", 1600000000)}
        b = ctx.base(plan1(case, knobs=k0, want={"data": 1}))
        pb = proc(b)
        if pb["end"] != "exit" or pb["av"]:
            return None
        t = ctx.run(plan1(case, case["faults"], case["knobs"], budget=20 * (b["calls"] + nbytes(b, case)) + 300000, want={"data": 1}))
        p = proc(t)
        ctx.probes["other clock"] += 1
        if p["fired"]: ctx.probes["jump"] += 1
        e = bad_end(p)
        if e:
            return "bad end at another time: " + e
        if p["code"] != pb["code"]:
            return "the exit status depends on the clock: %d / %d" % (pb["code"], p["code"])
        fb, ft = ({f[0].lower(): f[4] for f in r["files"] if f[3] != "gone"} for r in (b, t))
        if set(fb) != set(ft):
            return "the set of outputs depends on the clock: %s" % sorted(set(fb) ^ set(ft))
        for n in sorted(fb):
            bad = []
            x = norm_time(n, fb[n], case["argv"], k0, pb["tvals"], bad)
            y = norm_time(n, ft[n], case["argv"], case["knobs"], p["tvals"], bad)
            if "{{D}}" in y: ctx.probes["@Date checked"] += 1
            if n.endswith(OBJEXT) and any(a in COFFY or a == "-pe" for a in case["argv"]): ctx.probes["stamp checked"] += 1
            if bad:
                return "a time in the output is wrong: %s: %s" % (n.split("\\")[-1], bad[0])
            if x != y and not (n.endswith(".lst") and self.exports(case)):
                i = next((i for i, (a, c) in enumerate(zip(x, y)) if a != c), min(len(x), len(y)))
                return "an output depends on the clock: %s at %d, sizes %d/%d: %r / %r" % (n.split("\\")[-1], i, len(x), len(y), x[max(0, i - 8):i + 24], y[max(0, i - 8):i + 24])
        if mask_out(p["out"]) != mask_out(pb["out"]):
            return "the console output depends on the clock: "

    def exports(self, case):
        return "-pe" in case["argv"]


# ---------------------------------------------------------------- C10
def unsettled(ctx, case, **k):
    """What in the image of a `settle` program does not agree with its final layout"""
    if "settle" not in case: return None
    w = W.settle(case["settle"])
    if w["files"] != case["files"]: return None      # shortened by the minimiser: no model
    b = ctx.base(dict(plan1(case, knobs=case["knobs"], **k), want={"data": 1}))
    if proc(b)["end"] != "exit" or proc(b)["code"]: return None
    ctx.probes["layout compared with a model"] += 1
    m = re.search(r"(\d+) passes", proc(b)["out"])
    if m and int(m.group(1)) > 4: ctx.probes["layout that took more than 4 passes"] += 1
    d = fdata(b, WORK + "st.bin")
    e = "no image" if d is None else W.settled(d.encode("latin1"), w["model"])
    return e and "the object is not that of the final layout: " + e


class C10(Prop):
    quick_s = 50.0
    hooks = True
    rule = "A case is a workload assembled by an image with the UASM_SIM hooks, once with every internal decision at its default and then with seeded ones: 1-5 superfluous passes after convergence, arena blocks of a random size, and fewer bits in the hash of symbol names (more collisions)."
    need_probes = ["extra passes", "block size", "hash bits", "layout compared with a model"]

    def cases(self, ctx, seed, idx, tier):
        r = rng(seed, "C10", idx)
        k = r.random()
        w = w_rich(r) if k < .65 else w_left(r) if k < .8 else w_settle(r) if k < .9 else w_error(r)
        for j in range(5):
            h = {}
            if r.random() < .6: h["extra"] = r.choice([1, 1, 2, 5])
            if r.random() < .4 and "-macho64" not in w["argv"] and not any(a.startswith(("-Zi", "-Zf")) for a in w["argv"]):  # these list symbols in hash order
                h["hmask"] = r.choice([0, 1, 7, 63, 1023])
            if r.random() < .4 or not h: h["blk"] = r.choice([16, 64, 100, 1000, 4096, 65536, 1 << 21])
            yield dict(w, knobs=rknobs(r), hook=h)

    def oracle(self, ctx, case):
        b = ctx.base(plan1(case, knobs=case["knobs"], img=ctx.hexe))
        pb = proc(b)
        if pb["end"] != "exit" or pb["av"]:
            return None
        e = unsettled(ctx, case, img=ctx.hexe)
        if e: return e
        h = case["hook"]
        c2 = dict(case, env=dict(case.get("env") or {}, UASM_SIM=",".join("%s=%d" % x for x in sorted(h.items()))))
        t = ctx.run(plan1(c2, knobs=case["knobs"], budget=20 * b["calls"] + 3000000, img=ctx.hexe))
        for k, n in (("extra", "extra passes"), ("hmask", "hash bits"), ("blk", "block size")):
            if k in h: ctx.probes[n] += 1
        p = proc(t)
        what = "+".join(sorted(h))
        e = bad_end(p)
        if e:
            return "bad end with other internal decisions (%s): %s" % (what, e)
        if p["code"] != pb["code"]:
            return "the exit status depends on internal decisions (%s): %d / %d" % (what, pb["code"], p["code"])
        ob, ot = outs(b), outs(t)
        for k in sorted(set(ob) | set(ot)):
            if ob.get(k) != ot.get(k) and (k.endswith(OBJEXT) or set(h) <= {"blk"} and not k.endswith(".lst")):
                return "an output depends on internal decisions (%s): %s %s / %s" % (what, k.split("\\")[-1].split(".")[-1], ob.get(k), ot.get(k))
        if sorted(set(errlines(p["out"]))) != sorted(set(errlines(pb["out"]))):
            return "the errors reported depend on internal decisions (%s)" % what


# ---------------------------------------------------------------- C18
class C18(Prop):
    rule = "A case is an invocation during which another party replaces or removes one of its input files (source, include, INCBIN or response file) at a random call, not while it is open."
    need_probes = ["replaced", "removed", "old version", "new version", "refused"]

    def cases(self, ctx, seed, idx, tier):
        r = rng(seed, "C18", idx)
        w = w_any(r) if r.random() < .85 else w_error(r)
        kn = rknobs(r)
        b = ctx.base(plan1(w, knobs=kn))
        if proc(b)["end"] != "exit" or proc(b)["av"]:
            return
        opened = {k.split("|", 1)[1].upper() for k in proc(b)["ops"] if k.startswith("open|")}
        cand = [f for f in w["files"] if any(o.endswith("\\" + f["p"].replace("/", "\\").split("\\")[-1].upper()) for o in opened)]
        if not cand:
            return
        for j in range(12):
            f = r.choice(cand)
            d = mutate(r, f)
            m = {"k": "mut", "path": f["p"], "n": r.randrange(proc(b)["calls"])}
            if d is None: m["rm"] = 1
            else: m["d"] = d
            yield dict(w, knobs=kn, faults=[m])

    def oracle(self, ctx, case):
        m = case["faults"][0]
        b = ctx.base(plan1(case, knobs=case["knobs"]))
        if proc(b)["end"] != "exit" or proc(b)["av"]:
            return None
        fs = [f for f in case["files"] if f["p"] != m["path"]]
        if not m.get("rm"): fs.append({"p": m["path"], "d": m["d"]})
        n = ctx.base(plan1(dict(case, files=fs), knobs=case["knobs"]))
        if proc(n)["end"] != "exit" or proc(n)["av"]:
            return None
        t = ctx.run(plan1(case, case["faults"], case["knobs"], budget=20 * max(b["calls"], n["calls"]) + 200000))
        p = proc(t)
        if not p["fired"]: return None
        ctx.probes["removed" if m.get("rm") else "replaced"] += 1
        e = bad_end(p)
        if e:
            return "bad end when an input file changes: " + re.sub(r"\+0x[0-9a-f]+", "", e)
        if p["code"] != 0:
            if not has_msg(p): return "nonzero status without a message when an input file changes"
            ctx.probes["refused"] += 1
            return None
        def objs(x): return {k: v for k, v in outs(x).items() if k.endswith(OBJEXT) and not k.endswith(m["path"].lower().replace("/", "\\"))}
        o, ob, on = objs(t), objs(b), objs(n)
        if proc(b)["code"] == 0 and o == ob:
            ctx.probes["old version"] += 1
            return None
        if proc(n)["code"] == 0 and o == on:
            ctx.probes["new version"] += 1
            return None
        if any(a.startswith("-Zi8") for a in case["argv"]):
            return None  # the source checksums of CodeView 8 are those at the end of the run
        return "status 0, but the object is neither that of the old nor of the new version: %s" % m["path"].split(".")[-1]
