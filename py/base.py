"""Shared by all properties: the base class, workload choice, perturbations, fault choice."""
import re, random, os
import workloads as W
from core import *
from simlib import rng, WORK


class Prop:
    quick_s, thorough_s = 35.0, 600.0
    quick_n, thorough_n = 100000, 10000000
    hooks = False
    rule = ""
    assumptions = []
    stubs = []
    need_probes = []

    def selftest(self, a, b, seed):
        """Same plans in two fresh simulators must give identical logs."""
        for i in range(3):
            n = 0
            for case in self.cases(a, seed, "selftest%d" % i, "quick"):
                la, lb = len(a.log), len(b.log)
                ra, rb = self.oracle(a, case), self.oracle(b, case)
                if ra != rb or not set(b.log[lb:]) <= set(a.log):
                    raise HarnessError("simulation is not deterministic: %r / %r" % (ra, rb))
                n += 1
                if n >= 6:
                    break


# ---------------------------------------------------------------- workload choice
# command-line options that change the program assembled or its records, outside the ones the workloads choose themselves
XOPTS = ["-zf0", "-zf1", "-zf2", "-zt0", "-zt1", "-zt2", "-zv0", "-zv1", "-zlc", "-zld", "-zlf", "-zlp", "-zls", "-zcm", "-zcw", "-zze", "-zzs", "-Zv8", "-Zg", "-Zf", "-Zm", "-Zne", "-Zp1", "-Zp2", "-Zp8", "-Zp16", "-Sp16", "-Sp32",
         "-Zi", "-Zi0", "-Zi1", "-Zi2", "-Zi3", "-Zd", "-Gc", "-Gd", "-Gr", "-Gz", "-Cu", "-Cx", "-Cp", "-fp0", "-fp2", "-fp3", "-fpc", "-FPi", "-FPi87", "-archSSE", "-archAVX", "-Sf", "-Sg", "-Sn", "-Sx", "-Sa", "-safeseh", "-nomlib", "-less",
         "-W0", "-W1", "-W3", "-W4", "-3", "-5p", "-6", "-8", "-10p", "-nc=KODE", "-nt=TEKST", "-nm=MODUL", "-nd=DATEN"]


def xopts(r, p=.12):
    return [r.choice(XOPTS) for _ in range(r.choice([1, 1, 2, 3]))] if r.random() < p else []


def named(fn):
    """Some of the workloads have outputs in other places, or under other names, than the default ones."""
    def g(r, *a, **k):
        w = fn(r, *a, **k)
        x = xopts(r)
        if "-macho64" in w["argv"]: x = [o for o in x if o[:3] != "-nd"]
        if x: w = dict(w, argv=w["argv"][:-1] + x + w["argv"][-1:])
        if r.random() < .12:
            e = {"omf": ".obj", "coff": ".obj", "win64": ".obj", "elf": ".o", "elf64": ".o", "macho64": ".o", "bin": ".bin", "mz": ".exe", "pe": ".exe"}.get(next((x[1:] for x in w["argv"] if x[1:] in ("omf", "coff", "win64", "elf", "elf64", "macho64", "bin", "mz", "pe")), ""), ".obj")
            o = []
            if r.random() < .8: o.append(r.choice(["-Fo=nam" + e, "-Fo=out.d\\", "-Fo=out.d\\na.m" + e, "-Fooutx" + e, "-Fo=C:\\work\\out.d\\..\\up" + e, "-Fo=n"]))
            if r.random() < .3 and not any(x.startswith("-Fl") for x in w["argv"]): o.append(r.choice(["-Fl=li.st.lst", "-Fl=out.d\\", "-Fl=out.d\\li.lst"]))
            if r.random() < .3: o.append(r.choice(["-Fw=nam.err", "-Fw=out.d\\", "-Fw=out.d\\e.err"]))
            w = dict(w, argv=w["argv"][:-1] + o + w["argv"][-1:], files=w["files"] + [{"p": W.WORK + "out.d\\keep.txt", "d": "keep"}])
        return w
    return g


def w_hand(r, aux=True, fills=(0, 0, 3, 20, 60, 400)):
    fmt = r.choice(W.FORMATS)
    o = r.choice(W.OPTSETS[fmt]) + (r.choice(W.AUX) if aux else ())
    return W.hand(fmt, r.choice(fills), o, crlf=r.random() < .8, seed=r.randrange(1, 1000), dirs=r.random() < .3)


def w_reg(r, maxlen=60000):
    L = W.regress()
    for _ in range(20):
        c = r.choice(L)
        if sum(os.path.getsize(f["h"]) for f in c["files"]) <= maxlen:
            break
    return dict(c)


def w_gen(r, big=False):
    return W.gen(r.randrange(1 << 30), r.choice([10, 25, 60, 150] + ([600, 1500] if big else [])), opts=r.choice([(), (), ("-Fl",), ("-Zd",), ("-Fl", "-Sg")]))


def w_settle(r):
    w = W.settle(r.randrange(1 << 30))
    del w["model"]
    if r.random() < .3: w["argv"] = ["-Fl"] + w["argv"]
    return w


@named
def w_any(r, aux=True, big=False):
    k = r.random()
    if k < .05:
        return w_probe(r)
    if k < .11:
        return W.scale(r.randrange(100000))
    if k < .13:
        return w_settle(r)
    if k < .58:
        return w_hand(r, aux)
    if k < .8:
        return w_reg(r)
    return w_gen(r, big)


def w_probe(r):
    """A program of many small constructs for any format (valid)."""
    f = r.choice(sorted(W.PROBEBITS))
    o = {"omf32": "omf", "bin32": "bin", "pe64": "pe"}.get(f, f)
    k = r.randrange(1, 400)
    return {"name": "probe-%s-%d" % (f, k), "files": [{"p": W.WORK + "pr.asm", "d": W.probe(W.PROBEBITS[f], k)}], "argv": ["-" + o] + r.choice([[], [], ["-Fl"], ["-Fs=s.txt"], ["-Zi"] if f in ("coff", "omf32", "win64") else [], ["-Zd"] if f in ("coff", "omf", "elf") else []]) + ["pr.asm"], "fmt": f}


@named
def w_left(r):
    """A program with open or changing constructs at a random place, often invalid."""
    c = w_probe(r) if r.random() < .5 else w_reg(r) if r.random() < .6 else w_hand(r)
    c = dict(c, files=[dict(f) for f in c["files"]])
    for f in c["files"]:
        if f["p"].split("\\")[-1] == c["argv"][-1]:
            d = f["d"] if "d" in f else open(f["h"], encoding="latin1", newline="").read()
            f.pop("h", None)
            f["d"] = W.leftover(r, d)
    return dict(c, name="left-" + c["name"])


@named
def w_error(r):
    """A hand-written program with one defect somewhere in it."""
    c = w_hand(r, True, (0, 0, 20))
    k = r.choice(sorted(W.EXTERRS))
    c = dict(c, files=[dict(f) for f in c["files"]])
    d = c["files"][0]["d"]
    e = W.EXTERRS[k]
    cr = "\r\n" if "\r\n" in d else "\n"
    lines = d.split(cr)
    code = next((i for i, l in enumerate(lines) if l.startswith(".code") or l.startswith("start")), len(lines) // 2)
    end = next((i for i in range(len(lines) - 1, 0, -1) if lines[i].startswith("end")), len(lines) - 1)
    at = r.randrange(code + 1, end + 1) if end > code else end
    lines[at:at] = e.strip("\n").split("\n")
    c["files"][0]["d"] = cr.join(lines)
    c["name"] += "-err-" + k
    return c


BUFS = [1, 7, 64, 512, 4096, 4096, 4096, 65536]


def rknobs(r, light=True):
    k = {}
    if r.random() < .5:
        k["bufsiz"] = r.choice(BUFS)
    if r.random() < .2:
        k["winefc"] = 1
    if not light:
        if r.random() < .7: k["aslr"] = r.randrange(1 << 20)
        if r.random() < .7: k["fill"] = r.choice([-1, -1, 0, 255, 0xAA, 0x41])
        if r.random() < .5: k["reuse"] = r.choice([1, 2])
        if r.random() < .6: k["stackfill"] = r.choice([0, 255, 0x41, 0x7f])
        if r.random() < .3: k["tty"] = 1
        if r.random() < .4: k["pid"] = r.randrange(1, 60000)
        k["seed"] = r.randrange(1 << 20)
    return k


def opsof(b, pid=0):
    """[(cls, path, count)] of device operations of the baseline"""
    res = []
    for k, n in sorted(proc(b, -1, pid)["ops"].items()):
        cls, path = k.split("|", 1)
        if path != "*" or cls == "findnext":
            res.append((cls, path, n))
    return res


ENOSPC, EIO, EACCES, EMFILE, ENOENT, ENOMEM = 28, 5, 13, 24, 2, 12
WERR = [ENOSPC, ENOSPC, EIO, EACCES]


def io_fault(r, cls, path, n):
    f = {"k": "io", "cls": cls, "path": path, "n": r.randrange(n)}
    if r.random() < .3:
        f["n"] = r.choice([0, n - 1])
    if cls == "write":
        f["err"] = r.choice(WERR)
        if r.random() < .4:
            f["part"] = r.choice([1, 3, 100, 511, 4000])
        if r.random() < .4:
            f["sticky"] = 1
    elif cls == "read":
        f["err"] = EIO
        if r.random() < .4:
            f["sticky"] = 1
    elif cls in ("open", "create"):
        f["err"] = r.choice([EACCES, EMFILE, EIO, ENOENT if cls == "open" else ENOSPC, ENOMEM])
        if r.random() < .3:
            f["sticky"] = 1
    else:
        f["err"] = r.choice([EIO, ENOSPC, EACCES])
        if cls in ("seek", "chsize") and r.random() < .2:
            f["sticky"] = 1
    return f


def is_out(path, o):
    return path.lower() in o


def fired_any(p, prefix):
    return any(f.startswith(prefix) for f in p["fired"])




def nbytes(b, case):
    """bytes a run reads and writes: the number of calls, if the buffers hold one byte"""
    return sum(n for n, _ in outs(b).values()) + sum(len(f["d"]) if "d" in f else os.path.getsize(f["h"]) for f in case["files"])
