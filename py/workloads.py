"""Workloads: hand-written multi-file programs for every output format, the
project's regression sources, and a seeded program generator."""
import os, re, random
from simlib import REPO, WORK

REG = REPO + "/regress/src"

DEFS = """; shared definitions
BUFSZ equ 48
VERSION textequ <"1.2">
POINT struct
 px dd ?
 py dd ?
POINT ends
FLAGS record fa:3, fb:5, fc:8
%s
"""
MACS = """
addm macro a, b:=<1>
 local l1
 add a, b
 jnz l1
 nop
l1:
endm
rept2 macro n, v
 repeat n
  db v
 endm
endm
"""


def nl(s, crlf=True):
    return s.replace("\n", "\r\n") if crlf else s


def src32(ext=True, fill=0, reloc=True, seed=1):
    """Flat 32-bit module: include files, INCBIN, macros, procs, HLL, data."""
    o = [".386", ".model flat, stdcall", "option casemap:none", "include defs.inc", "include macros.inc"]
    if ext:
        o += ["ExtFn proto :dword, :dword", "extern extvar:dword", "public start", "public table"]
    o += [".data", "tmsg db 'hello, world',13,10,0", "pt POINT <1,2>", "fl FLAGS <1,2,3>"]
    if reloc:
        o += ["table dd offset tmsg, offset pt, offset start, offset worker"]
    else:
        o += ["table dd 1,2,3,4"]
    o += ["buf db BUFSZ dup (?)", "blob label byte", "incbin <blob.bin>", "bloblen equ $-blob", " rept2 3, 0AAh"]
    for i in range(fill):
        o.append("fd%d dd %d, %d, 0%Xh" % (i, i, i * seed, (i * 2654435761 * seed) & 0xffffffff))
    o += [".code", "worker proc uses esi edi a1:dword, a2:dword", " local l1:dword, l2[4]:byte", " mov eax, a1", " mov l1, eax", " .if eax > 5 && a2 != 0", "  addm eax, 3",
          " .elseif eax == 2", "  dec eax", " .else", "  xor eax, eax", " .endif", " .while ecx != 0", "  dec ecx", "  .break .if ecx == 7", " .endw", " mov edx, l1", " ret", "worker endp"]
    o += ["start:", " invoke worker, 1, offset tmsg" if reloc else " invoke worker, 1, 2", " jmp far_away", " mov eax, [table+4]", " mov [pt.py], eax"]
    if ext:
        o += [" invoke ExtFn, eax, addr buf", " mov eax, extvar"]
    for i in range(fill):
        o.append(" mov eax, fd%d" % i if reloc else " mov eax, %d" % i)
        if i % 7 == 3:
            o.append(" jz @F\n addm ebx\n@@:")
    o += ["far_away:", " .repeat", "  inc eax", " .until eax >= 100", " ret", "end start"]
    return "\n".join(o) + "\n"


def src64(fmt, fill=0, seed=1):
    o = ["option casemap:none", "include defs.inc", "include macros.inc"]
    if fmt == "win64":
        o += ["option win64:3", "option frame:auto"]
    elif fmt == "elf64":
        o += []
    o += ["ExtFn proto :qword, :qword", "public start", "public table", ".data", "tmsg db 'hello, world',13,10,0", "align 8", "pt POINT <1,2>", "table dq offset tmsg, offset pt, offset start",
          "blob label byte", "incbin <blob.bin>", "buf db BUFSZ dup (0)", " rept2 3, 0AAh"]
    for i in range(fill):
        o.append("fd%d dq %d, 0%Xh" % (i, i * seed, (i * 2654435761 * seed) & 0xffffffff))
    o += [".code"]
    if fmt == "win64":
        o += ["worker proc frame uses rsi rdi a1:qword, a2:qword"]
    else:
        o += ["worker proc a1:qword, a2:qword"]
    o += [" local l1:qword", " mov rax, a1", " mov l1, rax", " .if rax > 5", "  addm rax, 3", " .else", "  xor eax, eax", " .endif", " mov rdx, l1", " ret", "worker endp", "start:",
          " lea rcx, tmsg", " invoke ExtFn, 1, addr buf", " jmp far_away", " vaddps xmm0, xmm1, xmm2", " mov rax, table"]
    for i in range(fill):
        o.append(" mov rax, fd%d" % i)
        if i % 7 == 3:
            o.append(" jz @F\n addm rbx\n@@:")
    o += ["far_away:", " .repeat", "  inc rax", " .until rax >= 100", " ret", "end" if fmt != "win64" else "end"]
    return "\n".join(o) + "\n"


def src16(fmt, fill=0, seed=1):
    o = [".8086", ".model small, c", "include defs.inc", "include macros.inc"]
    if fmt == "omf":
        o += ["extern extfn:near", "extern extvar:word", "public start", "public table"]
    o += [".stack 256" if fmt != "bin" else "", ".data", "tmsg db 'hello$'", "pt POINT <1,2>", "table dw offset tmsg, offset pt", "blob label byte", "incbin <blob.bin>", " rept2 3, 0AAh"]
    for i in range(fill):
        o.append("fd%d dw %d, 0%Xh" % (i, i * seed & 0x7fff, (i * 40503 * seed) & 0xffff))
    o += ["big db 300 dup (0A5h)", ".code", "worker proc uses si di a1:word", " local l1:word", " mov ax, a1", " mov l1, ax", " .if ax > 5", "  addm ax, 3", " .endif", " ret", "worker endp",
          "start:", " mov ax, @data" if fmt != "bin" else " mov ax, cs", " mov ds, ax", " lea dx, tmsg", " mov ah, 9", " int 21h", " jmp far_away"]
    if fmt == "omf":
        o += [" call extfn", " mov ax, extvar"]
    for i in range(fill):
        o.append(" mov ax, fd%d" % i)
        if i % 7 == 3:
            o.append(" jz @F\n addm bx\n@@:")
    o += ["far_away:", " mov ax, 4c00h", " int 21h", "end start"]
    return "\n".join(o) + "\n"


def srcpe(bits=32, fill=0):
    if bits == 32:
        o = [".386", ".model flat, stdcall", "option casemap:none", "option dllimport:<kernel32.dll>", "ExitProcess proto :dword", "GetTickCount proto", "option dllimport:<user32.dll>", "MessageBeep proto :dword", "option dllimport:NONE",
             ".data", "v1 dd 1, offset v1"]
        o += ["fd%d dd %d" % (i, i) for i in range(fill)]
        o += [".code", "expf proc export a:dword", " mov eax, a", " ret", "expf endp", "expg proc export", " ret", "expg endp", "start:", " invoke GetTickCount", " invoke MessageBeep, eax", " invoke ExitProcess, 0", "end start"]
    else:
        o = [".x64", ".model flat, fastcall", "option casemap:none", "option win64:3", "option frame:auto", "option dllimport:<kernel32.dll>", "ExitProcess proto :dword", "option dllimport:NONE", ".data", "v1 dq 1, offset v1"]
        o += ["fd%d dd %d" % (i, i) for i in range(fill)]
        o += [".code", "start proc frame", " invoke ExitProcess, 0", " ret", "start endp", "end start"]
    return "\n".join(o) + "\n"


def srcorg(fill=0):
    o = [".x64", "org 100h" if False else "", "_TEXT segment 'CODE' use64", "org 1000h", "start:", " jmp lab", "v1 dq 5", "incbin <blob.bin>"]
    for i in range(fill):
        o.append("dd %d" % i)
    o += ["lab:", " ret", "_TEXT ends", "end"]
    return "\n".join(o) + "\n"


BLOB = "".join(chr((i * 37 + (i >> 3)) & 255) for i in range(700))

EXTERRS = {  # programs that must fail, one per kind of failure
    "undef": "\n mov eax, nosuchsym\n",
    "syntax": "\n mov eax,,\n",
    "nest": "\n.if eax\n",
    "errdir": "\n.err <boom>\n",
    "noinc": "\ninclude nosuch.inc\n",
    "noblob": "\nincbin <nosuch.bin>\n",
    "block": "\nfoo proc\n",
    "macro": "\nmm macro\n db 1\n",
    "phase": "\n .errnz 1\n",
    "many": "\n" + " badop x\n" * 60,
    "dup": "\nd1 db 1\nd1 dw 2\n",
    "size": "\n mov al, 12345h\n",
}


def hand(fmt, fill=0, opts=(), name="mod", crlf=True, seed=1, dirs=False, unicode=False):
    """One hand-written workload. Returns a case base dict."""
    o = []
    if fmt in ("coff", "elf", "omf32"):
        s = src32(True, fill, True, seed)
        o = {"coff": ["-coff"], "elf": ["-elf"], "omf32": ["-omf"]}[fmt]
    elif fmt == "bin32":
        s = src32(False, fill, True, seed); o = ["-bin"]
    elif fmt in ("win64", "elf64", "macho64"):
        s = src64(fmt, fill, seed); o = ["-" + fmt]
    elif fmt == "djgpp":
        s = src32(True, fill, True, seed); o = ["-djgpp"]
    elif fmt in ("omf", "mz", "bin"):
        s = src16(fmt, fill, seed); o = ["-" + fmt]
    elif fmt == "pe":
        s = srcpe(32, fill); o = ["-pe"]
    elif fmt == "pe64":
        s = srcpe(64, fill); o = ["-pe"]
    elif fmt == "org":
        s = srcorg(fill); o = ["-bin"]
    else:
        raise KeyError(fmt)
    main = name + ".asm"
    files = [{"p": WORK + main, "d": nl(s, crlf)}]
    pre = WORK
    if dirs:
        pre = "C:\\inc\\"
        o = o + ["-IC:\\inc"]
    files += [{"p": pre + "defs.inc", "d": nl(DEFS % "", crlf)}, {"p": pre + "macros.inc", "d": nl(MACS, crlf)}, {"p": WORK + "blob.bin", "d": BLOB}]
    return {"name": "hand-%s-%d-%s%s" % (fmt, fill, "".join(opts), "-dirs" if dirs else ""), "files": files, "argv": list(o) + list(opts) + [main], "fmt": fmt}


FORMATS = ["coff", "win64", "elf", "elf64", "macho64", "omf", "omf32", "mz", "bin", "bin32", "pe", "pe64", "org"]
OPTSETS = {
    "coff": [(), ("-Zi",), ("-Zi8", "-Zd"), ("-Zd",), ("-Zf",)],
    "win64": [(), ("-Zi",), ("-Zi8", "-Zd", "-Zf"), ("-Zp8",)],
    "omf": [(), ("-Zi",), ("-Zd",), ("-zlc",)], "omf32": [(), ("-Zi",), ("-Zd",)],
    "elf": [(), ("-Zd",), ("-Zf",)], "elf64": [(), ("-Zd",)], "macho64": [(), ("-Zf",)],
    "mz": [()], "bin": [()], "bin32": [()], "pe": [()], "pe64": [()], "djgpp": [()], "org": [()],
}
AUX = [(), ("-Fl",), ("-Fl", "-Sa"), ("-Fl", "-Sg", "-Sx"), ("-Fs=syms.txt",), ("-Fl", "-Sf"), ("-q",)]


# ---------------------------------------------------------------- regression sources
GROUPS = [("plain_bin", "-q -bin"), ("pe64_bin", "-q -bin -Fo {n}.exe"), ("win64", "-c -q -win64 -Zp8"), ("flat", "-q -bin"), ("coff", "-q -coff"), ("coffdbg", "-q -coff -Zi"),
          ("oo", "-q -win64 -Zp8 -Zi -Zd -Zf"), ("literals", "-q -win64 -Zp8"), ("linux64", "-q -elf64"), ("macho64", "-q -macho64"), ("cinvoke", "-q -coff"), ("mz", "-q -mz"), ("flat16", "-q -bin"), ("avxerr", "-q -bin"),
          ("invoke64err", "-q -win64 -Zp8"), ("literalerr", "-q -win64 -Zp8 -Zi -Zd -Zf"), ("vcall", "-c -win64 -Zp8"), ("CodeGenV2", "-c -bin"), ("CodeGenV2Error", "-c -bin"), ("codeview8_32", "-c -coff -Zi8 -Zd -Zf"), ("codeview8_64", "-c -win64 -Zi8 -Zd -Zf"),
          ("omf", "-q -omf"), ("omf2", "-q -omf"), ("pe", "-q -pe"), ("elf", "-q -elf"), ("elf64", "-q -elf64"), ("dllimp", "-q -coff -Fd"), ("safeseh", "-q -coff -safeseh"), ("zd", "-q -coff -Zd"), ("zg", "-q -coff -Zg"), ("zne", "-q -bin -Zne"), ("systemv", "-q -elf64"), ("crossplatform", "-q -win64"), ("extern", "-q -coff"), ("ifdef", "-q -bin")]


def _closure(d, f):
    """The source and the files of its directory that it names."""
    seen = {f}
    todo = [f]
    low = {x.lower(): x for x in os.listdir(d)}
    while todo:
        with open(os.path.join(d, todo.pop()), "rb") as h:
            t = h.read().decode("latin1")
        for m in re.finditer(r"(?im)^\s*(?:include|incbin)\s+<?([^\s;>,]+)", t):
            n = low.get(m.group(1).replace("/", "\\").split("\\")[-1].lower())
            if n and n not in seen:
                seen.add(n)
                if n.lower().endswith((".inc", ".asm")):
                    todo.append(n)
    return sorted(seen)


_reg = None


def regress():
    global _reg
    if _reg is None:
        _reg = []
        for g, opts in GROUPS:
            d = REG + "/" + g
            if not os.path.isdir(d):
                continue
            for f in sorted(os.listdir(d)):
                if f.lower().endswith(".asm"):
                    n = os.path.splitext(f)[0]
                    _reg.append({"name": "reg-%s-%s" % (g, n), "files": [{"p": WORK + x, "h": d + "/" + x} for x in _closure(d, f)], "argv": opts.format(n=n).split() + [f], "fmt": g})
    return _reg


# ---------------------------------------------------------------- seeded generator
class Gen:
    """A random but valid-by-construction program; `bits` 16/32/64."""

    def __init__(self, seed, bits=32, ext=True):
        self.r = random.Random("gen|%s|%d" % (seed, bits))
        self.bits = bits
        self.ext = ext
        self.n = 0
        self.regs = {16: ["ax", "bx", "cx", "dx", "si", "di"], 32: ["eax", "ebx", "ecx", "edx", "esi", "edi"], 64: ["rax", "rbx", "rcx", "rdx", "rsi", "rdi", "r8", "r11"]}[bits]
        self.labels = []
        self.data = []
        self.macros = []
        self.eqs = []

    def uid(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def ins(self):
        r = self.r
        R = r.choice(self.regs)
        k = r.randrange(15)
        if k == 14 and self.bits > 16 and r.random() < .4:
            cs = r.sample(range(40), r.choice([0, 0, 1, 2, 3, 4, 7, 12]))
            return " .switch %s\n%s%s .endswitch" % ("eax" if self.bits == 32 else r.choice(["rax", "eax"]), "".join(" .case %d\n%s  nop\n" % (c, "" if r.random() < .6 else "  inc %s\n" % r.choice(self.regs)) for c in cs), " .default\n  nop\n" if r.random() < .5 else "")
        if k == 0: return " mov %s, %d" % (R, r.randrange(30000))
        if k == 1: return " add %s, %s" % (R, r.choice(self.regs))
        if k == 2 and self.data: return " mov %s, %s" % (R, r.choice(self.data))
        if k == 3: return " xor %s, %d" % (R, r.randrange(1, 127))
        if k == 4: return " push %s\n pop %s" % (R, r.choice(self.regs))
        if k == 5: return " jz %s" % r.choice(self.labels)
        if k == 6: return " jmp %s" % r.choice(self.labels)
        if k == 7: return " call %s" % r.choice(self.labels)
        if k == 8 and self.macros: return " %s %s" % (r.choice(self.macros), R)
        if k == 9 and self.eqs: return " mov %s, %s" % (R, r.choice(self.eqs))
        if k == 10: return " test %s, %s\n jnz %s" % (R, R, r.choice(self.labels))
        if k == 11: return " .if %s > %d\n  inc %s\n .else\n  dec %s\n .endif" % (R, r.randrange(100), R, R)
        if k == 12: return " .while %s != 0\n  dec %s\n .endw" % (R, R)
        return " sub %s, %d" % (R, r.randrange(300))

    def program(self, size):
        r = self.r
        o = []
        if self.bits == 16: o += [".286", ".model small"]
        elif self.bits == 32: o += [".686", ".model flat, c"]
        o += ["option casemap:none"]
        dd = {16: "dw", 32: "dd", 64: "dq"}[self.bits]
        ninc = r.randrange(3)
        incs = []
        for i in range(ninc):
            body = []
            for _ in range(r.randrange(1, 6)):
                e = self.uid("EQ"); self.eqs.append(e); body.append("%s equ %d" % (e, r.randrange(20000)))
            m = self.uid("mac"); self.macros.append(m)
            body += ["%s macro a" % m, " local l", " add a, %d" % r.randrange(100), " jz l", "l:", "endm"]
            incs.append(("gi%d.inc" % i, "\n".join(body) + "\n")); o.append("include gi%d.inc" % i)
        nl_ = max(2, size // 6)
        self.labels = ["lab%d" % i for i in range(nl_)]
        o.append(".data")
        for _ in range(max(1, size // 8)):
            d = self.uid("dv"); k = r.randrange(5)
            if k == 0: o.append("%s %s %d dup (%d)" % (d, dd, r.randrange(1, 60), r.randrange(250))); self.data.append(d)
            elif k == 1: o.append("%s %s offset %s" % (d, dd, r.choice(self.labels))); self.data.append(d)
            elif k == 2: o.append("%s db 'str%d',0" % (d, r.randrange(1000)))
            elif k == 3: o.append("%s %s %d" % (d, dd, r.randrange(30000))); self.data.append(d)
            else: o.append("align 2\n%s %s ?" % (d, dd)); self.data.append(d)
        if self.ext:
            for l in r.sample(self.labels, min(len(self.labels), r.randrange(1, 5))): o.append("public %s" % l)
        if r.random() < .3: o.append("%s %s %s - %s" % (self.uid("df"), dd, self.labels[-1], self.labels[0]))
        o.append(".code")
        places = sorted(r.randrange(size) for _ in self.labels)
        li = 0
        for i in range(size):
            while li < nl_ and places[li] == i: o.append("%s:" % self.labels[li]); li += 1
            o.append(self.ins())
            if r.random() < .02: o.append(" db %d dup (90h)" % r.randrange(20, 140))
        while li < nl_: o.append("%s:" % self.labels[li]); li += 1
        o += [" ret", "end"]
        return "\n".join(o) + "\n", incs


GENFMT = [("coff", 32), ("elf", 32), ("omf", 16), ("omf", 32), ("win64", 64), ("elf64", 64), ("bin", 32), ("bin", 16), ("macho64", 64)]


def gen(seed, size=40, fmt=None, opts=()):
    r = random.Random("genw|%s" % seed)
    f, bits = fmt or r.choice(GENFMT)
    s, incs = Gen(seed, bits, f != "bin").program(size)
    files = [{"p": WORK + "gen.asm", "d": nl(s)}] + [{"p": WORK + n, "d": nl(t)} for n, t in incs]
    return {"name": "gen-%s-%s-%d" % (f, seed, size), "files": files, "argv": ["-" + f] + list(opts) + ["gen.asm"], "fmt": f}


# ---------------------------------------------------------------- what a module may leave behind
LEFT = ["if 0\nif 1", "if 1\nif 0\nif 0", "if 0\nelse\nif 0", "ifndef nosuchthing\nelse", ".if eax", ".while eax\n.if ecx", ".repeat", ".switch eax\n.case 1", "zzs segment", "zzs segment use16\nzzt segment use32", "zzs segment page public 'CODE'", "zzs struct", "zzs struct\nunion\nzzi dd ?",
        "zzm macro a\nlocal b\nzzn macro", "rept 3\nif 1", "irp x,<1,2>", "zzp proc", "zzp proc uses ebx a:dword\nlocal b:dword", "zzp proc frame\nlocal b:qword", "comment ~", "pushcontext all", "pushcontext assumes", "zzg group zzs", ".radix 16", "option casemap:none", "option casemap:all", "option casemap:notpublic", "option noscoped",
        "option m510", "option oldmacros", "option oldstructs", "option nokeyword:<add>", "option nokeyword:<mov>\noption renamekeyword:<sub>=subb", "option renamekeyword:<mov>=movv", "option renamekeyword:<proc>=pproc", "option proc:private", "option proc:export", "option procalign:16", "option fieldalign:8", "option segment:use16", "option segment:flat",
        "option segment:use32", "assume ebx:ptr dword", "assume bx:ptr word", "assume rbx:ptr qword", "assume cs:nothing", "assume ds:error", ".nolist", ".listall", ".nocref", ".listmacroall", ".xmm", ".8086", ".686p", ".model tiny", ".model flat, c", "option language:pascal", "option language:c", "option evex:1", "option arch:avx", "option arch:sse", "option frame:auto", "option frame:noauto",
        "option win64:15", "option win64:0", "option stackbase:rsp", "option stackbase:ebp", "option dllimport:<x.dll>\nzzf proto :dword", "option dotname", "option nodotname", "option offset:segment", "option offset:flat", "option noljmp", "option epilogue:none", "option prologue:none", "option prologue:none\noption epilogue:none", "option zerolocals:1", "option setif2:true",
        "option switchstyle:cstyle", "option switchstyle:asmstyle", "option switchsize:512", "option redzone:yes", "option vtable:on", "option vtable:off", "option hlcall:off", "option hlcall:on", "option framepreserveflags:on", "option mz:20h:10h:0:0ffffh", "option nosignextend", "assume ebx:error", "assume eax:error", "assume bx:error", "assume rbx:error", "assume ecx:ptr dword, edx:ptr byte", ".nolistmacro", ".nolistif\n.lall", ".sall", ".xall", ".tfcond", "option noreadonly", "option literals:on", "option flat:1", "option bnd:on", "option codeview:2", "option readonly", "option emulator", "option expr16", "option expr32", ".safeseh zzh", ".err <stop>", ".allocstack 8", "zzr record za:1", "zzd typedef ptr dword", "externdef zze:dword", "extern zze:dword", "comm zze:dword", "public start", "alias <zza>=<start>", "includelib zz", "name zzname",
        "org 100h", "align 16", "zzl equ 5\nzzl2 textequ <a>\nzzv = 3", "@cpu equ 5", "option language:syscall", "option language:fastcall", "option flat:0", "option elf:1", "option win64:7\n.model flat", ".model flat, fastcall", ".model small, vectorcall", ".x64", ".x64p\n.model flat, sysvcall", ".386p", ".387", ".no87", ".286p\n.287", "invoke start", "invoke zzp, 1, addr zzn", "zzp proto c :vararg", "zzp proc c a:vararg", "zzp proc vectorcall", "zzp proc fastcall a:dword", ".switch ecx\n.case 1\n.switch edx\n.case 2", ".for (ecx=0:ecx<3:ecx++)", ".while 1\n.continue", ".if (eax==1) && (ebx\n", ".break", "zzi struct 16\nzzj struct\nzzk dq ?", "zzr union\nzzr1 real10 ?", "zzq macro\nexitm <1>\nendm\n.if zzq() ==", "zzz catstr <a>,<b>,%start", "zzs1 substr <abc>,2\nzzs2 instr <abc>,<c>\nzzs3 sizestr <abc>", ".list", "page 50,90", "title xyz", "subtitle abc", ".seq", ".alpha", ".dosseg", ".startup", ".exit 0", "end", ".pushframe", ".endprolog", ".setframe rbp,0", ".pushreg rbx", ".fpo (1,2,3,4,5,6)", "externdef syscall zzs:proc", "public c start", "comm far zzc:byte:20", "protoz typedef proto c :dword", "option frame:add", "option dllimport:none", "option segment:use64", "option zerolocals:0", "option renamekeyword:<mov>=zmov\noption nokeyword:<zmov>", "option arch:sse\noption evex:0", "rbx equ 3", "zzdb db 'abc',0\nzzdw dw zzdb,5 dup (?)", "@@: jmp @B\njmp @F\n@@:", ".data\nzzq dq 1.5,2\nzzt real8 1.0,3.0", ".data\nzst ps <1,2>", "lea rax, [rip+start]", "jmp far ptr start", "vaddps zmm1{k1}, zmm2, zmm3", "echo @line", ".radix 2\ndb 102", "wordsize = 2", "start:", "zzlit db 300 dup (1)", ".data\ndb 33 dup (2)", ".code\njz nosuch\nnop", ".const\ndb 'c'", ".data?\ndb ?", ".fardata\ndb 1", ".stack 500", "for x,<1,2,3>\nexitm", "goto nowhere", "%echo @line", "popcontext all", ".endw", "endm", "endif", "else", "ends", "zzp endp", "purge addm", "undef zz", "ctxt textequ <x"]
LEFTEND = ["", "", "", "\n", " \n;\n", "zz nosuchop zz", "include nosuch.inc", ".err <end>", "mov eax,nosuchsym", "db nosuchsym-start", "end start"]


KW32 = ["pusha", "popa", "aaa", "daa", "les", "pushad", "lds", "jcxz", "tr3", "loopew", ".safeseh", "syscall", "syscall", "syscall"]
KW64 = ["cdqe", "movsq", "cqo", "swapgs", "iretq", "r8", "r9d", "spl", "syscall_", "syscall_", "lodsq", "jrcxz"]
KWANY = ["add", "mov", "inc", "db", "equ", "proc", "sizeof", "eax", "movaps", "c", "byte", "segment", "if", "macro", "ends"]


def kwleft(r):
    """Keywords disabled and renamed (again, and both), those of one processor mode among them, with changes of the mode."""
    o, names, back = [], {}, []
    if r.random() < .7: o.append(".x64p")
    for _ in range(r.randrange(1, 5)):
        if r.random() < .6:
            s = "zks%d" % r.randrange(4)
            o += ["%s segment use%d" % (s, r.choice([32, 64, 64]))] + ([s + " ends"] if r.random() < .7 else [])
        for _ in range(r.randrange(1, 4)):
            w = r.choice(r.choice([KW32, KW64, KWANY[:5], KWANY]) + sorted(names))
            k = r.random()
            if k < .45:
                o.append("option nokeyword:<%s>" % names.get(w, w))
            else:
                n = "zkw%d" % r.randrange(6) if k < .8 or w not in names else w
                o.append("option renamekeyword:<%s>=%s" % (names.get(w, w), n))
                names[w] = n
    return o


def leftover(r, s):
    """A program that leaves things open or changed: constructs of LEFT at a random place, then cut or in error."""
    L = s.replace("\r\n", "\n").split("\n")
    k = r.random()
    at = r.randrange(len(L) // 3, len(L) + 1) if k < .7 else r.randrange(len(L) + 1)
    add = []
    for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
        add += r.choice(LEFT).split("\n")
    if r.random() < .12: add += kwleft(r)
    add += [x for x in [r.choice(LEFTEND)] if x]
    return nl("\n".join(L[:at] + add + (L[at:] if r.random() < .4 else [])) + "\n")


_PCOM = """if 0
 nope1
if 1
 nope2
else
 nope3
endif
elseif 1
 dbyte 1
else
 nope4
endif
ifdef PROBEX
 db 99
else
 db 11
endif
pm macro pmx, pmy:=<4>
 local pmq
pmq label byte
 db pmx, pmy
 dw $ - pmq
endm
pm 1
pm 2, 3
rept 3
 db 10
endm
irpc pch, <abc>
 db '&pch'
endm
pv = 1
pv = pv + 10
db pv
pt textequ <17>
db pt
db 10h, 10, 101b
ps struct
 psa db ?
 psb dd ?
 psc dw ?
ps ends
pu union
 pua db ?
 pub dd ?
pu ends
ps <1,2,3>
pu <1>
db sizeof ps, type ps.psb, @WordSize and 0
pr record ra:3, rb:4
pr <1,2>
"""


def probe(bits, seed=1):
    """A program whose object shows most kinds of state that an earlier module could have left."""
    r = random.Random("probe%s" % seed)
    dbyte = "dbyte macro dbx\n db dbx\nendm\n"
    com = dbyte + _PCOM
    if bits in (64, 640):
        kws = ".data\npusha equ 5\naaa label byte\n db pusha\nles = 3\n db les\n db offset aaa - offset aaa\npopad textequ <9>\n db popad\npushad = 4\ndaa = 8\n db pushad, daa\n.code\n cdqe\n cqo\n movsq\n swapgs\n iretq\n mov r8, rax\n mov r9d, ecx\n mov spl, al\n syscall\n lodsq\n inc eax\n mov add_, 0\n movaps xmm3, xmm4\n.data\nadd_ dd sizeof add_\nzkw0 = 3\nzkw1 = 4\nzkw2 = 5\nzkw3 = 6\nzkw4 = 7\nzkw5 = 8\n db zkw0, zkw1, zkw2, zkw3, zkw4, zkw5\n"
        parts = [".data\n" + com + "align 16\nMixed dq offset start\n", ".code\nprc proc uses rbx a1:qword, a2:dword\n local l1:qword, l2[3]:dword\n mov rax, a1\n mov l1, rax\n .if rax > 5 && a2 != 0\n  dec rax\n .else\n  inc rax\n .endif\n .while ecx\n  dec ecx\n  .break .if ecx == 3\n .endw\n ret\nprc endp\n",
                 ".code\nlb1: jz lb2\n mov eax, [rbx]\n mov rax, [rbx+8]\n add rax, 1\n sub rcx, 10\n db 130 dup (90h)\nlb2: jmp lb1\n", ".const\n db 'const'\n", ".code\n switchp proc\n .switch eax\n .case 1\n nop\n .case 2\n inc eax\n .default\n dec eax\n .endswitch\n ret\nswitchp endp\n", ".code\n movaps xmm0, xmm1\n vaddps xmm0, xmm1, xmm2\n", ".code\n nop\nprf proc uses rsi rdi a1:qword, a2:dword, a3:xmmword\n local l1:oword, l2:dword\n mov a1, rcx\n .if sdword ptr a2 < 5 || zero?\n  invoke prf, rax, 5, a3\n .endif\n mov eax, l2\n ret\nprf endp\n nop\nprg proc\n lea rax, [rbx]\n ret\nprg endp\n", ".code\noption frame:auto\n nop\nprh proc frame uses rsi rdi a1:qword, a2:dword\n local l1:oword, l2:dword\n mov a1, rcx\n invoke prh, rax, 5\n ret\nprh endp\n", ".data?\nunin db 40 dup (?)\n"]
        head, tail = ("", ".code\nstart: ret\nend\n") if bits == 64 else (".x64p\n.model flat, fastcall\n", ".code\nstart: ret\nend start\n")
        parts.append(kws)
    elif bits == 32:
        kws = ".data\ncdqe equ 5\nmovsq label byte\n db cdqe\ncqo = 3\n db cqo\n db offset movsq - offset movsq\nswapgs textequ <9>\n db swapgs\niretq = 4\nr8 = 6\nr9d = 7\nspl = 8\nlodsq = 9\nsyscall_ = 10\n db iretq, r8, r9d, spl, lodsq, syscall_\n.code\n pusha\n popa\n aaa\n daa\n into\n les eax, [ebx]\n pushad\n arpl [ebx], ax\n bound eax, [ebx]\n inc eax\n mov add_, 0\n movaps xmm3, xmm4\nkwp proto syscall :dword\n.data\nadd_ dd sizeof add_\nzkw0 = 3\nzkw1 = 4\nzkw2 = 5\nzkw3 = 6\nzkw4 = 7\nzkw5 = 8\n db zkw0, zkw1, zkw2, zkw3, zkw4, zkw5\n"
        parts = [".data\n" + com + "align 4\nMixed dd offset start\n", ".code\nprc proc uses ebx a1:dword, a2:byte\n local l1:dword, l2[3]:byte\n mov eax, a1\n mov l1, eax\n .if eax > 5 && a2 != 0\n  dec eax\n .else\n  inc eax\n .endif\n .while ecx\n  dec ecx\n  .break .if ecx == 3\n .endw\n ret\nprc endp\n", ".code\n invoke prc, 1, 2\n",
                 ".code\nlb1: jz lb2\n mov eax, [ebx]\n mov ecx, [esp+8]\n add eax, 1\n sub ecx, 10\n db 130 dup (90h)\nlb2: jmp lb1\n", ".const\n db 'const'\n", ".code\nswitchp proc\n .switch eax\n .case 1\n nop\n .case 2\n inc eax\n .default\n dec eax\n .endswitch\n ret\nswitchp endp\n", ".data?\nunin db 40 dup (?)\n", "xseg segment use32 dword public 'DATA'\n db 5\n dd xseg_l\nxseg_l label dword\nxseg ends\n"]
        parts.append(kws)
        head, tail = ".686\n.xmm\n.model flat, stdcall\nprc proto :dword, :byte\n", ".code\nstart: ret\nend start\n"
    else:
        parts = [".data\n" + com + "even\nMixed dw offset start\n", ".code\nprc proc uses bx a1:word, a2:word\n local l1:word, l2[3]:byte\n mov ax, a1\n mov l1, ax\n .if ax > 5 && a2 != 0\n  dec ax\n .else\n  inc ax\n .endif\n .while cx\n  dec cx\n  .break .if cx == 3\n .endw\n ret\nprc endp\n", ".code\n invoke prc, 1, 2\n",
                 ".code\nlb1: jz lb2\n mov ax, [bx]\n mov cx, es:[bx+8]\n add ax, 1\n sub cx, 10\n db 130 dup (90h)\nlb2: jmp lb1\n", ".const\n db 'const'\n", ".data?\nunin db 40 dup (?)\n", "xseg segment word public 'DATA'\n db 5\nxseg ends\n"]
        head, tail = ".286\n.model small, c\nprc proto :word, :word\n", ".code\nstart: ret\nend start\n"
    r.shuffle(parts)
    n = r.randrange(2, len(parts) + 1)
    body = parts[:n]
    if any("invoke prc" in p for p in body) and not any("prc proc" in p for p in body):
        body += [p for p in parts if "prc proc" in p]
    if not any("dbyte macro" in p for p in body) and r.random() < .7:
        body += [p for p in parts if "dbyte macro" in p]
    return nl(r.choice(["", "", "\n", ";\n\n"]) + head + "".join(body) + tail)


PROBEBITS = {"coff": 32, "elf": 32, "omf32": 32, "bin32": 32, "win64": 64, "elf64": 64, "macho64": 64, "omf": 16, "mz": 16, "bin": 16, "pe": 32, "pe64": 640}


# ---------------------------------------------------------------- programs with much of something
SCALEFMT = {"coff": 32, "elf": 32, "omf32": 32, "bin32": 32, "win64": 64, "elf64": 64, "macho64": 64, "omf": 16, "bin": 16}


def scale(seed, dim=None):
    """One or a few things in large numbers: include files, segments, symbols, relocations, nesting, parameters, long lines."""
    r = random.Random("scale|%s" % seed)
    f = r.choice(sorted(SCALEFMT))
    bits = SCALEFMT[f]
    rel = f not in ("bin", "bin32")
    dd = {16: "dw", 32: "dd", 64: "dq"}[bits]
    ax, cx = {16: ("ax", "cx"), 32: ("eax", "ecx"), 64: ("rax", "rcx")}[bits]
    files, o, argv = [], [], []
    data, code, pre = [], [], []
    dims = r.sample(["inc", "seg", "sym", "ext", "pub", "mac", "nestmac", "proc", "struct", "ifs", "hll", "line", "str", "comm", "lib", "reloc", "lab", "text", "equ", "dup", "deep", "switch", "def", "ipath", "rept", "jumps", "errs", "typed", "union", "rec", "local", "casing"], r.choice([1, 1, 2, 3]))
    if dim: dims = [dim] + [d for d in dims if d != dim]
    for d in dims:
        n = r.choice([15, 33, 64, 70, 130, 260])
        if d == "inc":
            for i in range(n):
                files.append({"p": WORK + "i%d.inc" % i, "d": "zi%d = %d\r\n" % (i, i)})
                pre.append("include i%d.inc" % i)
            if r.random() < .5: pre += ["include i%d.inc" % i for i in range(0, n, 7)]
        elif d == "deep":
            n = min(n, 70)
            for i in range(n): files.append({"p": WORK + "d%d.inc" % i, "d": "zd%d = %d\r\n" % (i, i) + ("include d%d.inc\r\n" % (i + 1) if i + 1 < n else "") + " zdm%d = zd%d\r\n" % (i, i)})
            pre.append("include d0.inc")
        elif d == "seg" and f not in ("bin", "bin32"):
            n = min(n, 130)
            for i in range(n): pre += ["zsg%d segment %s 'DATA'" % (i, {16: "para public use16", 32: "para public use32", 64: "para public"}[bits]), "zsv%d %s %d%s" % (i, dd, i, ", offset zsv%d" % i if rel and i % 3 == 0 else ""), "zsg%d ends" % i]
            if bits == 16 and r.random() < .5: pre.append("zgrp group " + ", ".join("zsg%d" % i for i in range(0, n, 2))[:900].rsplit(",", 1)[0])
        elif d == "sym":
            ln = r.choice([1, 1, 60, 121])
            for i in range(n * 4): data.append("%s%d %s %d" % ("zy" * ln, i, dd, i))
        elif d == "casing":            # names that differ in case only, far apart
            pre.append("option casemap:none")
            far = r.choice([0, 100, 2600])
            data += ["zcs%s %s %d" % (r.choice(["A%d", "a%d"]) % i, dd, i) for i in range(n)]
            data += ["%s%d %s %d" % ("zw" * 55, i, dd, i) for i in range(far)]
            data += ["%s%d %s %d" % (k, i, dd, i) for i in range(n) for k in ("ZCSA", "zcSa")]
        elif d == "ext" and rel:
            for i in range(n):
                pre.append("extern zx%d:%s" % (i, {16: "word", 32: "dword", 64: "qword"}[bits]))
                if i % 2 == 0: code.append(" mov %s, zx%d" % (ax, i))
        elif d == "pub" and rel:
            for i in range(n):
                data.append("zp%d db %d" % (i, i & 255))
                pre.append("public zp%d" % i)
        elif d == "comm" and rel:
            for i in range(n): pre.append("comm zc%d:%s:%d" % (i, "dword", i % 5 + 1))
        elif d == "lib" and rel:
            for i in range(min(n, 130)): pre.append("includelib zlib%d.lib" % i)
        elif d == "mac":
            n = min(n, 60)
            pre += ["zm1 macro " + ", ".join("za%d" % i for i in range(n)), " local " + ", ".join("zl%d" % i for i in range(min(n, 30))), "zl0 db za0, za%d" % (n - 1), "endm"]
            data += [" zm1 " + ", ".join(str(i % 7) for i in range(n))] * r.choice([2, 40])
        elif d == "nestmac":
            n = min(n, 120)
            pre += ["zn macro k", "if k eq 0", "exitm", "endif", " zn %(k-1)", " db k", "endm"]
            data += [" zn %d" % n] if r.random() < .7 else [" zn 130"]
        elif d == "proc":
            n = min(n, 70)
            for i in range(n): code += ["zq%d proc%s" % (i, " a1:%s" % {16: "word", 32: "dword", 64: "qword"}[bits] if i & 1 else ""), " local l1:%s" % {16: "word", 32: "dword", 64: "qword"}[bits], " mov l1, %s" % ax, " ret", "zq%d endp" % i]
        elif d == "local":
            n = min(n, 100)
            code += ["zql proc"] + [" local zv%d:%s" % (i, {16: "word", 32: "dword", 64: "qword"}[bits]) for i in range(n)] + [" mov %s, zv%d" % (ax, i) for i in range(0, n, 5)] + [" ret", "zql endp"]
        elif d in ("struct", "union"):
            pre += ["zst " + d] + ["zf%d %s ?" % (i, r.choice(["db", "dw", "dd"])) for i in range(n)] + ["zst ends"]
            data += ["zsi zst <1>"] + ["zsj zst 3 dup (<>)"] * (n < 40)
        elif d == "rec": data += ["zr%d record zra%d:3, zrb%d:4" % (i, i, i) for i in range(n)] + ["zr%d <1,2>" % i for i in range(0, n, 3)]
        elif d == "ifs":
            n = min(n, 19) if r.random() < .8 else 25
            pre += ["if 1"] * n + ["zif = 3", "if 0", "zif = 4", "else", "zif = 5", "endif"] + ["endif"] * n + ["ifs"[:0]]
        elif d == "hll":
            n = min(n, 40)
            code += [" .if %s == %d" % (ax, i) for i in range(n)] + [" inc %s" % ax] + [" .endif"] * n
        elif d == "switch" and bits > 16: code += [" .switch %s" % cx] + [x for i in range(n) for x in (" .case %d" % (i * 3), " inc %s" % ax)] + [" .endswitch"]
        elif d == "line": data += [" db " + ",".join("%d" % (i % 10) for i in range(r.choice([200, 300, 480])))] + [" db " + ", \\\r\n ".join("%d" % (i % 10) for i in range(60))]
        elif d == "str": data += [" db '%s'" % ("s" * r.choice([200, 250, 255, 256, 300, 900]))] * 5
        elif d == "reloc" and rel:
            data += ["zrl label byte"] + ["%s %d dup (%s)" % (dd, r.choice([50, 300, 2000, 9000]), "offset zrl")] if bits != 16 else ["zrl label byte"] + ["%s %d dup (%s)" % (dd, r.choice([50, 300, 2000]), "offset zrl")]
        elif d == "lab": code += [x for i in range(n) for x in ("zlb%d: jmp zlb%d" % (i, (i * 7 + 3) % n), " db 20 dup (90h)")]
        elif d == "jumps":
            n = min(n, 30)
            for i in range(n): code += [" jmp zj%d" % i, " db 60 dup (90h)"] + (["zj%d:" % (i - 1)] if i else []) + [" db 5 dup (90h)"]
            code += [" db 200 dup (90h)", "zj%d:" % (n - 1)]
        elif d == "text": pre += ["zt%d textequ <%s>" % (i, "zt%d" % (i - 1) if i else "7") for i in range(min(n, 60))] + ["zt textequ <%s>" % ("t" * 800)]
        elif d == "equ": pre += ["zeq%d equ %s" % (i, "zeq%d + 1" % (i - 1) if i else "0") for i in range(n)]
        elif d == "dup": data += ["%s %d dup (%d dup (%d dup (1)))" % ("db", 9, 9, r.choice([3, 300]))] + ["db %d dup (?)" % r.choice([70000, 1000]) if bits != 16 else "db 900 dup (?)"]
        elif d == "def": argv += ["-DZD%d=%d" % (i, i) for i in range(min(n, 130))]
        elif d == "ipath": argv += ["-IC:\\nodir%d" % i for i in range(min(n, 9))]
        elif d == "rept": data += ["rept %d" % (n * 4), " db 1", "endm", "zk = 0", "while zk lt %d" % n, " db zk and 255", "zk = zk + 1", "endm"]
        elif d == "typed": pre += ["zty%d typedef %s" % (i, "zty%d" % (i - 1) if i else "dword") for i in range(min(n, 60))] + ["zpt%d typedef ptr zty0" % i for i in range(n)]
        elif d == "errs": code += [" mov %s, nosuch%d" % (ax, i) for i in range(r.choice([3, 49, 50, 51, 120]))]
    head = {16: [".286", ".model small, c"], 32: [".686", ".model flat, c"], 64: []}[bits]
    if f == "bin": head = [".286", ".model tiny, c"]
    L = head + pre + [".data", "zfirst db 1"] + data + [".code", "start:"] + code + [" ret", "end" if bits == 64 or f in ("bin", "bin32") else "end start"]
    if r.random() < .2: argv += r.choice([["-Fl"], ["-Fl", "-Sa"], ["-Fs=s.txt"], ["-Zd"] if f in ("coff", "omf", "omf32", "elf") else [], ["-Zi"] if f in ("coff", "omf32", "win64") else [], ["-Zi8", "-Zd"] if f in ("coff", "win64") else []])
    return {"name": "scale-%s-%s" % (f, "-".join(dims)), "files": [{"p": WORK + "sc.asm", "d": "\r\n".join(L) + "\r\n"}] + files, "argv": ["-" + {"omf32": "omf", "bin32": "bin"}.get(f, f)] + argv + ["sc.asm"], "fmt": f}


# ---------------------------------------------------------------- programs that need several passes, with a model of their layout
def _mk(k):
    return [0xF1, 0xC5, k & 255, k >> 8, 0x5C, 0x1F]


def settle(seed):
    """A program of jumps, constants and alignments whose sizes depend on each other. Every statement lies between two markers,
    so that settled() can tell from the image alone whether all jumps, constants and tables agree with the final layout."""
    r = random.Random("settle%d" % seed)
    bits = r.choice([16, 32, 64])
    n = r.choice([3, 6, 12, 25, 60])
    L, S, k = [], [], 0            # statements: ("j", label) ("c", (a, b)) ("f",) ("t", label); k = number of markers
    nl = r.randrange(2, n + 2)     # labels
    seq = ["j"] * n + ["l"] * nl + ["f"] * r.randrange(n + 1) + ["c"] * r.choice([0, 0, 2, n // 2]) + ["a"] * r.choice([0, 0, 1, 2]) + ["t"] * r.choice([0, 2, nl])
    chain = r.random() < .5
    if chain:                      # every jump is just near enough unless the next ones grow
        gap, odd = r.choice([49, 50, 50, 50, 50, 51]), r.random() < .8
        seq = []
        for i in range(n):
            seq += [("j", i), ("f", gap + (i % 2 if odd else 0) + (r.random() < .01))] + ([("l", i - 1)] if i else [])
        seq += [("f", r.choice([0, 10, 130, 130])), ("l", n - 1)]
        if r.random() < .5: seq.reverse()
        if r.random() < .6: seq[r.randrange(len(seq)):0] = [("c", None)]
        for _ in range(r.choice([0, 1, 2, n, n])): seq.insert(r.randrange(len(seq)), ("o", None))   # no shortcuts over ORG
        nl = n
    else:
        r.shuffle(seq)
        it = iter(range(nl))
        seq = [(s, next(it) if s == "l" else r.randrange(nl) if s in "jt" else r.choice([0, 1, 20, 90, 110, 120, 200]) if s == "f" else None) for s in seq]
    for _ in range(r.choice([0, 0, 1, 1, 2])):   # gaps that hide from the total size what moves before them
        seq.insert(r.choice([len(seq), r.randrange(len(seq) + 1)]), ("A", r.choice([32, 128, 256])))
    seq += [("t", i) for i in range(min(nl, 8))]
    for i in range(r.choice([0, 0, 0, 1, 3])):
        v, at = (i, r.randrange(nl), r.randrange(nl)), r.randrange(len(seq))
        for _ in range(r.choice([1, 1, 4])): seq.insert(r.randrange(at, len(seq)), ("p", v))
        seq.insert(at, ("q", v))
    def mark():
        nonlocal k
        L.append(" db " + ",".join("0%02Xh" % b for b in _mk(k)))
        k += 1
    for s, v in seq:
        mark()
        if s == "l":
            L.append("lab%d:" % v); S.append(("l", v))
        elif s == "f":
            if v > 0: L.append(" db %d dup (90h)" % v)
            S.append(("f", max(v, 0)))
        elif s == "a":
            L.append(" align %d" % r.choice([2, 4, 8])); S.append(("a", 0))
        elif s == "A":
            L.append(" align %d" % v); S.append(("a", 0))
        elif s == "o":
            L.append(" org $"); S.append(("a", 0))
        elif s == "q":
            L.append("equ%d %s lab%d - lab%d" % (v[0], r.choice(["=", "equ"]), v[1], v[2])); S.append(("a", 0))
        elif s == "p":
            L.append(" push equ%d" % v[0]); S.append(("c", v[1], v[2]))
        elif s == "j":
            L.append(" %s lab%d" % (r.choice(["jmp", "jmp", "jz", "jnc", "jg"]), v)); S.append(("j", v))
        elif s == "c":
            a, b = r.randrange(nl), r.randrange(nl)
            L.append(" push lab%d - lab%d" % (a, b)); S.append(("c", a, b))
        elif s == "t":
            L.append(" %s lab%d" % ({16: "dw", 32: "dd", 64: "dq"}[bits], v)); S.append(("t", v))
    mark()
    src = [".x64" if bits == 64 else ".386", "_TEXT segment page use%d 'CODE'" % bits, " assume cs:_TEXT"] + L + ["_TEXT ends", " end"]
    return {"name": "settle-%d-%d" % (bits, seed), "files": [{"p": WORK + "st.asm", "d": "\r\n".join(src) + "\r\n"}], "argv": ["-bin", "st.asm"], "fmt": "bin", "settle": seed, "model": [bits, S]}


def settled(img, model):
    """None, or what does not agree with the layout"""
    bits, S = model
    w = bits // 8
    pos, p = [], 0
    for k in range(len(S) + 1):
        q = img.find(bytes(_mk(k)), p)
        if q < 0: return "marker %d is missing" % k
        pos.append(q); p = q + 6
    if p != len(img): return "%d bytes follow the last marker" % (len(img) - p)
    lab = {s[1]: pos[i] + 6 for i, s in enumerate(S) if s[0] == "l"}
    n = lambda b: int.from_bytes(b, "little", signed=True)
    for i, s in enumerate(S):
        a, b = pos[i] + 6, img[pos[i] + 6:pos[i + 1]]
        if s[0] == "l" and b: return "bytes at a label"
        if s[0] == "f" and b != b"\x90" * s[1]: return "fill of %d bytes is %d bytes" % (s[1], len(b))
        if s[0] == "t" and int.from_bytes(b, "little") != lab[s[1]]: return "address of lab%d is %X instead of %X" % (s[1], int.from_bytes(b, "little"), lab[s[1]])
        if s[0] == "j":
            h = 1 if b[:1] in (b"\xEB", b"\xE9") or 0x70 <= b[0] < 0x80 else 2
            if (len(b) - h) not in (1, 2, 4): return "jump of %d bytes" % len(b)
            if a + len(b) + n(b[h:]) != lab[s[1]]: return "jump to lab%d goes to %X instead of %X" % (s[1], a + len(b) + n(b[h:]), lab[s[1]])
        if s[0] == "c":
            v, h = lab[s[1]] - lab[s[2]], 1
            if n(b[1:]) != v and n(b[1:]) & (1 << 8 * (len(b) - 1)) - 1 != v: return "lab%d - lab%d is %d instead of %d" % (s[1], s[2], n(b[1:]), v)
