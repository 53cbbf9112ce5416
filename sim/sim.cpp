// Deterministic simulator for the Win64 uasm.exe.
//
// Loads the real PE image into this process, binds every import (msvcrt,
// kernel32) to a simulated runtime, and runs it.  Memory, files, streams,
// clock, environment, signals and process scheduling all belong to the
// simulator; a run is a pure function of (image, plan).
#include "json.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <sys/stat.h>
#include <asm/prctl.h>
#include <unistd.h>
#include <signal.h>
#include <ucontext.h>
#include <poll.h>
#include <fcntl.h>
#include <errno.h>
#include <stdio.h>
#include <stdarg.h>
#include <math.h>
#include <ctype.h>
#include <algorithm>
#include <set>
#include <unordered_map>
#include <memory>
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8;
using std::string; using std::vector; using std::map;

// ------------------------------------------------------------------ PE image
struct Image {
  vector<u8> file; u64 prefbase = 0; u32 size = 0, entry = 0, hdrsize = 0, stackres = 0;
  struct Sec { string name; u32 va, vsz, raw, rawsz, ch; }; vector<Sec> secs;
  u32 reloc = 0, relocsz = 0, imp = 0;
  struct Imp { string dll, name; u32 iat; }; vector<Imp> imps;
  vector<std::pair<u32, string>> syms;   // rva -> name, sorted
  template <class T> T rd(size_t off) const { T v; if (off + sizeof(T) > file.size()) throw std::runtime_error("pe: truncated"); memcpy(&v, &file[off], sizeof v); return v; }
  size_t off(u32 rva) const { for (auto& s : secs) if (rva >= s.va && rva < s.va + std::max(s.vsz, s.rawsz)) return s.raw + (rva - s.va); return rva; }
  string cstr(size_t o) const { string r; while (o < file.size() && file[o]) r += (char)file[o++]; return r; }
  void load(const string& path) {
    FILE* f = fopen(path.c_str(), "rb"); if (!f) throw std::runtime_error("cannot open image " + path);
    fseek(f, 0, SEEK_END); file.resize(ftell(f)); rewind(f); if (fread(file.data(), 1, file.size(), f) != file.size()) throw std::runtime_error("read image"); fclose(f);
    u32 pe = rd<u32>(0x3c); u16 ns = rd<u16>(pe + 6); u32 symoff = rd<u32>(pe + 12), nsym = rd<u32>(pe + 16); u16 oh = rd<u16>(pe + 20);
    size_t o = pe + 24; entry = rd<u32>(o + 16); prefbase = rd<u64>(o + 24); size = rd<u32>(o + 56); hdrsize = rd<u32>(o + 60); stackres = (u32)rd<u64>(o + 72);
    imp = rd<u32>(o + 112 + 8); reloc = rd<u32>(o + 112 + 40); relocsz = rd<u32>(o + 112 + 44);
    for (int i = 0; i < ns; i++) { size_t s = o + oh + 40 * i; Sec c; c.name = string((char*)&file[s], strnlen((char*)&file[s], 8)); c.vsz = rd<u32>(s + 8); c.va = rd<u32>(s + 12); c.rawsz = rd<u32>(s + 16); c.raw = rd<u32>(s + 20); c.ch = rd<u32>(s + 36); secs.push_back(c); }
    if (imp) for (size_t d = off(imp);; d += 20) {
      u32 ilt = rd<u32>(d), nm = rd<u32>(d + 12), iat = rd<u32>(d + 16); if (!nm) break; if (!ilt) ilt = iat;
      string dll = cstr(off(nm));
      for (u32 k = 0;; k++) { u64 e = rd<u64>(off(ilt) + 8 * k); if (!e) break; string n = (e >> 63) ? "#" + std::to_string(e & 0xffff) : cstr(off((u32)e) + 2); imps.push_back({dll, n, iat + 8 * k}); }
    }
    if (symoff && nsym) {
      size_t str = symoff + 18ull * nsym;
      for (u32 i = 0; i < nsym; i++) { size_t s = symoff + 18ull * i; i16sec(s, str); i += rd<u8>(s + 17); }
      std::sort(syms.begin(), syms.end());
      for (size_t i = 0; i + 1 < syms.size(); i++) if (syms[i].second == "__tmainCRTStartup") { crt0 = syms[i].first; for (size_t j = i + 1; j < syms.size(); j++) if (syms[j].first > crt0) { crt1 = syms[j].first; break; } }
    }
  }
  u64 crt0 = 0, crt1 = 0;
  bool in_crt(u64 rva) const { return rva >= crt0 && rva < crt1; }
  void i16sec(size_t s, size_t str) {
    int16_t sn = (int16_t)rd<u16>(s + 12); if (sn < 1 || sn > (int)secs.size()) return; if (!(secs[sn - 1].ch & 0x20)) return;
    u16 type = rd<u16>(s + 14); u8 cls = rd<u8>(s + 16); if (type != 0x20 && !(cls == 2)) return;
    string n; if (rd<u32>(s) == 0) n = cstr(str + rd<u32>(s + 4)); else n = string((char*)&file[s], strnlen((char*)&file[s], 8));
    syms.push_back({secs[sn - 1].va + rd<u32>(s + 8), n});
  }
};
static map<string, std::shared_ptr<Image>> g_images;
static Image* get_image(const string& p) { auto& x = g_images[p]; if (!x) { auto im = std::make_shared<Image>(); im->load(p); x = im; } return x.get(); }
static map<string, string> g_hostfiles;
static const string& host_file(const string& p) {
  auto it = g_hostfiles.find(p); if (it != g_hostfiles.end()) return it->second;
  FILE* f = fopen(p.c_str(), "rb"); if (!f) throw std::runtime_error("host file " + p); string s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f);
  return g_hostfiles[p] = s;
}

// ------------------------------------------------------------------ VFS
struct Node { string data; bool ro = false; i64 mtime = 0; int open = 0, wopen = 0, ropen = 0, denyr = 0, denyw = 0; };
typedef std::shared_ptr<Node> NodeP;
struct Vfs {
  map<string, NodeP> f; map<string, string> disp; std::set<string> dirs;
  map<string, string> orig; std::set<string> inputs, touched, removed_inputs;
  i64 quota = -1; // bytes left on the device, -1: unlimited
} V;
static string up(string s) { for (auto& c : s) c = toupper((unsigned char)c); return s; }
static string disp_path(const string& cwd, const string& in) {
  string s = in; for (auto& c : s) if (c == '/') c = '\\';
  string full; if (s.size() > 1 && s[1] == ':') { if (s.size() > 2 && s[2] == '\\') full = s; else full = cwd + "\\" + s.substr(2); }
  else if (!s.empty() && s[0] == '\\') full = cwd.substr(0, 2) + s; else full = cwd + "\\" + s;
  vector<string> c; string cur; for (size_t i = 0; i <= full.size(); i++) { if (i == full.size() || full[i] == '\\') { if (cur == "..") { if (c.size() > 1) c.pop_back(); } else if (cur != "." && cur != "") c.push_back(cur); cur.clear(); } else cur += full[i]; }
  string r; for (size_t i = 0; i < c.size(); i++) { if (i) r += '\\'; r += c[i]; } return r;
}
static string dir_of(const string& k) { size_t p = k.rfind('\\'); return p == string::npos ? k : k.substr(0, p); }

// ------------------------------------------------------------------ errno
enum { W_ENOENT = 2, W_EIO = 5, W_EBADF = 9, W_ENOMEM = 12, W_EACCES = 13, W_EEXIST = 17, W_EINVAL = 22, W_EMFILE = 24, W_ENOSPC = 28 };

// ------------------------------------------------------------------ processes
struct Fault { string k, cls, path, data; bool rm = false, ip = false; i64 n = 0, err = 0, part = -1, sticky = 0, delta = 0, fired = 0; string cfn; };
struct Stream { u64 ubuf = 0, usz = 0; /* the program's own buffer, setvbuf() */ bool open = false, rd = false, wr = false, app = false, text = false; int kind = 0; string path; NodeP node; vector<u8> buf; size_t bufsz = 4096; int mode = 0; size_t rpos = 0; i64 fpos = 0; bool eof = false, err = false, ctrlz = false, used = false; int unget = -1; bool lowlevel = false; bool dr = false, dw = false; };
struct Blk { u64 size; u32 seq; u32 flags; u64 site; u64 magic; };
enum End { RUNNING, EXITED, KILLED, CRASHED, HANG, CTRLC, ABORTED, BUDGET, TRAP };
static const char* endname[] = {"running", "exit", "kill", "crash", "hang", "ctrlc", "abort", "budget", "trap"};
struct Knobs { i64 aslr = 0, fill = 0xCD, bufsiz = 4096, reuse = 0, seed = 1, tick = 10, clock = 1700000000, stackfill = 0xCC, tty = 0, maxopen = 512, guard = 0, tz = 0, errnojunk = 0, findord = 0, winefc = 0, mt = -1, pid = 0, freeze = 1; /* freeze: the clock the program reads stands still (jumps excepted) */ };
struct Proc {
  int id = 0; Image* img = nullptr; vector<string> argv; vector<std::pair<string, string>> env; string cwd; vector<Fault> faults; Knobs kn;
  u64 base = 0, heap0 = 0, heapcur = 0, heapend = 0, stk0 = 0, stkend = 0, vbase = 0, vcur = 0; u8* hoststk = nullptr; u64 hoststksz = 0; u64 gs = 0, cells = 0, cellcur = 0, iob = 0;
  // coroutine state
  u64 sched_sp = 0; u64 host_sp = 0, guest_sp = 0; bool started = false, done = false;
  End end = RUNNING; i64 code = 0; string avinfo, trap;
  u64 ncalls = 0, nalloc = 0, ntime = 0; map<string, u64> ops; vector<Stream> st; vector<string> diag; vector<u64> onexit; map<int, u64> sig; map<u64, std::pair<u64, bool>> vallocs; map<u64, u64> finds; struct Find { vector<string> names; size_t i; }; vector<Find> findv;
  u64 liveb = 0, liven = 0, maxlive = 0; map<u64, vector<u64>> freelist; u32 seq = 0; i64 timejump = 0; bool avdone = false; string out, errout; u64 errno_cell = 0; u64 rng = 1; bool exiting = false; u64 lastcall = 0; vector<string> fired; bool sigfired = false; vector<u64> blocks; u64 chkmod = 0;
  map<string, u64> strcells; u64 lasterr = 0; u64 strtokp = 0; u64 randst = 1; int tmpn = 0; std::set<string> envq; vector<i64> tvals; vector<std::pair<u64,u64>> modmarks;
};
static vector<std::unique_ptr<Proc>> P; static Proc* C = nullptr;
static u64 g_hash = 1469598103934665603ull; static u64 g_calls = 0; static i64 g_us = 0; static u64 g_budget = 50000000; static bool g_trace = false; static string g_traceout; static u64 g_tracen = 0, g_tracemax = 20000; static volatile sig_atomic_t g_hang = 0; static bool g_alloctrace = false;
static vector<std::pair<u64, int>> g_sched; static size_t g_schedi = 0; static i64 g_simclock = 0; static u64 g_preempts = 0;
static string g_allocsites;

static inline void hb(const void* p, size_t n) { const u8* b = (const u8*)p; u64 h = g_hash; for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; } g_hash = h; }
static inline void hs(const string& s) { hb(s.data(), s.size() + 1); }
static inline void hn(u64 v) { hb(&v, 8); }
static u64 rnd(u64& s) { s += 0x9E3779B97F4A7C15ull; u64 z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }

// ------------------------------------------------------------------ context switching
extern "C" {
u64 cur_host_sp, g_guest_sp, sched_sp_save; double g_xmm_arg[8], g_xmm_ret;
void sim_common(); void sim_setjmp(); void sim_longjmp_go(u64 buf, u64 val);
u64 call_guest(u64 fn, u64 a0, u64 a1, u64 a2);
void switch_ctx(u64* save, u64 to);
u64 (*sim_table[512])(u64*);
}
asm(R"(
.text
.globl sim_common
sim_common:
  mov %rcx, 8(%rsp)
  mov %rdx, 16(%rsp)
  mov %r8, 24(%rsp)
  mov %r9, 32(%rsp)
  mov %rsp, %rax
  mov cur_host_sp(%rip), %rsp
  sub $208, %rsp
  movaps %xmm6, 0(%rsp)
  movaps %xmm7, 16(%rsp)
  movaps %xmm8, 32(%rsp)
  movaps %xmm9, 48(%rsp)
  movaps %xmm10, 64(%rsp)
  movaps %xmm11, 80(%rsp)
  movaps %xmm12, 96(%rsp)
  movaps %xmm13, 112(%rsp)
  movaps %xmm14, 128(%rsp)
  movaps %xmm15, 144(%rsp)
  mov %rax, 192(%rsp)
  mov %rdi, 184(%rsp)
  mov %rsi, 176(%rsp)
  movsd %xmm0, g_xmm_arg(%rip)
  movsd %xmm1, 8+g_xmm_arg(%rip)
  movsd %xmm2, 16+g_xmm_arg(%rip)
  mov %rax, g_guest_sp(%rip)
  lea 8(%rax), %rdi
  lea sim_table(%rip), %r10
  call *(%r10,%r11,8)
  movsd g_xmm_ret(%rip), %xmm0
  movaps 0(%rsp), %xmm6
  movaps 16(%rsp), %xmm7
  movaps 32(%rsp), %xmm8
  movaps 48(%rsp), %xmm9
  movaps 64(%rsp), %xmm10
  movaps 80(%rsp), %xmm11
  movaps 96(%rsp), %xmm12
  movaps 112(%rsp), %xmm13
  movaps 128(%rsp), %xmm14
  movaps 144(%rsp), %xmm15
  mov 184(%rsp), %rdi
  mov 176(%rsp), %rsi
  mov 192(%rsp), %rsp
  ret
.globl call_guest
call_guest:
  push %rbx
  push %rbp
  push %r12
  push %r13
  push %r14
  push %r15
  sub $8, %rsp
  mov cur_host_sp(%rip), %r12
  mov g_guest_sp(%rip), %r13
  mov %rsp, %rbx
  lea -256(%rsp), %rax
  and $-16, %rax
  mov %rax, cur_host_sp(%rip)
  mov %rdi, %rax
  mov %rcx, %r8
  mov %rsi, %rcx
  lea -512(%r13), %rsp
  and $-16, %rsp
  sub $64, %rsp
  call *%rax
  mov %rbx, %rsp
  mov %r12, cur_host_sp(%rip)
  mov %r13, g_guest_sp(%rip)
  add $8, %rsp
  pop %r15
  pop %r14
  pop %r13
  pop %r12
  pop %rbp
  pop %rbx
  ret
.globl switch_ctx
switch_ctx:
  push %rbx
  push %rbp
  push %r12
  push %r13
  push %r14
  push %r15
  sub $8, %rsp
  mov %rsp, (%rdi)
  mov %rsi, %rsp
  add $8, %rsp
  pop %r15
  pop %r14
  pop %r13
  pop %r12
  pop %rbp
  pop %rbx
  ret
.globl sim_setjmp
sim_setjmp:
  mov %rbx, 8(%rcx)
  lea 8(%rsp), %rax
  mov %rax, 16(%rcx)
  mov %rbp, 24(%rcx)
  mov %rsi, 32(%rcx)
  mov %rdi, 40(%rcx)
  mov %r12, 48(%rcx)
  mov %r13, 56(%rcx)
  mov %r14, 64(%rcx)
  mov %r15, 72(%rcx)
  mov (%rsp), %rax
  mov %rax, 80(%rcx)
  movups %xmm6, 96(%rcx)
  movups %xmm7, 112(%rcx)
  movups %xmm8, 128(%rcx)
  movups %xmm9, 144(%rcx)
  movups %xmm10, 160(%rcx)
  movups %xmm11, 176(%rcx)
  movups %xmm12, 192(%rcx)
  movups %xmm13, 208(%rcx)
  movups %xmm14, 224(%rcx)
  movups %xmm15, 240(%rcx)
  xor %eax, %eax
  ret
.globl sim_longjmp_go
sim_longjmp_go:
  mov %rdi, %rcx
  mov %rsi, %rax
  mov 8(%rcx), %rbx
  mov 16(%rcx), %rsp
  mov 24(%rcx), %rbp
  mov 32(%rcx), %rsi
  mov 40(%rcx), %rdi
  mov 48(%rcx), %r12
  mov 56(%rcx), %r13
  mov 64(%rcx), %r14
  mov 72(%rcx), %r15
  movups 96(%rcx), %xmm6
  movups 112(%rcx), %xmm7
  movups 128(%rcx), %xmm8
  movups 144(%rcx), %xmm9
  movups 160(%rcx), %xmm10
  movups 176(%rcx), %xmm11
  movups 192(%rcx), %xmm12
  movups 208(%rcx), %xmm13
  movups 224(%rcx), %xmm14
  movups 240(%rcx), %xmm15
  jmp *80(%rcx)
)");

static void to_sched() { // park the current coroutine
  Proc* p = C; p->host_sp = cur_host_sp; p->guest_sp = g_guest_sp; u64 dummy; u64 sp; (void)dummy;
  extern u64 g_main_sp; switch_ctx(&p->sched_sp, g_main_sp); (void)sp;
}
u64 g_main_sp;
[[noreturn]] static void finish(End e, i64 code) { C->end = e; C->code = code; C->done = true; to_sched(); abort(); }
static string sym(Proc* p, u64 addr) {
  char b[64]; if (addr < p->base || addr >= p->base + p->img->size) { snprintf(b, sizeof b, "?"); return b; }
  u32 rva = (u32)(addr - p->base); auto& s = p->img->syms; auto it = std::upper_bound(s.begin(), s.end(), std::make_pair(rva, string("\xff"))); if (it == s.begin()) { snprintf(b, sizeof b, "rva_%x", rva); return b; }
  --it; snprintf(b, sizeof b, "+0x%x", rva - it->first); return it->second + b;
}
static void diag(const string& s) { if (C->diag.size() < 50) C->diag.push_back(s); hs("D:" + s); }

static void trace(const char* fn, const string& det, i64 ret, u64* a) {
  if (!g_trace || g_tracen++ >= g_tracemax) return;
  char b[96]; snprintf(b, sizeof b, "%s[%llu,%d,\"%s\",", g_traceout.empty() ? "" : ",\n", (unsigned long long)C->ncalls - 1, C->id, fn); g_traceout += b; jstr(g_traceout, det); snprintf(b, sizeof b, ",%lld,", (long long)ret); g_traceout += b; jstr(g_traceout, a ? sym(C, a[-1]) : ""); g_traceout += "]";
}
static void run_signal(int signo, u64 h) { // msvcrt resets to SIG_DFL, then calls the handler
  C->sig[signo] = 0; call_guest(h, signo, 0, 0);
}
// every observable import passes here: step counting, preemption, kill, interrupt
static void EV(const char* name, u64* a) {
  Proc* p = C; p->ncalls++; g_calls++; g_us += p->kn.tick; hs(name); hn(p->id);
  if (g_hang) finish(HANG, -1);
  if (g_calls > g_budget) finish(BUDGET, -1);
  if (g_schedi < g_sched.size() && g_calls >= g_sched[g_schedi].first) {
    to_sched(); // scheduler picks the next process and consumes the decision
  }
  // another party replaces, rewrites or removes a file
  for (auto& f : p->faults) if (!f.fired && f.k == "mut" && (u64)f.n < p->ncalls) {
    auto it = V.f.find(f.path); if (it == V.f.end() && f.rm) continue;
    if (it != V.f.end() && it->second->open && !f.ip) continue; // not while it is open
    f.fired = 1; p->fired.push_back((f.rm ? "file-removed@" : f.ip ? "file-rewritten@" : "file-replaced@") + string(name)); hs("MUT"); trace("MUT", f.path, f.rm, a);
    if (it != V.f.end() && it->second->open) { it->second->data = f.data; continue; } // in place
    if (f.rm) { V.f.erase(it); continue; }
    auto nd = std::make_shared<Node>(); nd->data = f.data; nd->mtime = it == V.f.end() ? 0 : it->second->mtime; V.f[f.path] = nd; if (!V.disp.count(f.path)) V.disp[f.path] = f.path;
  }
  for (auto& f : p->faults) if (!f.fired && (f.k == "kill" || f.k == "sig") && (u64)f.n == p->ncalls - 1 && (f.cfn.empty())) {
    f.fired = 1;
    if (f.k == "kill") { p->fired.push_back("kill@" + string(name)); trace("KILL", name, 0, a); hs("KILL"); finish(KILLED, 1); }
    u64 h = p->sig.count((int)f.err) ? p->sig[(int)f.err] : 0; hs("SIG"); hn(f.err);
    if (h == 1) { p->fired.push_back("sig-ignored"); continue; }
    p->fired.push_back("sig@" + string(name)); trace("SIGNAL", name, f.err, a);
    if (!h) finish(CTRLC, 0xC000013A);
    p->sigfired = true; run_signal((int)f.err, h);
  }
}
// ------------------------------------------------------------------ guest memory
static u64 cell(u64 n) { u64 r = C->cellcur; C->cellcur += (n + 15) & ~15ull; return r; }
static u64 strcell(const string& s) { auto& x = C->strcells[s]; if (!x) { x = cell(s.size() + 1); memcpy((void*)x, s.c_str(), s.size() + 1); } return x; }
static const u64 MAGIC = 0x5ca1ab1e0ddba11ull;
static void set_errno(int e) { *(int*)C->errno_cell = e; }
static Fault* match_alloc(u64 sz, u64* a) {
  Proc* p = C; if (a && p->img->in_crt(a[-1] - p->base)) return nullptr; // the C runtime's own startup is not under test
  u64 n = p->nalloc++;
  for (auto& f : p->faults) {
    if (f.k == "alloc" && ((u64)f.n == n || (f.sticky && n >= (u64)f.n))) return &f;
    if (f.k == "membudget" && p->liveb + sz > (u64)f.n) return &f;
  }
  return nullptr;
}
static void fillmem(u64 p, u64 n, u64 salt) {
  i64 f = C->kn.fill; if (f >= 0) memset((void*)p, (int)f, n); else { u64 s = C->rng ^ salt; u64 i = 0; for (; i + 8 <= n; i += 8) { u64 r = rnd(s); memcpy((void*)(p + i), &r, 8); } u64 r = rnd(s); memcpy((void*)(p + i), &r, n - i); }
}
static void alloc_site(const char* k, u64 sz, u64* a) { if (g_alloctrace) { char b[64]; g_allocsites += g_allocsites.empty() ? "[" : ",["; jstr(g_allocsites, sym(C, a[-1])); snprintf(b, sizeof b, ",\"%s\",%llu]", k, (unsigned long long)sz); g_allocsites += b; } }
static u64 heap_alloc(u64 sz, u64* a, bool zero) {
  Proc* p = C; u64 r = 0; auto cls = (sz + 15) & ~15ull;
  if (p->kn.reuse) { auto it = p->freelist.find(cls); if (it != p->freelist.end() && !it->second.empty()) { r = it->second.back(); it->second.pop_back(); } }
  if (!r) {
    u64 need = 48 + cls + 32; if (p->kn.reuse == 2) need += (rnd(p->rng) & 7) * 16;
    if (p->kn.aslr & 1) { if (p->heapcur - need < p->heap0 || p->heapcur < need) { set_errno(W_ENOMEM); return 0; } p->heapcur -= need; r = p->heapcur + 48; }
    else { if (p->heapcur + need > p->heapend) { set_errno(W_ENOMEM); return 0; } r = p->heapcur + 48; p->heapcur += need; }
    p->blocks.push_back(r);
  }
  Blk* b = (Blk*)(r - 48); b->size = sz; b->seq = p->seq++; b->flags = 1; b->site = a ? a[-1] : 0; b->magic = MAGIC ^ r;
  if (zero) memset((void*)r, 0, sz); else fillmem(r, sz, b->seq);
  memset((void*)(r + sz), 0xFD, cls - sz + 16); p->liveb += sz; p->liven++; p->maxlive = std::max(p->maxlive, p->liveb); return r;
}
static bool blk_ok(u64 r) { Proc* p = C; if ((r & 15) || r < p->heap0 + 48 || r >= p->heapend) return false; return ((Blk*)(r - 48))->magic == (MAGIC ^ r); }
static void blk_check(u64 r, const char* w) { Blk* b = (Blk*)(r - 48); u64 cls = (b->size + 15) & ~15ull; for (u64 i = r + b->size; i < r + cls + 16; i++) if (*(u8*)i != 0xFD) { diag(string("heap-overflow ") + w + " block of " + sym(C, b->site) + " size " + std::to_string(b->size)); memset((void*)(r + b->size), 0xFD, cls - b->size + 16); return; } }
static void heap_free(u64 r, u64* a) {
  if (!r) return; Proc* p = C; if (!blk_ok(r)) { diag("bad-free at " + sym(C, a[-1])); return; } Blk* b = (Blk*)(r - 48);
  if (b->flags != 1) { diag("double-free at " + sym(C, a[-1])); return; }
  blk_check(r, "free"); b->flags = 2; p->liveb -= b->size; p->liven--; memset((void*)r, 0xDD, b->size); if (p->kn.reuse) p->freelist[(b->size + 15) & ~15ull].push_back(r);
}
// ------------------------------------------------------------------ device layer
static Fault* io_fault(const string& cls, const string& key) {
  Proc* p = C; u64 n = p->ops[cls + "|" + key]++; u64 nt = p->ops[cls + "|*"]++;
  hs(cls); hs(key);
  for (auto& f : p->faults) {
    if (f.k != "io" || f.cls != cls) continue;
    if (!f.path.empty()) { if (f.path != key) continue; if ((u64)f.n == n || (f.sticky && n >= (u64)f.n)) return &f; }
    else if ((u64)f.n == nt || (f.sticky && nt >= (u64)f.n)) return &f;
  }
  return nullptr;
}
static void fire(Fault* f, const string& what) { f->fired++; if (C->fired.size() < 200) C->fired.push_back(what); hs("F:" + what); }
static i64 now_us() { return (C->kn.clock * 1000000ll) + (C->kn.freeze ? 0 : g_us) + C->timejump * 1000000ll; }
static void touch(const string& key) { V.touched.insert(key); }
// returns bytes written; sets errno and returns <0 on error
static i64 dev_write(Stream& s, const u8* d, size_t n) {
  Proc* p = C; if (s.kind == 3) return n; if (!s.wr) { set_errno(W_EBADF); return -1; }
  string key = s.kind == 0 ? s.path : s.path;
  Fault* f = io_fault("write", key); i64 take = n; int err = 0;
  if (f) { err = f->err ? (int)f->err : W_ENOSPC; take = f->part > 0 ? std::min<i64>(f->part, n ? n - 1 : 0) : 0; fire(f, "write-" + std::to_string(err) + (take ? "-torn" : "")); }
  if (s.kind == 0) {
    if (s.app) s.fpos = s.node->data.size();
    if (!err && V.quota >= 0) { i64 grow = (s.fpos + (i64)n) - (i64)s.node->data.size(); if (grow > V.quota) { take = std::max<i64>(0, (i64)n - (grow - V.quota)); err = W_ENOSPC; if (C->fired.size() < 200) C->fired.push_back("disk-full"); hs("F:full"); } }
    if (take > 0) { size_t end = s.fpos + take; if (s.node->data.size() < end) { if (V.quota >= 0) V.quota -= end - s.node->data.size(); s.node->data.resize(end, 0); } memcpy(&s.node->data[s.fpos], d, take); s.fpos += take; s.node->mtime = now_us() / 1000000; touch(key); }
  } else { (s.kind == 2 && s.path == "<stderr>" ? p->errout : p->out).append((const char*)d, take); }
  hn(take); hb(d, take); trace("dev_write", s.path, err ? -err : take, nullptr);
  if (err) { set_errno(err); if (take <= 0) return -1; } // a part written: its count, as msvcrt's _write
  return take;
}
static i64 dev_read(Stream& s, u8* d, size_t n) {
  if (!s.rd) { set_errno(W_EBADF); return -1; } if (s.kind == 3 || s.kind == 1 || s.kind == 2) return 0;
  Fault* f = io_fault("read", s.path); if (f) { int e = f->err ? (int)f->err : W_EIO; fire(f, "read-" + std::to_string(e)); trace("dev_read", s.path, -e, nullptr); set_errno(e); return -1; }
  i64 av = (i64)s.node->data.size() - s.fpos; i64 k = std::max<i64>(0, std::min<i64>(av, n)); if (k) memcpy(d, s.node->data.data() + s.fpos, k); s.fpos += k; hn(k); trace("dev_read", s.path, k, nullptr); return k;
}
static void ub_in(Stream& s) { if (s.ubuf) memcpy(s.buf.data(), (u8*)s.ubuf, std::min<u64>(s.buf.size(), s.usz)); }
static void ub_out(Stream& s, size_t from) { if (s.ubuf) for (size_t i = from; i < s.buf.size() && i < s.usz; i++) ((u8*)s.ubuf)[i] = s.buf[i]; }
static bool st_flush(Stream& s) {
  if (s.mode != 2 || s.buf.empty()) { return true; } ub_in(s);
  vector<u8> d; if (s.text) { d.reserve(s.buf.size() + 64); for (u8 c : s.buf) { if (c == '\n') d.push_back('\r'); d.push_back(c); } } else d.swap(s.buf);
  s.buf.clear(); i64 r = dev_write(s, d.data(), d.size()); if (r != (i64)d.size()) { s.err = true; return false; } return true;
}
static u64 st_ptr(size_t i) { return C->iob + 48 * i; }
static int st_idx(u64 f) { if (f < C->iob || (f - C->iob) % 48 || (f - C->iob) / 48 >= C->st.size()) return -1; return (int)((f - C->iob) / 48); }
static Stream* ST(u64 f, const char* w, u64* a) {
  int i = st_idx(f); if (i < 0) { // wild or null stream: real msvcrt faults on the lock
    diag(string(f ? "wild-stream " : "null-stream ") + w + " at " + sym(C, a[-1])); *(volatile int*)(f + 24); set_errno(W_EINVAL); return nullptr; }
  Stream* s = &C->st[i]; if (!s->open) { diag(string("closed-stream ") + w + " " + s->path + " at " + sym(C, a[-1])); set_errno(W_EBADF); return nullptr; } return s;
}
static int g_sh = 0x40; // share mode of the next open: 0x10 deny all, 0x20 deny writing, 0x30 deny reading, 0x40 deny nothing
static void st_share(Stream& s, int d) { Node* n = s.node.get(); n->open += d; if (s.wr) n->wopen += d; if (s.rd) n->ropen += d; if (s.dr) n->denyr += d; if (s.dw) n->denyw += d; }
static int st_open(const string& name, const char* mode, u64* a, const char* fn) {
  Proc* p = C; string disp = disp_path(p->cwd, name), key = up(disp); int sh = g_sh; g_sh = 0x40; bool dr = sh == 0x10 || sh == 0x30, dw = sh == 0x10 || sh == 0x20;
  bool r = strchr(mode, 'r'), w = strchr(mode, 'w'), ap = strchr(mode, 'a'), pl = strchr(mode, '+'), bin = strchr(mode, 'b');
  string base = key.substr(key.rfind('\\') + 1); bool nul = base == "NUL", con = base == "CON";
  Fault* f = io_fault(r && !pl ? "open" : "create", key); int err = 0; int nopen = 0; for (auto& s : p->st) nopen += s.open && !s.lowlevel;
  if (f) { err = f->err ? (int)f->err : W_EACCES; fire(f, string(r && !pl ? "open-" : "create-") + std::to_string(err)); }
  else if (nopen >= p->kn.maxopen) { err = W_EMFILE; if (p->fired.size() < 200) p->fired.push_back("emfile"); }
  else if (name.empty()) err = W_ENOENT; else if (name.size() > 259) err = W_ENOENT;
  else if (name.find_first_of("*?<>|\"") != string::npos) err = W_EINVAL;
  else if (nul || con) ;
  else if (V.dirs.count(key)) err = W_EACCES;
  else if (!V.dirs.count(dir_of(key))) err = W_ENOENT;
  else { auto it = V.f.find(key); if (r && it == V.f.end()) err = W_ENOENT; else if (it != V.f.end() && it->second->ro && (w || ap || pl)) err = W_EACCES; else if (it != V.f.end()) { Node* n = it->second.get(); if (((r || pl) && n->denyr) || ((w || ap || pl) && n->denyw) || (dr && n->ropen) || (dw && n->wopen)) { err = W_EACCES; if (p->fired.size() < 200) p->fired.push_back("share-conflict"); } } }
  trace(fn, disp + " " + mode, err ? -err : 0, a);
  if (err) { set_errno(err); hn(err); return -1; }
  p->st.emplace_back(); if (p->st.size() > 40000) { diag("too-many-opens"); finish(BUDGET, -1); }
  Stream& s = p->st.back(); s.open = true; s.used = true; s.rd = r || pl; s.wr = w || ap || pl; s.app = ap; s.text = !bin; s.path = key; s.bufsz = std::max<i64>(1, p->kn.bufsiz); s.kind = nul ? 3 : con ? 2 : 0; s.dr = dr; s.dw = dw;
  if (s.kind == 0) {
    auto& n = V.f[key]; if (!n) { n = std::make_shared<Node>(); V.disp[key] = disp; n->mtime = now_us() / 1000000; touch(key); } else if (w) { if (V.quota >= 0) V.quota += n->data.size(); n->data.clear(); touch(key); n->mtime = now_us() / 1000000; }
    s.node = n; st_share(s, 1);
  }
  return (int)p->st.size() - 1;
}
static bool st_close(Stream& s, bool doflush) {
  bool ok = true, pre = s.err; if (doflush) { ok = st_flush(s); if (C->kn.winefc) ok = !pre; } // winefc: like wine's runtime, fclose() loses the error of its own flush
  if (s.kind == 0) { Fault* f = io_fault("close", s.path); st_share(s, -1); if (f) { fire(f, "close"); set_errno(f->err ? (int)f->err : W_EIO); ok = false; } s.node.reset(); }
  s.open = false; s.buf.clear(); return ok;
}
static int st_getc(Stream& s) {
  if (s.unget >= 0) { int c = s.unget; s.unget = -1; return c; }
  for (;;) {
    if (s.mode == 2) { st_flush(s); s.mode = 0; }
    if (s.rpos >= s.buf.size()) {
      s.buf.resize(s.bufsz); s.mode = 1; s.rpos = 0; if (s.ctrlz) { s.buf.clear(); s.eof = true; return -1; }
      i64 n = dev_read(s, s.buf.data(), s.bufsz); if (n < 0) { s.err = true; s.buf.clear(); return -1; } s.buf.resize(n); if (!n) { s.eof = true; return -1; } ub_out(s, 0);
    }
    if (s.ubuf && s.rpos < s.usz) s.buf[s.rpos] = ((u8*)s.ubuf)[s.rpos];
    u8 c = s.buf[s.rpos++]; if (!s.text) return c;
    if (c == 0x1A) { s.ctrlz = true; s.rpos = s.buf.size(); s.eof = true; return -1; }
    if (c == '\r') { if (s.rpos >= s.buf.size()) { u8 b; i64 n = dev_read(s, &b, 1); if (n == 1) { s.buf.push_back(b); } } if (s.rpos < s.buf.size() && s.buf[s.rpos] == '\n') { s.rpos++; return '\n'; } }
    return c;
  }
}
static void st_towrite(Stream& s) { if (s.mode == 1) { s.fpos -= (i64)(s.buf.size() - s.rpos); s.buf.clear(); s.rpos = 0; } s.unget = -1; s.mode = 2; }
static int st_putc(Stream& s, int c) {
  if (!s.wr) { s.err = true; set_errno(W_EBADF); return -1; } st_towrite(s); bool ok = true;
  if (s.buf.size() >= s.bufsz) ok = st_flush(s), s.mode = 2;
  s.buf.push_back((u8)c); if (s.ubuf) ub_out(s, s.buf.size() - 1); if (s.bufsz <= 1) { ok = st_flush(s); } return ok ? (u8)c : -1;
}
static size_t st_write(Stream& s, const u8* d, size_t n) {
  if (!s.wr) { s.err = true; set_errno(W_EBADF); return 0; } st_towrite(s); size_t done = 0;
  while (done < n) {
    size_t rem = n - done;
    if (s.buf.size() && s.buf.size() < s.bufsz) { size_t k = std::min(rem, s.bufsz - s.buf.size()); s.buf.insert(s.buf.end(), d + done, d + done + k); ub_out(s, s.buf.size() - k); done += k; continue; }
    if (rem >= s.bufsz) {
      if (!st_flush(s)) return done; s.mode = 2; size_t k = s.bufsz <= 1 ? rem : rem - rem % s.bufsz;
      if (s.text) { vector<u8> t; for (size_t i = 0; i < k; i++) { if (d[done + i] == '\n') t.push_back('\r'); t.push_back(d[done + i]); } if (dev_write(s, t.data(), t.size()) != (i64)t.size()) { s.err = true; return done; } }
      else { i64 r = dev_write(s, d + done, k); if (r != (i64)k) { s.err = true; return done; } }
      done += k;
    } else { if (s.buf.size() >= s.bufsz) { if (!st_flush(s)) { s.buf.push_back(d[done]); return done; } s.mode = 2; } s.buf.push_back(d[done]); if (s.ubuf) ub_out(s, s.buf.size() - 1); done++; }
  }
  return done;
}
static size_t st_read(Stream& s, u8* d, size_t n) {
  size_t done = 0; if (!s.rd) { s.err = true; return 0; }
  if (s.text || s.unget >= 0) { while (done < n) { int c = st_getc(s); if (c < 0) break; d[done++] = c; if (!s.text && done < n) { done += st_read(s, d + done, n - done); break; } } return done; }
  if (s.mode == 2) { st_flush(s); s.mode = 0; }
  while (done < n) {
    if (s.mode == 1 && s.rpos < s.buf.size()) { size_t k = std::min(n - done, s.buf.size() - s.rpos); ub_in(s); memcpy(d + done, &s.buf[s.rpos], k); s.rpos += k; done += k; continue; }
    size_t rem = n - done; if (rem >= s.bufsz) { size_t k = s.bufsz <= 1 ? rem : rem - rem % s.bufsz; s.buf.clear(); s.rpos = 0; s.mode = 1; i64 r = dev_read(s, d + done, k); if (r < 0) { s.err = true; return done; } if (!r) { s.eof = true; return done; } done += r; }
    else { int c = st_getc(s); if (c < 0) return done; d[done++] = c; }
  }
  return done;
}
static i64 st_tell(Stream& s) {
  if (s.mode == 2) { i64 n = s.buf.size(); if (s.text) for (u8 c : s.buf) n += c == '\n'; return s.fpos + n; } if (s.mode == 1) return s.fpos - (i64)(s.buf.size() - s.rpos) - (s.unget >= 0); return s.fpos;
}
static int st_seek(Stream& s, i64 off, int wh) {
  if (wh < 0 || wh > 2) { set_errno(W_EINVAL); return -1; } s.eof = false; s.ctrlz = false; if (wh == 1) { off += st_tell(s); wh = 0; }
  if (s.mode == 2) st_flush(s); s.buf.clear(); s.rpos = 0; s.unget = -1; s.mode = 0; if (s.kind) { return s.kind == 3 ? 0 : -1; }
  i64 np = wh == 0 ? off : (i64)s.node->data.size() + off; Fault* f = io_fault("seek", s.path); if (f) { fire(f, "seek"); set_errno(f->err ? (int)f->err : W_EIO); return -1; } if (np < 0) { set_errno(W_EINVAL); return -1; } s.fpos = np; return 0;
}
// ------------------------------------------------------------------ printf
static string fmt(const char* f, u64* ap) {
  string o; int ai = 0;
  while (*f) {
    if (*f != '%') { o += *f++; continue; } f++; if (*f == '%') { o += '%'; f++; continue; }
    string fl = "%"; while (*f && strchr("-+ #0", *f)) fl += *f++;
    if (*f == '*') { fl += std::to_string((int)ap[ai++]); f++; } else while (isdigit((u8)*f)) fl += *f++;
    if (*f == '.') { fl += *f++; if (*f == '*') { fl += std::to_string((int)ap[ai++]); f++; } else while (isdigit((u8)*f)) fl += *f++; }
    int sz = 4; for (;;) { if (!strncmp(f, "I64", 3)) { sz = 8; f += 3; } else if (!strncmp(f, "I32", 3)) { sz = 4; f += 3; } else if (f[0] == 'l' && f[1] == 'l') { sz = 8; f += 2; } else if (*f == 'l' || *f == 'w') { sz = 4; f++; } else if (f[0] == 'h' && f[1] == 'h') { sz = 1; f += 2; } else if (*f == 'h') { sz = 2; f++; } else if (*f == 'I' || *f == 'z' || *f == 'j' || *f == 't') { sz = 8; f++; } else if (*f == 'L') f++; else break; }
    char b[600]; char c = *f; if (!c) break; f++; u64 v = ai < 64 ? 0 : 0;
    switch (c) {
      case 'd': case 'i': { v = ap[ai++]; i64 x = sz == 8 ? (i64)v : sz == 2 ? (int16_t)v : sz == 1 ? (int8_t)v : (int)v; snprintf(b, sizeof b, (fl + "lld").c_str(), (long long)x); o += b; break; }
      case 'u': case 'x': case 'X': case 'o': { v = ap[ai++]; u64 x = sz == 8 ? v : sz == 2 ? (u16)v : sz == 1 ? (u8)v : (u32)v; snprintf(b, sizeof b, (fl + "ll" + c).c_str(), (unsigned long long)x); o += b; break; }
      case 'c': snprintf(b, sizeof b, (fl + "c").c_str(), (int)ap[ai] & 255); if (((int)ap[ai] & 255) == 0) o += '\0'; else o += b; ai++; break;
      case 's': { const char* s = (const char*)ap[ai++]; if (!s) s = "(null)"; int n = snprintf(nullptr, 0, (fl + "s").c_str(), s); string t(n + 1, 0); snprintf(&t[0], n + 1, (fl + "s").c_str(), s); t.resize(n); o += t; break; }
      case 'p': snprintf(b, sizeof b, "%016llX", (unsigned long long)ap[ai++]); o += b; break;
      case 'f': case 'g': case 'e': case 'G': case 'E': { double d; memcpy(&d, &ap[ai++], 8); snprintf(b, sizeof b, (fl + c).c_str(), d); o += b; break; }
      case 'n': *(int*)ap[ai++] = (int)o.size(); break;
      default: o += c;
    }
  }
  return o;
}
// ------------------------------------------------------------------ imports
#define S(x) ((char*)(x))
static const char* GS(u64 x) { (void)*(volatile char*)x; return (const char*)x; } // a guest string the host will copy: fault first if it is not readable
#define IMP(n) static u64 i_##n(u64* a)
static u64 R32(i64 v) { return (u64)(u32)(int)v; }
static const char* cls_err[] = {};
// --- memory
IMP(malloc) { EV("malloc", a); u64 sz = a[0]; hn(sz); alloc_site("malloc", sz, a); Fault* f = match_alloc(sz, a); if (f) { fire(f, "malloc-null"); trace("malloc", "NULL", sz, a); set_errno(W_ENOMEM); return 0; } return heap_alloc(sz, a, false); }
IMP(calloc) { EV("calloc", a); u64 sz = a[0] * a[1]; hn(sz); alloc_site("calloc", sz, a); Fault* f = match_alloc(sz, a); if (f) { fire(f, "calloc-null"); trace("calloc", "NULL", sz, a); set_errno(W_ENOMEM); return 0; } return heap_alloc(sz, a, true); }
IMP(free) { heap_free(a[0], a); return 0; }
IMP(realloc) {
  EV("realloc", a); if (!a[0]) { u64 sz = a[1]; Fault* f = match_alloc(sz, a); if (f) { fire(f, "realloc-null"); set_errno(W_ENOMEM); return 0; } return heap_alloc(sz, a, false); } if (!a[1]) { heap_free(a[0], a); return 0; }
  alloc_site("realloc", a[1], a); Fault* f = match_alloc(a[1], a); if (f) { fire(f, "realloc-null"); trace("realloc", "NULL", a[1], a); set_errno(W_ENOMEM); return 0; }
  if (!blk_ok(a[0])) { diag("bad-realloc at " + sym(C, a[-1])); return 0; } u64 old = ((Blk*)(a[0] - 48))->size; u64 r = heap_alloc(a[1], a, false); if (!r) return 0; memcpy((void*)r, (void*)a[0], std::min(old, a[1])); heap_free(a[0], a); return r;
}
IMP(VirtualAlloc) {
  EV("VirtualAlloc", a); u64 sz = (a[1] + 4095) & ~4095ull; hn(sz); u32 type = (u32)a[2]; if (a[0]) return a[0]; alloc_site("VirtualAlloc", sz, a); Fault* f = match_alloc(sz, a); if (f) { fire(f, "VirtualAlloc-null"); trace("VirtualAlloc", "NULL", sz, a); C->lasterr = 8; return 0; }
  Proc* p = C; u64 step = (sz + 0xffff) & ~0xffffull; step += 0x10000; u64 r; if (p->kn.aslr & 2) { p->vcur -= step; r = p->vcur; } else { r = p->vcur; p->vcur += step; } (void)type;
  if (r < p->vbase || r + step > p->vbase + (4ull << 30)) { C->lasterr = 8; return 0; }
  if (mmap((void*)r, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0) == MAP_FAILED) return 0;
  p->vallocs[r] = {sz, true}; p->liveb += sz; p->maxlive = std::max(p->maxlive, p->liveb); return r;
}
IMP(VirtualFree) { EV("VirtualFree", a); Proc* p = C; auto it = p->vallocs.find(a[0]); if (it == p->vallocs.end() || !it->second.second) { diag("bad-VirtualFree at " + sym(C, a[-1])); C->lasterr = 487; return 0; } it->second.second = false; p->liveb -= it->second.first; mmap((void*)a[0], it->second.first, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0); return 1; }
IMP(VirtualProtect) { int pr = (u32)a[2] & 0xf0 ? PROT_READ | PROT_WRITE | PROT_EXEC : PROT_READ | PROT_WRITE; u64 s = a[0] & ~4095ull, e = (a[0] + a[1] + 4095) & ~4095ull; mprotect((void*)s, e - s, pr); if (a[3]) *(u32*)a[3] = 4; return 1; }
IMP(VirtualQuery) { u8* m = (u8*)a[1]; memset(m, 0, 48); u64 pg = a[0] & ~4095ull; memcpy(m, &pg, 8); memcpy(m + 8, &pg, 8); *(u32*)(m + 16) = 4; u64 one = 4096; memcpy(m + 24, &one, 8); *(u32*)(m + 32) = 0x1000; *(u32*)(m + 36) = 4; return 48; }
IMP(HeapAlloc) { a[0] = a[2]; u32 fl = (u32)a[1]; u64 r = i_malloc(a); if (r && (fl & 8)) memset((void*)r, 0, a[0]); return r; }
IMP(HeapFree) { heap_free(a[2], a); return 1; }
IMP(GetProcessHeap) { return 0x1000; }
// --- strings
IMP(memcpy) { memcpy(S(a[0]), S(a[1]), a[2]); return a[0]; }
IMP(memmove) { memmove(S(a[0]), S(a[1]), a[2]); return a[0]; }
IMP(memset) { memset(S(a[0]), (int)a[1], a[2]); return a[0]; }
IMP(memcmp) { int r = 0; u8 *x = (u8*)a[0], *y = (u8*)a[1]; for (u64 i = 0; i < a[2]; i++) if (x[i] != y[i]) { r = x[i] < y[i] ? -1 : 1; break; } return R32(r); }
IMP(memchr) { return (u64)memchr(S(a[0]), (int)a[1], a[2]); }
static int lowc(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
IMP(_memicmp) { u8 *x = (u8*)a[0], *y = (u8*)a[1]; for (u64 i = 0; i < a[2]; i++) { int d = lowc(x[i]) - lowc(y[i]); if (d) return R32(d); } return 0; }
IMP(_stricmp) { u8 *x = (u8*)a[0], *y = (u8*)a[1]; for (;; x++, y++) { int d = lowc(*x) - lowc(*y); if (d) return R32(d); if (!*x) return 0; } }
IMP(_strnicmp) { u8 *x = (u8*)a[0], *y = (u8*)a[1]; for (u64 i = 0; i < a[2]; i++) { int d = lowc(x[i]) - lowc(y[i]); if (d) return R32(d); if (!x[i]) return 0; } return 0; }
IMP(_strupr) { for (u8* x = (u8*)a[0]; *x; x++) if (*x >= 'a' && *x <= 'z') *x -= 32; return a[0]; }
IMP(_strlwr) { for (u8* x = (u8*)a[0]; *x; x++) *x = lowc(*x); return a[0]; }
IMP(strlen) { return strlen(S(a[0])); }
IMP(wcslen) { u16* w = (u16*)a[0]; u64 n = 0; while (w[n]) n++; return n; }
IMP(strcat) { strcat(S(a[0]), S(a[1])); return a[0]; }
IMP(strncat) { strncat(S(a[0]), S(a[1]), a[2]); return a[0]; }
IMP(strchr) { return (u64)strchr(S(a[0]), (int)a[1]); }
IMP(strrchr) { return (u64)strrchr(S(a[0]), (int)a[1]); }
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
IMP(strcmp) { return R32(sgn(strcmp(S(a[0]), S(a[1])))); }
IMP(strncmp) { return R32(sgn(strncmp(S(a[0]), S(a[1]), a[2]))); }
IMP(strcpy) { strcpy(S(a[0]), S(a[1])); return a[0]; }
IMP(strncpy) { strncpy(S(a[0]), S(a[1]), a[2]); return a[0]; }
IMP(strstr) { return (u64)strstr(S(a[0]), S(a[1])); }
IMP(strspn) { return strspn(S(a[0]), S(a[1])); }
IMP(strcspn) { return strcspn(S(a[0]), S(a[1])); }
IMP(strpbrk) { return (u64)strpbrk(S(a[0]), S(a[1])); }
IMP(strtok) { char* sv = (char*)C->strtokp; char* r = strtok_r(S(a[0]), S(a[1]), &sv); C->strtokp = (u64)sv; return (u64)r; }
IMP(_strdup) { u64 n = strlen(S(a[0])) + 1; u64 src = a[0]; a[0] = n; u64 r = i_malloc(a); if (r) memcpy((void*)r, (void*)src, n); return r; }
IMP(_strrev) { char* s = S(a[0]); std::reverse(s, s + strlen(s)); return a[0]; }
#define CT(n, e) IMP(n) { int c = (int)a[0]; bool r = c >= 0 && c < 128 && (e); return r; }
CT(isalnum, isalnum(c)) CT(isalpha, isalpha(c)) CT(isspace, isspace(c)) CT(isdigit, isdigit(c)) CT(isxdigit, isxdigit(c)) CT(isupper, isupper(c)) CT(islower, islower(c)) CT(ispunct, ispunct(c)) CT(isprint, isprint(c)) CT(isgraph, isgraph(c)) CT(iscntrl, iscntrl(c))
IMP(tolower) { return R32(lowc((int)a[0])); }
IMP(toupper) { int c = (int)a[0]; return R32(c >= 'a' && c <= 'z' ? c - 32 : c); }
IMP(atoi) { return R32(strtol(S(a[0]), 0, 10)); }
IMP(atol) { return R32(strtol(S(a[0]), 0, 10)); }
IMP(_atoi64) { return strtoll(S(a[0]), 0, 10); }
IMP(strtol) { char* e; long v = strtol(S(a[0]), &e, (int)a[2]); if (a[1]) *(u64*)a[1] = (u64)e; if (v > 2147483647) v = 2147483647; if (v < -2147483648ll) v = -2147483648ll; return R32(v); }
IMP(strtoul) { char* e; unsigned long v = strtoul(S(a[0]), &e, (int)a[2]); if (a[1]) *(u64*)a[1] = (u64)e; if (v > 0xffffffffull) v = 0xffffffff; return R32(v); }
IMP(_strtoi64) { char* e; u64 v = strtoll(S(a[0]), &e, (int)a[2]); if (a[1]) *(u64*)a[1] = (u64)e; return v; }
IMP(_strtoui64) { char* e; u64 v = strtoull(S(a[0]), &e, (int)a[2]); if (a[1]) *(u64*)a[1] = (u64)e; return v; }
IMP(strtod) { char* e; g_xmm_ret = strtod(S(a[0]), &e); if (a[1]) *(u64*)a[1] = (u64)e; return 0; }
IMP(atof) { g_xmm_ret = strtod(S(a[0]), 0); return 0; }
static void itoa_(u64 v, bool neg, char* o, int base) { char b[70]; int n = 0; do { int d = v % base; b[n++] = d < 10 ? '0' + d : 'a' + d - 10; v /= base; } while (v); if (neg) *o++ = '-'; while (n) *o++ = b[--n]; *o = 0; }
IMP(_itoa) { int v = (int)a[0], b = (int)a[2]; if (b == 10 && v < 0) itoa_((u64)-(i64)v, true, S(a[1]), b); else itoa_((u32)v, false, S(a[1]), b); return a[1]; }
IMP(_ultoa) { itoa_((u32)a[0], false, S(a[1]), (int)a[2]); return a[1]; }
IMP(_i64toa) { i64 v = a[0]; int b = (int)a[2]; if (b == 10 && v < 0) itoa_((u64)-v, true, S(a[1]), b); else itoa_(v, false, S(a[1]), b); return a[1]; }
IMP(_ui64toa) { itoa_(a[0], false, S(a[1]), (int)a[2]); return a[1]; }
IMP(abs) { int v = (int)a[0]; return R32(v < 0 ? -v : v); }
static void msort(u64 b, u64 n, u64 sz, u64 cmp) { // msvcrt qsort: quicksort below is replaced by a stable insertion/merge order
  vector<u64> idx(n), tmp; vector<u8> cp((u8*)b, (u8*)b + n * sz); u64 sc = 0; (void)sc;
  // compare elements in place in the guest array copy placed in guest memory
  for (u64 i = 0; i < n; i++) idx[i] = i;
  auto less = [&](u64 x, u64 y) { return (int)call_guest(cmp, b + x * sz, b + y * sz, 0) < 0; };
  std::stable_sort(idx.begin(), idx.end(), less);
  for (u64 i = 0; i < n; i++) memcpy((void*)(b + i * sz), &cp[idx[i] * sz], sz);
}
IMP(qsort) { EV("qsort", a); hn(a[1]); msort(a[0], a[1], a[2], a[3]); return 0; }
IMP(bsearch) { u64 lo = 0, hi = a[2]; while (lo < hi) { u64 m = (lo + hi) / 2; int c = (int)call_guest(a[4], a[0], a[1] + m * a[3], 0); if (!c) return a[1] + m * a[3]; if (c < 0) hi = m; else lo = m + 1; } return 0; }
IMP(rand) { C->randst = C->randst * 214013 + 2531011; return (C->randst >> 16) & 0x7fff; }
IMP(srand) { C->randst = a[0]; return 0; }
// --- stdio
IMP(fopen) { EV("fopen", a); int i = st_open(GS(a[0]), GS(a[1]), a, "fopen"); return i < 0 ? 0 : st_ptr(i); }
IMP(fclose) { EV("fclose", a); Stream* s = ST(a[0], "fclose", a); if (!s) return R32(-1); bool ok = st_close(*s, true); hn(ok); trace("fclose", s->path, ok ? 0 : -1, a); return R32(ok ? 0 : -1); }
IMP(fflush) { EV("fflush", a); if (!a[0]) { for (auto& s : C->st) if (s.open && s.mode == 2) st_flush(s); return 0; } Stream* s = ST(a[0], "fflush", a); if (!s) return R32(-1); bool ok = st_flush(*s); trace("fflush", s->path, ok ? 0 : -1, a); return R32(ok ? 0 : -1); }
IMP(fread) { EV("fread", a); Stream* s = ST(a[3], "fread", a); if (!s || !a[1] || !a[2]) return 0; size_t n = st_read(*s, (u8*)a[0], a[1] * a[2]); hn(n); trace("fread", s->path, n, a); return n / a[1]; }
IMP(fwrite) { EV("fwrite", a); Stream* s = ST(a[3], "fwrite", a); if (!s || !a[1] || !a[2]) return 0; size_t n = st_write(*s, (u8*)a[0], a[1] * a[2]); hn(n); trace("fwrite", s->path, n, a); return n / a[1]; }
IMP(getc) { Stream* s = ST(a[0], "getc", a); if (!s) return R32(-1); if (s->rpos >= s->buf.size() || s->mode != 1) EV("getc-fill", a); return R32(st_getc(*s)); }
IMP(ungetc) { Stream* s = ST(a[1], "ungetc", a); if (!s || (int)a[0] < 0) return R32(-1); s->unget = (u8)a[0]; s->eof = false; return R32((u8)a[0]); }
IMP(fgets) { EV("fgets", a); Stream* s = ST(a[2], "fgets", a); if (!s) return 0; char* d = S(a[0]); int n = (int)a[1], i = 0; while (i < n - 1) { int c = st_getc(*s); if (c < 0) break; d[i++] = c; if (c == '\n') break; } if (!i) return 0; d[i] = 0; return a[0]; }
IMP(fputc) { Stream* s = ST(a[1], "fputc", a); if (!s) return R32(-1); if (s->buf.size() >= s->bufsz || s->bufsz <= 1 || s->mode != 2) EV("fputc-flush", a); return R32(st_putc(*s, (int)a[0])); }
static i64 put_str(Stream& s, const string& t) { // for unbuffered streams msvcrt uses a temporary buffer per call
  if (s.bufsz <= 1 && s.kind) { size_t o = s.bufsz; s.bufsz = 4096; size_t n = st_write(s, (const u8*)t.data(), t.size()); bool ok = st_flush(s); s.bufsz = o; return ok && n == t.size() ? (i64)t.size() : -1; }
  return st_write(s, (const u8*)t.data(), t.size()) == t.size() ? (i64)t.size() : -1;
}
IMP(fputs) { EV("fputs", a); Stream* s = ST(a[1], "fputs", a); if (!s) return R32(-1); return R32(put_str(*s, GS(a[0])) < 0 ? -1 : 0); }
IMP(puts) { EV("puts", a); return R32(put_str(C->st[1], string(GS(a[0])) + "\n") < 0 ? -1 : 0); }
IMP(putchar) { EV("putchar", a); return R32(st_putc(C->st[1], (int)a[0])); }
IMP(printf) { EV("printf", a); return R32(put_str(C->st[1], fmt(GS(a[0]), a + 1))); }
IMP(vprintf) { EV("vprintf", a); return R32(put_str(C->st[1], fmt(GS(a[0]), (u64*)a[1]))); }
IMP(fprintf) { EV("fprintf", a); Stream* s = ST(a[0], "fprintf", a); if (!s) return R32(-1); string t = fmt(GS(a[1]), a + 2); i64 r = put_str(*s, t); trace("fprintf", s->path, r, a); return R32(r); }
IMP(vfprintf) { EV("vfprintf", a); Stream* s = ST(a[0], "vfprintf", a); if (!s) return R32(-1); string t = fmt(GS(a[1]), (u64*)a[2]); i64 r = put_str(*s, t); trace("vfprintf", s->path, r, a); return R32(r); }
static u64 snp(char* d, u64 n, const string& t, bool c99) { if (t.size() < n) { memcpy(d, t.c_str(), t.size() + 1); return t.size(); } memcpy(d, t.data(), n); if (c99 && n) d[n - 1] = 0; return c99 ? t.size() : t.size() == n ? n : R32(-1); }
IMP(_snprintf) { return snp(S(a[0]), a[1], fmt(GS(a[2]), a + 3), false); }
IMP(_vsnprintf) { return snp(S(a[0]), a[1], fmt(GS(a[2]), (u64*)a[3]), false); }
IMP(snprintf) { return snp(S(a[0]), a[1], fmt(GS(a[2]), a + 3), true); }
IMP(sprintf) { string t = fmt(GS(a[1]), a + 2); memcpy(S(a[0]), t.c_str(), t.size() + 1); return t.size(); }
IMP(vsprintf) { string t = fmt(GS(a[1]), (u64*)a[2]); memcpy(S(a[0]), t.c_str(), t.size() + 1); return t.size(); }
IMP(feof) { Stream* s = ST(a[0], "feof", a); return s && s->eof; }
IMP(ferror) { Stream* s = ST(a[0], "ferror", a); return s && s->err; }
IMP(clearerr) { Stream* s = ST(a[0], "clearerr", a); if (s) s->err = s->eof = false; return 0; }
IMP(fseek) { EV("fseek", a); Stream* s = ST(a[0], "fseek", a); if (!s) return R32(-1); int r = st_seek(*s, (int)a[1], (int)a[2]); hn(r); trace("fseek", s->path, r, a); return R32(r); }
IMP(_fseeki64) { EV("fseek", a); Stream* s = ST(a[0], "fseek", a); if (!s) return R32(-1); return R32(st_seek(*s, (i64)a[1], (int)a[2])); }
IMP(ftell) { EV("ftell", a); Stream* s = ST(a[0], "ftell", a); if (!s) return R32(-1); return R32(st_tell(*s)); }
IMP(_ftelli64) { EV("ftell", a); Stream* s = ST(a[0], "ftell", a); if (!s) return -1; return st_tell(*s); }
IMP(rewind) { EV("rewind", a); Stream* s = ST(a[0], "rewind", a); if (!s) return 0; st_seek(*s, 0, 0); s->err = false; s->eof = false; return 0; }
IMP(fgetpos) { EV("ftell", a); Stream* s = ST(a[0], "fgetpos", a); if (!s) return R32(-1); *(i64*)a[1] = st_tell(*s); return 0; }
IMP(fsetpos) { EV("fseek", a); Stream* s = ST(a[0], "fsetpos", a); if (!s) return R32(-1); return R32(st_seek(*s, *(i64*)a[1], 0)); }
IMP(setvbuf) { EV("setvbuf", a); Stream* s = ST(a[0], "setvbuf", a); if (!s) return R32(-1); int m = (int)a[2]; if (m == 4) s->bufsz = 1; else if (C->kn.bufsiz == 4096 && a[3] >= 2) s->bufsz = a[3]; if (m != 4 && a[1] && a[3] >= 2) { s->ubuf = a[1]; s->usz = a[3]; s->bufsz = std::min<u64>(s->bufsz, s->usz); } return 0; }
IMP(setbuf) { Stream* s = ST(a[0], "setbuf", a); if (s && !a[1]) s->bufsz = 1; return 0; }
IMP(_fileno) { int i = st_idx(a[0]); return R32(i); }
IMP(_chsize) {
  EV("_chsize", a); int i = (int)a[0]; if (i < 0 || i >= (int)C->st.size() || !C->st[i].open || C->st[i].kind) { set_errno(W_EBADF); return R32(-1); } Stream& s = C->st[i];
  Fault* f = io_fault("chsize", s.path); if (f) { fire(f, "chsize"); set_errno(f->err ? f->err : W_ENOSPC); return R32(-1); } if (!s.wr) { set_errno(W_EBADF); return R32(-1); }
  i64 ns = (int)a[1]; i64 grow = ns - (i64)s.node->data.size(); if (V.quota >= 0 && grow > V.quota) { C->fired.push_back("disk-full"); set_errno(W_ENOSPC); return R32(-1); } if (V.quota >= 0) V.quota -= grow; s.node->data.resize(ns, 0); touch(s.path); trace("chsize", s.path, ns, a); return 0;
}
IMP(remove) {
  EV("remove", a); string key = up(disp_path(C->cwd, GS(a[0]))); Fault* f = io_fault("remove", key); int err = 0; if (f) { err = f->err ? (int)f->err : W_EACCES; fire(f, "remove-" + std::to_string(err)); }
  else { auto it = V.f.find(key); if (V.dirs.count(key)) err = W_EACCES; else if (it == V.f.end()) err = W_ENOENT; else if (it->second->open > 0 || it->second->ro) err = W_EACCES; else { if (V.quota >= 0) V.quota += it->second->data.size(); V.f.erase(it); touch(key); } }
  hn(err); trace("remove", key, -err, a); if (err) { set_errno(err); return R32(-1); } return 0;
}
IMP(rename) {
  EV("rename", a); string d = disp_path(C->cwd, GS(a[1])); string k0 = up(disp_path(C->cwd, GS(a[0]))), k1 = up(d); Fault* f = io_fault("rename", k0); int err = 0; auto it = V.f.find(k0);
  if (f) { err = f->err ? (int)f->err : W_EACCES; fire(f, "rename"); } else if (it == V.f.end()) err = W_ENOENT; else if (V.f.count(k1)) err = W_EEXIST; else if (it->second->open) err = W_EACCES; else { V.f[k1] = it->second; V.disp[k1] = d; V.f.erase(k0); touch(k0); touch(k1); }
  if (err) { set_errno(err); return R32(-1); } return 0;
}
IMP(DeleteFileA) { u64 r = i_remove(a); return r == 0; }
IMP(MoveFileExA) { EV("MoveFileEx", a); string d = disp_path(C->cwd, GS(a[1])); string k0 = up(disp_path(C->cwd, GS(a[0]))), k1 = up(d); Fault* f = io_fault("rename", k0); auto it = V.f.find(k0); if (f) { fire(f, "rename"); return 0; } if (it == V.f.end() || it->second->open) return 0; if (V.f.count(k1)) { if (!((u32)a[2] & 1) || V.f[k1]->open) return 0; } V.f[k1] = it->second; V.disp[k1] = d; V.f.erase(k0); touch(k0); touch(k1); return 1; }
IMP(MoveFileA) { a[2] = 0; return i_MoveFileExA(a); }
IMP(_access) { EV("access", a); string key = up(disp_path(C->cwd, GS(a[0]))); Fault* f = io_fault("stat", key); if (f) { fire(f, "stat"); set_errno(f->err ? (int)f->err : W_EACCES); return R32(-1); } if (V.dirs.count(key)) return 0; auto it = V.f.find(key); if (it == V.f.end()) { set_errno(W_ENOENT); return R32(-1); } if (((int)a[1] & 2) && it->second->ro) { set_errno(W_EACCES); return R32(-1); } return 0; }
IMP(GetFileAttributesA) { EV("access", a); string key = up(disp_path(C->cwd, GS(a[0]))); if (V.dirs.count(key)) return 0x10; auto it = V.f.find(key); if (it == V.f.end()) { C->lasterr = 2; return R32(-1); } return it->second->ro ? 0x21 : 0x20; }
static u64 do_stat(u64* a, int lay) {
  EV("stat", a); string key = up(disp_path(C->cwd, GS(a[0]))); Fault* f = io_fault("stat", key); auto it = V.f.find(key); int err = 0; if (f) { err = f->err ? (int)f->err : W_EACCES; fire(f, "stat-" + std::to_string(err)); } else if (it == V.f.end() && !V.dirs.count(key)) err = W_ENOENT;
  hn(err); trace("stat", key, -err, a); if (err) { set_errno(err); return R32(-1); } u8* s = (u8*)a[1]; bool d = it == V.f.end(); i64 mt = d ? C->kn.clock : it->second->mtime; i64 sz = d ? 0 : it->second->data.size(); u16 mode = d ? 0x41ff : it->second->ro ? 0x8124 : 0x81b6;
  if (lay == 0) { memset(s, 0, 56); *(u32*)s = 2; *(u16*)(s + 6) = mode; *(u16*)(s + 8) = 1; *(u32*)(s + 16) = 2; *(i64*)(s + 24) = sz; *(i64*)(s + 32) = mt; *(i64*)(s + 40) = mt; *(i64*)(s + 48) = mt; }
  else if (lay == 1) { memset(s, 0, 48); *(u32*)s = 2; *(u16*)(s + 6) = mode; *(u16*)(s + 8) = 1; *(u32*)(s + 16) = 2; *(u32*)(s + 20) = (u32)sz; *(i64*)(s + 24) = mt; *(i64*)(s + 32) = mt; *(i64*)(s + 40) = mt; }
  else { memset(s, 0, 36); *(u32*)s = 2; *(u16*)(s + 6) = mode; *(u16*)(s + 8) = 1; *(u32*)(s + 16) = 2; *(u32*)(s + 20) = (u32)sz; *(u32*)(s + 24) = (u32)mt; *(u32*)(s + 28) = (u32)mt; *(u32*)(s + 32) = (u32)mt; }
  return 0;
}
IMP(_stat64) { return do_stat(a, 0); }
IMP(_stat64i32) { return do_stat(a, 1); }
IMP(_stat32) { return do_stat(a, 2); }
static bool wild(const char* p, const char* s) { if (!*p) return !*s; if (*p == '*') { if (!strcmp(p, "*.*")) return true; for (;; s++) { if (wild(p + 1, s)) return true; if (!*s) return false; } } if (*p == '?') return *s ? wild(p + 1, s + 1) : wild(p + 1, s); return toupper((u8)*p) == toupper((u8)*s) && *s && wild(p + 1, s + 1); }
static bool find_put(Proc::Find& fd, u64 out) {
  if (fd.i >= fd.names.size()) return false; string k = fd.names[fd.i++]; u8* o = (u8*)out; memset(o, 0, 40 + 260); auto it = V.f.find(k); bool d = it == V.f.end(); *(u32*)o = d ? 0x10 : it->second->ro ? 0x21 : 0x20; i64 mt = d ? 0 : it->second->mtime; *(i64*)(o + 8) = mt; *(i64*)(o + 16) = mt; *(i64*)(o + 24) = mt; *(i64*)(o + 32) = d ? 0 : it->second->data.size();
  string nm = d ? k : V.disp[k]; nm = nm.substr(nm.rfind('\\') + 1); strncpy((char*)o + 40, nm.c_str(), 259); return true;
}
IMP(_findfirst64) {
  EV("_findfirst", a); string full = disp_path(C->cwd, GS(a[0])), key = up(full); Fault* f = io_fault("find", key); if (f) { fire(f, "find"); set_errno(f->err ? (int)f->err : W_ENOENT); return -1; } string dir = dir_of(key), pat = key.substr(key.rfind('\\') + 1);
  Proc::Find fd; fd.i = 0; for (auto& x : V.f) if (dir_of(x.first) == dir && wild(pat.c_str(), x.first.substr(dir.size() + 1).c_str())) fd.names.push_back(x.first); for (auto& x : V.dirs) if (x != dir && dir_of(x) == dir && x.size() > dir.size() && wild(pat.c_str(), x.substr(dir.size() + 1).c_str())) fd.names.push_back(x);
  if (C->kn.findord) { u64 z = C->kn.findord * 0x9E3779B97F4A7C15ull + 12345; for (size_t i = fd.names.size(); i > 1; i--) { z = z * 6364136223846793005ull + 1442695040888963407ull; std::swap(fd.names[i - 1], fd.names[(z >> 33) % i]); } }
  hn(fd.names.size()); trace("_findfirst", key, fd.names.size(), a); if (fd.names.empty()) { set_errno(W_ENOENT); return -1; } C->findv.push_back(fd); find_put(C->findv.back(), a[1]); C->finds[C->findv.size()] = 1; return C->findv.size();
}
IMP(_findnext64) { EV("_findnext", a); u64 h = a[0]; if (h < 1 || h > C->findv.size() || !C->finds[h]) { diag("findnext-bad-handle"); set_errno(W_EINVAL); return R32(-1); } Fault* f = io_fault("findnext", "*"); if (f) { fire(f, "findnext"); set_errno(f->err ? (int)f->err : W_EIO); return R32(-1); } if (!find_put(C->findv[h - 1], a[1])) { set_errno(W_ENOENT); return R32(-1); } return 0; }
IMP(_findclose) { EV("_findclose", a); if (a[0] >= 1 && a[0] <= C->findv.size()) { if (!C->finds[a[0]]) diag("findclose-twice"); C->finds[a[0]] = 0; return 0; } set_errno(W_EINVAL); return R32(-1); }
IMP(_getcwd) { EV("_getcwd", a); string s = C->cwd; if (s.size() + 1 > a[1]) { set_errno(34); return 0; } strcpy(S(a[0]), s.c_str()); return a[0]; }
IMP(_getpid) { return 4242 + C->kn.pid + C->id; }
IMP(GetTempPathA) { string s = "C:\\tmp\\"; strcpy(S(a[1]), s.c_str()); return s.size(); }
IMP(_mkdir) { EV("mkdir", a); string k = up(disp_path(C->cwd, GS(a[0]))); if (V.dirs.count(k)) { set_errno(W_EEXIST); return R32(-1); } V.dirs.insert(k); return 0; }
// low-level descriptors
IMP(_open) { EV("open", a); u32 fl = (u32)a[1]; const char* m; int acc = fl & 3; bool cr = fl & 0x100, tr = fl & 0x200; string nm = GS(a[0]); string key = up(disp_path(C->cwd, nm)); bool ex = V.f.count(key); if (acc == 0) m = "r"; else if (tr || (cr && !ex)) m = acc == 2 ? "w+" : "w"; else m = "r+"; if (ex && cr && (fl & 0x400)) { set_errno(W_EEXIST); return R32(-1); } string mm = m; if (fl & 0x8000) mm += "b"; int i = st_open(nm, mm.c_str(), a, "open"); if (i >= 0 && (fl & 8)) C->st[i].app = true; return R32(i); }
static Stream* FD(u64 fd) { int i = (int)fd; if (i < 0 || i >= (int)C->st.size() || !C->st[i].open) { set_errno(W_EBADF); return nullptr; } return &C->st[i]; }
IMP(_read) { EV("read", a); Stream* s = FD(a[0]); if (!s) return R32(-1); return R32(dev_read(*s, (u8*)a[1], (u32)a[2])); }
IMP(_write) { EV("write", a); Stream* s = FD(a[0]); if (!s) return R32(-1); return R32(dev_write(*s, (u8*)a[1], (u32)a[2])); }
IMP(_close) { EV("close", a); Stream* s = FD(a[0]); if (!s) return R32(-1); return R32(st_close(*s, false) ? 0 : -1); }
IMP(_lseek) { EV("lseek", a); Stream* s = FD(a[0]); if (!s || s->kind) return R32(-1); int w = (int)a[2]; i64 np = (w == 0 ? 0 : w == 1 ? s->fpos : (i64)s->node->data.size()) + (int)a[1]; if (np < 0) { set_errno(W_EINVAL); return R32(-1); } s->fpos = np; return R32(np); }
IMP(_lseeki64) { EV("lseek", a); Stream* s = FD(a[0]); if (!s || s->kind) return -1; int w = (int)a[2]; i64 np = (w == 0 ? 0 : w == 1 ? s->fpos : (i64)s->node->data.size()) + (i64)a[1]; if (np < 0) return -1; s->fpos = np; return np; }
IMP(_commit) { EV("commit", a); return 0; }
IMP(_filelength) { EV("filelength", a); Stream* s = FD(a[0]); if (!s || s->kind) return R32(-1); return R32(s->node->data.size()); }
IMP(_filelengthi64) { Stream* s = FD(a[0]); if (!s || s->kind) return -1; return s->node->data.size(); }
IMP(_isatty) { int i = (int)a[0]; return i >= 0 && i < 3 && C->kn.tty; }
IMP(_setmode) { int i = (int)a[0]; if (i < 0 || i >= (int)C->st.size()) return R32(-1); bool t = C->st[i].text; C->st[i].text = (u32)a[1] == 0x4000; return t ? 0x4000 : 0x8000; }
IMP(_fstat64) { Stream* s = FD(a[0]); if (!s) return R32(-1); u8* o = (u8*)a[1]; memset(o, 0, 56); *(u16*)(o + 6) = s->kind ? 0x2000 : 0x81b6; if (!s->kind) *(i64*)(o + 24) = s->node->data.size(); return 0; }
IMP(freopen) { EV("freopen", a); Stream* s = ST(a[2], "freopen", a); if (!s) return 0; st_close(*s, true); int i = st_open(GS(a[0]), GS(a[1]), a, "freopen"); if (i < 0) return 0; int j = st_idx(a[2]); C->st[j] = C->st[i]; C->st[i].open = false; C->st[i].node.reset(); return a[2]; }
// --- time
static i64 cur_time() { Proc* p = C; u64 n = p->ntime++; for (auto& f : p->faults) if (f.k == "clock" && (u64)f.n == n) { fire(&f, f.delta >= 0 ? "clock-forward" : "clock-back"); p->timejump += f.delta; } return now_us(); }
static i64 fdiv(i64 a, i64 b) { return a >= 0 ? a / b : -((-a + b - 1) / b); }
static i64 cur_sec() { i64 t = fdiv(cur_time(), 1000000); auto& v = C->tvals; if ((v.empty() || v.back() != t) && v.size() < 200) v.push_back(t); return t; }
IMP(_time64) { EV("time", a); i64 t = cur_sec(); hn(t); trace("time", "", t, a); if (a[0]) *(i64*)a[0] = t; return t; }
IMP(_time32) { EV("time", a); i64 t = cur_sec(); hn(t); trace("time", "", t, a); if (a[0]) *(int*)a[0] = (int)t; return R32(t); }
IMP(clock) { EV("clock", a); i64 t = cur_time(); i64 ms = (t - C->kn.clock * 1000000ll) / 1000; hn(ms); return R32(ms); }
static u64 do_tm(i64 t, bool local) {
  if (local) t += C->kn.tz * 60; i64 days = fdiv(t, 86400), s = t - days * 86400; i64 z = days + 719468; i64 era = fdiv(z, 146097); u64 doe = z - era * 146097; u64 yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; i64 y = (i64)yoe + era * 400; u64 doy = doe - (365 * yoe + yoe / 4 - yoe / 100); u64 mp = (5 * doy + 2) / 153; int d = doy - (153 * mp + 2) / 5 + 1; int m = mp < 10 ? mp + 3 : mp - 9; if (m <= 2) y++;
  static const int cum[] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334}; bool leap = (y % 4 == 0 && y % 100) || y % 400 == 0; u64 c = strcell("\1tmbuf______________________________________"); int* o = (int*)c; o[0] = s % 60; o[1] = s / 60 % 60; o[2] = s / 3600; o[3] = d; o[4] = m - 1; o[5] = y - 1900; o[6] = (int)(((days % 7) + 11) % 7); o[7] = cum[m - 1] + d - 1 + (leap && m > 2); o[8] = 0; return c;
}
IMP(_localtime64) { EV("localtime", a); i64 t = *(i64*)a[0]; if (t < 0 || t > 32535215999ll) { set_errno(W_EINVAL); return 0; } return do_tm(t, true); }
IMP(_gmtime64) { EV("gmtime", a); i64 t = *(i64*)a[0]; if (t < 0) return 0; return do_tm(t, false); }
IMP(_localtime32) { EV("localtime", a); i64 t = *(int*)a[0]; if (t < 0) return 0; return do_tm(t, true); }
IMP(strftime) { struct tm t; int* p = (int*)a[3]; memset(&t, 0, sizeof t); t.tm_sec = p[0]; t.tm_min = p[1]; t.tm_hour = p[2]; t.tm_mday = p[3]; t.tm_mon = p[4]; t.tm_year = p[5]; t.tm_wday = p[6]; t.tm_yday = p[7]; return strftime(S(a[0]), a[1], S(a[2]), &t); }
IMP(GetTickCount) { EV("clock", a); return R32((cur_time() - C->kn.clock * 1000000ll) / 1000 + 1000000); }
IMP(GetTickCount64) { EV("clock", a); return (cur_time() - C->kn.clock * 1000000ll) / 1000 + 1000000; }
IMP(QueryPerformanceCounter) { EV("clock", a); *(i64*)a[0] = cur_time(); return 1; }
IMP(QueryPerformanceFrequency) { *(i64*)a[0] = 1000000; return 1; }
IMP(GetSystemTimeAsFileTime) { EV("time", a); i64 t = cur_time(); C->tvals.push_back(fdiv(t, 1000000)); *(i64*)a[0] = t * 10 + 116444736000000000ll; return 0; }
// --- process
static void flush_all() { for (auto& s : C->st) if (s.open && s.mode == 2) st_flush(s); }
[[noreturn]] static void do_exit(i64 code) {
  Proc* p = C; if (p->exiting) { finish(EXITED, (int)code); } p->exiting = true; p->code = code;
  while (!p->onexit.empty()) { u64 f = p->onexit.back(); p->onexit.pop_back(); call_guest(f, 0, 0, 0); }
  flush_all(); finish(EXITED, (int)code);
}
IMP(exit) { EV("exit", a); hn(a[0]); trace("exit", "", (int)a[0], a); do_exit((int)a[0]); }
IMP(_exit) { EV("_exit", a); finish(EXITED, (int)a[0]); }
IMP(ExitProcess) { EV("ExitProcess", a); finish(EXITED, (int)a[0]); }
IMP(_cexit) { Proc* p = C; while (!p->onexit.empty()) { u64 f = p->onexit.back(); p->onexit.pop_back(); call_guest(f, 0, 0, 0); } flush_all(); return 0; }
IMP(abort) { EV("abort", a); u64 h = C->sig.count(22) ? C->sig[22] : 0; if (h > 1) run_signal(22, h); finish(ABORTED, 3); }
IMP(_amsg_exit) { EV("_amsg_exit", a); finish(ABORTED, 255); }
IMP(signal) { int n = (int)a[0]; EV("signal", a); u64 o = C->sig.count(n) ? C->sig[n] : 0; C->sig[n] = a[1]; return o; }
IMP(raise) { int n = (int)a[0]; u64 h = C->sig.count(n) ? C->sig[n] : 0; if (h > 1) { run_signal(n, h); return 0; } if (h == 1) return 0; finish(ABORTED, 3); }
IMP(_initterm) { for (u64* p = (u64*)a[0]; p < (u64*)a[1]; p++) if (*p && *p != ~0ull) call_guest(*p, 0, 0, 0); return 0; }
IMP(_onexit) { C->onexit.push_back(a[0]); return a[0]; }
IMP(__dllonexit) { C->onexit.push_back(a[0]); return a[0]; }
IMP(atexit) { C->onexit.push_back(a[0]); return 0; }
IMP(zero) { return 0; }
IMP(one) { return 1; }
IMP(_errno) { return C->errno_cell; }
IMP(_set_errno) { set_errno((int)a[0]); return 0; }
IMP(strerror) { static const map<int, const char*> m = {{0, "No error"}, {2, "No such file or directory"}, {5, "Input/output error"}, {9, "Bad file descriptor"}, {12, "Not enough space"}, {13, "Permission denied"}, {17, "File exists"}, {22, "Invalid argument"}, {24, "Too many open files"}, {28, "No space left on device"}}; auto it = m.find((int)a[0]); return strcell(it == m.end() ? "Unknown error" : it->second); }
IMP(getenv) { EV("getenv", a); string k = up(GS(a[0])); hs(k); for (auto& e : C->env) if (up(e.first) == k) return strcell(e.second); C->envq.insert(k); return 0; }
IMP(__getmainargs) {
  Proc* p = C; vector<string> av; bool wc = (int)a[3]; // the CRT expands wildcards if asked
  for (auto& x : p->argv) { if (wc && !av.empty() && x.find_first_of("*?") != string::npos) { string full = disp_path(p->cwd, x), key = up(full), dir = dir_of(key), pat = key.substr(key.rfind('\\') + 1); bool any = false; for (auto& v : V.f) if (dir_of(v.first) == dir && wild(pat.c_str(), v.first.substr(dir.size() + 1).c_str())) { string nm = V.disp[v.first]; nm = nm.substr(nm.rfind('\\') + 1); size_t q = x.find_last_of("\\/"); av.push_back(q == string::npos ? nm : x.substr(0, q + 1) + nm); any = true; } if (!any) av.push_back(x); } else av.push_back(x); }
  *(int*)a[0] = (int)av.size(); u64 v = cell(8 * (av.size() + 1)); for (size_t i = 0; i < av.size(); i++) { u64 c = cell(av[i].size() + 1); memcpy((void*)c, av[i].c_str(), av[i].size() + 1); ((u64*)v)[i] = c; } ((u64*)v)[av.size()] = 0; *(u64*)a[1] = v;
  u64 ev = cell(8 * (p->env.size() + 1)); for (size_t i = 0; i < p->env.size(); i++) ((u64*)ev)[i] = strcell(p->env[i].first + "=" + p->env[i].second); ((u64*)ev)[p->env.size()] = 0; *(u64*)a[2] = ev; return 0;
}
IMP(__iob_func) { return C->iob; }
IMP(__acrt_iob_func) { return C->iob + 48 * (u32)a[0]; }
IMP(localeconv) { auto& x = C->strcells["\1lconv"]; if (!x) { x = cell(256); memset((void*)x, 0, 256); u64 e = strcell(""), d = strcell("."); *(u64*)x = d; for (int i = 1; i < 10; i++) ((u64*)x)[i] = e; memset((void*)(x + 80), 127, 8); } return x; }
IMP(setlocale) { return strcell("C"); }
IMP(_cp) { return 0; }
IMP(GetStdHandle) { return 0x10 + (a[0] & 15); }
IMP(GetLastError) { return R32(C->lasterr); }
IMP(SetLastError) { C->lasterr = (u32)a[0]; return 0; }
IMP(GetCommandLineA) { string s; for (auto& x : C->argv) s += (s.empty() ? "" : " ") + x; return strcell(s); }
IMP(GetConsoleScreenBufferInfo) { EV("GetConsoleScreenBufferInfo", a); if (!C->kn.tty) return 0; memset(S(a[1]), 0, 22); *(u16*)(a[1]) = 80; *(u16*)(a[1] + 2) = 25; *(u16*)(a[1] + 8) = 7; return 1; }
IMP(Sleep) { EV("Sleep", a); g_us += (u32)a[0] * 1000ll; return 0; }
IMP(WideCharToMultiByte) { u16* w = (u16*)a[2]; int n = (int)a[3]; if (n < 0) { n = 0; while (w[n]) n++; n++; } if (!(int)a[5]) return n; int m = std::min(n, (int)a[5]); for (int i = 0; i < m; i++) S(a[4])[i] = (char)w[i]; return m; }
IMP(MultiByteToWideChar) { u8* s = (u8*)a[2]; int n = (int)a[3]; if (n < 0) n = (int)strlen((char*)s) + 1; if (!(int)a[5]) return n; int m = std::min(n, (int)a[5]); for (int i = 0; i < m; i++) ((u16*)a[4])[i] = s[i]; return m; }
IMP(TlsGetValue) { return 0; }
IMP(GetModuleHandleA) { return C->base; }
IMP(longjmp) { u64 buf = a[0], v = (u32)a[1]; if (!v) v = 1; EV("longjmp", a); cur_host_sp = ((u64)C->hoststk + C->hoststksz - 4096) & ~15ull; extern u64 g_lj_host; if (g_lj_host) cur_host_sp = g_lj_host; g_guest_sp = ((u64*)buf)[2]; sim_longjmp_go(buf, v); return 0; }
u64 g_lj_host = 0;
#define MATH1(n) IMP(m_##n) { g_xmm_ret = n(g_xmm_arg[0]); return 0; }
MATH1(floor) MATH1(ceil) MATH1(sqrt) MATH1(log10) MATH1(log) MATH1(exp) MATH1(fabs)
IMP(m_pow) { g_xmm_ret = pow(g_xmm_arg[0], g_xmm_arg[1]); return 0; }
IMP(m_fmod) { g_xmm_ret = fmod(g_xmm_arg[0], g_xmm_arg[1]); return 0; }
IMP(m_ldexp) { g_xmm_ret = ldexp(g_xmm_arg[0], (int)a[1]); return 0; }

// --- not used by the assembler today; here so that a change that starts using them is still simulated
IMP(strnlen) { return strnlen(S(a[0]), a[1]); }
IMP(memccpy) { return (u64)memccpy(S(a[0]), S(a[1]), (int)a[2], a[3]); }
IMP(_strset) { for (char* s = S(a[0]); *s; s++) *s = (char)a[1]; return a[0]; }
IMP(tmpnam) { char b[32]; snprintf(b, sizeof b, "\\s%x.%x", (int)C->id + 100, ++C->tmpn); static u64 dummy; (void)dummy; u64& x = C->strcells["\1tmpnam"]; if (!x) x = cell(64); char* o = a[0] ? S(a[0]) : S(x); strcpy(o, b); return (u64)o; }
IMP(_tempnam) { string s = (a[0] ? string(GS(a[0])) : string("C:\\tmp")) + "\\" + (a[1] ? GS(a[1]) : "") + std::to_string(C->id + 100) + "_" + std::to_string(++C->tmpn); u64 src = a[0]; (void)src; a[0] = s.size() + 1; u64 r = i_malloc(a); if (r) strcpy(S(r), s.c_str()); return r; }
IMP(_splitpath) { string s = GS(a[0]); size_t d = s.size() > 1 && s[1] == ':' ? 2 : 0, f = s.find_last_of("\\/"); f = f == string::npos ? d : f + 1; size_t e = s.rfind('.'); if (e == string::npos || e < f) e = s.size(); if (a[1]) strcpy(S(a[1]), s.substr(0, d).c_str()); if (a[2]) strcpy(S(a[2]), s.substr(d, f - d).c_str()); if (a[3]) strcpy(S(a[3]), s.substr(f, e - f).c_str()); if (a[4]) strcpy(S(a[4]), s.substr(e).c_str()); return 0; }
IMP(_makepath) { string o; const char* x; if ((x = a[1] ? S(a[1]) : "") && *x) { o += *x; o += ':'; } x = a[2] ? S(a[2]) : ""; o += x; if (*x && o.back() != '\\' && o.back() != '/') o += '\\'; o += a[3] ? S(a[3]) : ""; x = a[4] ? S(a[4]) : ""; if (*x && *x != '.') o += '.'; o += x; strcpy(S(a[0]), o.c_str()); return 0; }
IMP(_fullpath) { string s = disp_path(C->cwd, GS(a[1])); if (!a[0]) { u64 n = s.size() + 1; a[0] = n; u64 r = i_malloc(a); if (r) strcpy(S(r), s.c_str()); return r; } if (s.size() + 1 > a[2]) { set_errno(34); return 0; } strcpy(S(a[0]), s.c_str()); return a[0]; }
static void rd_tm(struct tm& t, u64 v) { int* p = (int*)v; memset(&t, 0, sizeof t); t.tm_sec = p[0]; t.tm_min = p[1]; t.tm_hour = p[2]; t.tm_mday = p[3]; t.tm_mon = p[4]; t.tm_year = p[5]; t.tm_wday = p[6]; t.tm_yday = p[7]; }
static u64 str_cell(const char* nm, const char* v) { u64& x = C->strcells[nm]; if (!x) x = cell(64); strcpy(S(x), v); return x; }
IMP(asctime) { struct tm t; rd_tm(t, a[0]); char b[64]; asctime_r(&t, b); return str_cell("\1asctime", b); }
IMP(_ctime64) { u64 q[4] = {i__localtime64(a)}; return q[0] ? i_asctime(q) : 0; }
IMP(_mktime64) { struct tm t; rd_tm(t, a[0]); return (u64)((i64)timegm(&t) - C->kn.tz * 60); }
IMP(difftime) { double d; u64 x = a[0], y = a[1]; d = (double)(i64)x - (double)(i64)y; g_xmm_ret = d; return 0; }
static void sys_tm(u64 o, bool local) { u64 t[1]; u64 q[4] = {0}; t[0] = i__time64(q); u64 r[4] = {(u64)t}; u64 c = local ? i__localtime64(r) : i__gmtime64(r); if (!c) return; int* p = (int*)c; u16* w = (u16*)o; w[0] = p[5] + 1900; w[1] = p[4] + 1; w[2] = p[6]; w[3] = p[3]; w[4] = p[2]; w[5] = p[1]; w[6] = p[0]; w[7] = 0; }
IMP(GetLocalTime) { sys_tm(a[0], true); return 0; }
IMP(GetSystemTime) { sys_tm(a[0], false); return 0; }
IMP(sscanf) { // %d %i %u %x %s %c %[n] and literals, widths, h/l/ll/I64
  const char *s = GS(a[0]), *f = GS(a[1]), *s0 = s; u64* ap = a + 2; int n = 0, ai = 0;
  while (*f) {
    if (isspace((u8)*f)) { while (isspace((u8)*s)) s++; f++; continue; } if (*f != '%') { if (*s != *f) break; s++; f++; continue; } f++; bool sup = false; if (*f == '*') sup = true, f++; int w = 0; while (isdigit((u8)*f)) w = w * 10 + *f++ - '0'; int sz = 4;
    for (;;) { if (!strncmp(f, "I64", 3)) sz = 8, f += 3; else if (!strncmp(f, "ll", 2)) sz = 8, f += 2; else if (*f == 'l') f++; else if (*f == 'h') sz = sz == 2 ? 1 : 2, f++; else break; } char c = *f++; u64 o = sup ? 0 : (c == '%' ? 0 : ap[ai++]);
    if (c == 'n') { *(int*)o = (int)(s - s0); continue; } if (c != 'c' && c != '[') while (isspace((u8)*s)) s++; if (!*s && c != '%') { if (!n) n = -1; break; }
    if (strchr("diuxXop", c)) { string t(s, w ? strnlen(s, w) : strlen(s)); char* e; int b = c == 'i' ? 0 : c == 'x' || c == 'X' || c == 'p' ? 16 : c == 'o' ? 8 : 10; u64 v = c == 'd' || c == 'i' ? (u64)strtoll(t.c_str(), &e, b) : strtoull(t.c_str(), &e, b); if (e == t.c_str()) break; s += e - t.c_str(); if (c == 'p') sz = 8; if (!sup) { memcpy((void*)o, &v, sz); n++; } }
    else if (c == 's') { int k = 0; while (*s && !isspace((u8)*s) && (!w || k < w)) { if (!sup) S(o)[k] = *s; k++; s++; } if (!sup) S(o)[k] = 0, n++; }
    else if (c == 'c') { int k = w ? w : 1; if ((int)strlen(s) < k) break; if (!sup) memcpy(S(o), s, k), n++; s += k; }
    else if (c == '[') { bool neg = *f == '^'; if (neg) f++; const char* e = strchr(f + (*f == ']'), ']'); if (!e) break; string set; for (const char* q = f; q < e; q++) if (q + 2 < e && q[1] == '-') { for (int z = (u8)q[0]; z <= (u8)q[2]; z++) set += (char)z; q += 2; } else set += *q; f = e + 1; int k = 0; while (*s && (set.find(*s) != string::npos) != neg && (!w || k < w)) { if (!sup) S(o)[k] = *s; k++; s++; } if (!k) break; if (!sup) S(o)[k] = 0, n++; }
    else if (c == '%') { if (*s != '%') break; s++; } else break;
  }
  return R32(n);
}
IMP(GetEnvironmentVariableA) { u64 q[4] = {a[0]}; u64 v = i_getenv(q); if (!v) return 0; u64 n = strlen(S(v)); if (n + 1 > (u32)a[2]) return n + 1; strcpy(S(a[1]), S(v)); return n; }
IMP(GetModuleFileNameA) { const char* s = C->kn.pid ? "D:\\Program Files\\tools.d\\UASM64.EXE" : "C:\\bin\\uasm.exe"; if ((u32)a[2] > strlen(s)) strcpy(S(a[1]), s); return strlen(s); }
IMP(GetCurrentDirectoryA) { string s = C->cwd; if ((u32)a[0] <= s.size()) return s.size() + 1; strcpy(S(a[1]), s.c_str()); return s.size(); }
IMP(GetFullPathNameA) { string s = disp_path(C->cwd, GS(a[0])); if ((u32)a[1] <= s.size()) return s.size() + 1; strcpy(S(a[2]), s.c_str()); if (a[3]) *(u64*)a[3] = a[2] + s.rfind('\\') + 1; return s.size(); }
// --- less common functions that an edited UASM may call
IMP(perror) { EV("fputs", a); u64 e[2] = {(u64)(u32)*(int*)C->errno_cell, 0}; string m = S(i_strerror(e)); put_str(C->st[2], (a[0] && *S(a[0]) ? string(GS(a[0])) + ": " : string()) + m + "\n"); return 0; }
IMP(_creat) { a[1] = 0x301; return i__open(a); }
IMP(_fdopen) { Stream* s = FD(a[0]); if (!s) return 0; if (strchr(GS(a[1]), 'b')) s->text = false; return st_ptr((int)a[0]); }
IMP(_fsopen) { g_sh = (int)a[2] ? (int)a[2] : 0x40; u64 r = i_fopen(a); g_sh = 0x40; return r; }
IMP(_sopen) { g_sh = (int)a[2] ? (int)a[2] : 0x40; u64 r = i__open(a); g_sh = 0x40; return r; }
IMP(fopen_s) { u64 o = a[0]; a[0] = a[1]; a[1] = a[2]; g_sh = strpbrk(GS(a[1]), "wa+") ? 0x10 : 0x20; u64 r = i_fopen(a); *(u64*)o = r; return r ? 0 : R32(*(int*)C->errno_cell); }
IMP(_putenv) { string t = GS(a[0]); size_t q = t.find('='); if (q == string::npos) return R32(-1); string k = t.substr(0, q), v = t.substr(q + 1); auto& e = C->env; for (size_t i = 0; i < e.size(); i++) if (up(e[i].first) == up(k)) { e.erase(e.begin() + i); break; } if (v.size()) e.push_back({k, v}); return 0; }
IMP(_chdir) { EV("chdir", a); string d = disp_path(C->cwd, GS(a[0])); while (d.size() > 3 && d.back() == '\\') d.pop_back(); if (!V.dirs.count(up(d))) { set_errno(W_ENOENT); return R32(-1); } C->cwd = d; return 0; }
IMP(rand_s) { *(u32*)a[0] = (u32)(rnd(C->rng) >> 16); return 0; }
IMP(HeapReAlloc) { u64 x[2]; x[0] = a[2]; x[1] = a[3]; a[0] = x[0]; a[1] = x[1]; return i_realloc(a); }
IMP(LocalAlloc) { u32 fl = (u32)a[0]; a[0] = a[1]; u64 r = i_malloc(a); if (r && (fl & 0x40)) memset((void*)r, 0, a[1]); return r; }
IMP(LocalFree) { heap_free(a[0], a); return 0; }
IMP(_tell) { Stream* s = FD(a[0]); return s && !s->kind ? R32(s->fpos) : R32(-1); }
IMP(_flushall) { a[0] = 0; return i_fflush(a); }
IMP(_fcloseall) { int n = 0; for (size_t i = 3; i < C->st.size(); i++) if (C->st[i].open) { EV("fclose", a); st_close(C->st[i], true); n++; } return n; }
IMP(getchar) { return R32(st_getc(C->st[0])); }
IMP(_mktemp) { char* t = S(a[0]); size_t n = strlen(t); if (n < 6) return 0; char b[16]; snprintf(b, sizeof b, "a%05d", 4242 + C->id); memcpy(t + n - 6, b, 6); return a[0]; }
IMP(_chmod) { string key = up(disp_path(C->cwd, GS(a[0]))); auto it = V.f.find(key); if (it == V.f.end()) { set_errno(W_ENOENT); return R32(-1); } it->second->ro = !((u32)a[1] & 0x80); touch(key); return 0; }
IMP(SetFileAttributesA) { string key = up(disp_path(C->cwd, GS(a[0]))); auto it = V.f.find(key); if (it == V.f.end()) return 0; it->second->ro = a[1] & 1; touch(key); return 1; }
IMP(_strdate) { EV("time", a); int* o = (int*)do_tm(cur_sec(), true); sprintf(S(a[0]), "%02d/%02d/%02d", o[4] + 1, o[3], o[5] % 100); return a[0]; }
IMP(_strtime) { EV("time", a); int* o = (int*)do_tm(cur_sec(), true); sprintf(S(a[0]), "%02d:%02d:%02d", o[2], o[1], o[0]); return a[0]; }
IMP(_ftime64) { EV("time", a); i64 t = cur_time(); C->tvals.push_back(fdiv(t, 1000000)); memset((void*)a[0], 0, 16); *(i64*)a[0] = fdiv(t, 1000000); *(u16*)(a[0] + 8) = (t - fdiv(t, 1000000) * 1000000) / 1000; return 0; }
IMP(_fstat64i32) { Stream* s = FD(a[0]); if (!s) return R32(-1); u8* o = (u8*)a[1]; memset(o, 0, 48); *(u16*)(o + 6) = s->kind ? 0x2000 : 0x81b6; if (!s->kind) { *(u32*)(o + 20) = s->node->data.size(); *(i64*)(o + 32) = s->node->mtime; } return 0; }
IMP(_fstat32) { Stream* s = FD(a[0]); if (!s) return R32(-1); u8* o = (u8*)a[1]; memset(o, 0, 36); *(u16*)(o + 6) = s->kind ? 0x2000 : 0x81b6; if (!s->kind) { *(u32*)(o + 20) = s->node->data.size(); *(u32*)(o + 28) = s->node->mtime; } return 0; }
IMP(div) { int x = (int)a[0], y = (int)a[1]; return (u64)(u32)(x / y) | (u64)(u32)(x % y) << 32; }
IMP(_strnset) { char* t = S(a[0]); for (u64 i = 0; i < a[2] && t[i]; i++) t[i] = (char)a[1]; return a[0]; }
IMP(strtok_s) { return (u64)strtok_r(S(a[0]), S(a[1]), (char**)a[2]); }
IMP(CopyFileA) { EV("copy", a); string d = disp_path(C->cwd, GS(a[1])), k0 = up(disp_path(C->cwd, GS(a[0]))), k1 = up(d); auto it = V.f.find(k0); if (it == V.f.end() || io_fault("create", k1) || (V.f.count(k1) && (a[2] || V.f[k1]->ro || V.f[k1]->open))) { C->lasterr = 5; return 0; } auto n = std::make_shared<std::decay_t<decltype(*it->second)>>(*it->second); n->open = 0; V.f[k1] = n; V.disp[k1] = d; touch(k1); return 1; }
struct Ent { const char* n; u64 (*f)(u64*); };
#define E(n) {#n, i_##n}
static Ent g_ents[] = { E(malloc), E(calloc), E(free), E(realloc), E(VirtualAlloc), E(VirtualFree), E(VirtualProtect), E(VirtualQuery), E(HeapAlloc), E(HeapFree), E(GetProcessHeap),
  E(memcpy), E(memmove), E(memset), E(memcmp), E(memchr), E(_memicmp), {"memicmp", i__memicmp}, E(_stricmp), {"stricmp", i__stricmp}, {"strcasecmp", i__stricmp}, E(_strnicmp), {"strnicmp", i__strnicmp}, {"_strcmpi", i__stricmp}, {"_stricoll", i__stricmp}, E(_strupr), {"strupr", i__strupr}, E(_strlwr), {"strlwr", i__strlwr}, E(strlen), E(wcslen), E(strcat), E(strncat), E(strchr), E(strrchr), E(strcmp), {"strcoll", i_strcmp}, E(strncmp), E(strcpy), E(strncpy), E(strstr), E(strspn), E(strcspn), E(strpbrk), E(strtok), E(_strdup), {"strdup", i__strdup}, E(_strrev),
  E(isalnum), E(isalpha), E(isspace), E(isdigit), E(isxdigit), E(isupper), E(islower), E(ispunct), E(isprint), E(isgraph), E(iscntrl), E(tolower), E(toupper), E(atoi), E(atol), E(_atoi64), E(strtol), E(strtoul), E(_strtoi64), E(_strtoui64), E(strtod), E(atof), E(_itoa), {"itoa", i__itoa}, {"_ltoa", i__itoa}, {"ltoa", i__itoa}, E(_ultoa), {"ultoa", i__ultoa}, E(_i64toa), E(_ui64toa), E(abs), {"labs", i_abs}, E(qsort), E(bsearch), E(rand), E(srand),
  E(fopen), E(fclose), E(fflush), E(fread), E(fwrite), E(getc), {"fgetc", i_getc}, E(ungetc), E(fgets), E(fputc), {"putc", i_fputc}, E(fputs), E(puts), E(putchar), E(printf), E(vprintf), E(fprintf), E(vfprintf), E(_snprintf), E(_vsnprintf), E(snprintf), {"vsnprintf", i__vsnprintf}, E(sprintf), E(vsprintf), E(feof), E(ferror), E(clearerr), E(fseek), E(_fseeki64), E(ftell), E(_ftelli64), E(rewind), E(fgetpos), E(fsetpos), E(setvbuf), E(setbuf), E(_fileno), {"fileno", i__fileno}, E(_chsize), {"chsize", i__chsize}, {"_chsize_s", i__chsize}, E(remove), {"_unlink", i_remove}, {"unlink", i_remove}, E(rename), E(DeleteFileA), E(MoveFileExA), E(MoveFileA), E(_access), {"access", i__access}, E(GetFileAttributesA), E(_stat64), E(_stat64i32), {"_stat", i__stat32}, E(_stat32), E(_findfirst64), E(_findnext64), E(_findclose), E(_getcwd), {"getcwd", i__getcwd}, E(_getpid), {"getpid", i__getpid}, {"GetCurrentProcessId", i__getpid}, {"GetCurrentThreadId", i__getpid}, E(GetTempPathA), E(_mkdir), {"mkdir", i__mkdir},
  E(_open), {"open", i__open}, E(_read), {"read", i__read}, E(_write), {"write", i__write}, E(_close), {"close", i__close}, E(_lseek), {"lseek", i__lseek}, E(_lseeki64), E(_commit), E(_filelength), E(_filelengthi64), E(_isatty), {"isatty", i__isatty}, E(_setmode), {"setmode", i__setmode}, E(_fstat64), E(freopen),
  E(_time64), {"time", i__time64}, E(_time32), E(clock), E(_localtime64), {"localtime", i__localtime64}, E(_gmtime64), {"gmtime", i__gmtime64}, E(_localtime32), E(strftime), E(GetTickCount), E(GetTickCount64), E(QueryPerformanceCounter), E(QueryPerformanceFrequency), E(GetSystemTimeAsFileTime),
  E(exit), E(_exit), E(ExitProcess), E(_cexit), E(abort), E(_amsg_exit), E(signal), E(raise), E(_initterm), E(_onexit), E(__dllonexit), E(atexit), E(_errno), E(_set_errno), E(strerror), E(getenv), E(__getmainargs), E(__iob_func), E(__acrt_iob_func), E(localeconv), E(setlocale), {"___lc_codepage_func", i__cp}, {"___mb_cur_max_func", i_one}, {"__set_app_type", i_zero}, {"__setusermatherr", i_zero}, {"_lock", i_zero}, {"_unlock", i_zero}, {"__C_specific_handler", i_one}, {"SetUnhandledExceptionFilter", i_zero},
  E(GetStdHandle), E(GetLastError), E(SetLastError), E(GetCommandLineA), E(GetConsoleScreenBufferInfo), {"SetConsoleTextAttribute", i_one}, {"SetConsoleMode", i_one}, {"GetConsoleMode", i_zero}, E(Sleep), {"DeleteCriticalSection", i_zero}, {"EnterCriticalSection", i_zero}, {"LeaveCriticalSection", i_zero}, {"InitializeCriticalSection", i_zero}, {"IsDBCSLeadByteEx", i_zero}, {"IsDBCSLeadByte", i_zero}, E(WideCharToMultiByte), E(MultiByteToWideChar), E(TlsGetValue), E(GetModuleHandleA), E(longjmp), {"SetConsoleCtrlHandler", i_one},
  {"floor", i_m_floor}, {"ceil", i_m_ceil}, {"sqrt", i_m_sqrt}, {"log10", i_m_log10}, {"log", i_m_log}, {"exp", i_m_exp}, {"fabs", i_m_fabs}, {"pow", i_m_pow}, {"fmod", i_m_fmod}, {"ldexp", i_m_ldexp},
  E(strnlen), E(memccpy), E(_strset), E(tmpnam), E(_tempnam), E(_splitpath), E(_makepath), E(_fullpath), E(asctime), E(_ctime64), E(_mktime64), E(difftime), E(GetLocalTime), E(GetSystemTime), E(sscanf), E(GetEnvironmentVariableA), E(GetModuleFileNameA), E(GetCurrentDirectoryA), E(GetFullPathNameA), {"tempnam", i__tempnam}, {"ctime", i__ctime64}, {"mktime", i__mktime64}, {"_memccpy", i_memccpy}, {"_rmdir", i_one},
  E(perror), E(_sopen), {"sopen", i__sopen}, E(_fsopen), E(_creat), {"creat", i__creat}, E(_fdopen), {"fdopen", i__fdopen}, E(fopen_s), E(_putenv), {"putenv", i__putenv}, E(_chdir), {"chdir", i__chdir}, E(rand_s), E(HeapReAlloc), E(LocalAlloc), {"GlobalAlloc", i_LocalAlloc}, E(LocalFree), {"GlobalFree", i_LocalFree}, {"lstrlenA", i_strlen}, {"lstrcpyA", i_strcpy}, {"lstrcatA", i_strcat}, {"lstrcmpA", i_strcmp}, {"lstrcmpiA", i__stricmp}, {"strcmpi", i__stricmp}, {"strcoll", i_strcmp}, E(_tell), {"tell", i__tell}, E(_flushall), {"flushall", i__flushall}, E(_fcloseall), {"fcloseall", i__fcloseall}, E(getchar), E(_mktemp), {"mktemp", i__mktemp}, E(_chmod), {"chmod", i__chmod}, E(SetFileAttributesA), {"_utime64", i_zero}, {"_utime32", i_zero}, {"_tzset", i_zero}, {"tzset", i_zero}, {"OutputDebugStringA", i_zero},
  E(_strdate), E(_strtime), E(_ftime64), {"_ftime", i__ftime64}, {"ftime", i__ftime64}, E(_fstat64i32), {"fstat", i__fstat64i32}, {"_fstat", i__fstat64i32}, E(_fstat32), {"stat", i__stat64i32}, {"_stat", i__stat64i32}, E(div), {"ldiv", i_div}, E(_strnset), {"strnset", i__strnset}, E(strtok_s), {"strtok_r", i_strtok_s}, E(CopyFileA),
};
static const int NENT = sizeof g_ents / sizeof g_ents[0];
static u64 g_thunks; static const u64 THUNKS = 0x7f000000;
static vector<string> g_traps; static u64 trap_fn(u64* a) { u32 i; asm volatile("mov %%r11d,%0" : "=r"(i)); C->trap = "unimplemented import"; (void)a; finish(TRAP, -1); }

// ------------------------------------------------------------------ faults in guest code
extern "C" void crash_entry_c(); static u64 g_av_rip, g_av_addr, g_av_sp; static int g_av_sig; static bool g_av_host;
extern "C" void crash_entry_c() {
  Proc* p = C; if (g_av_sig == SIGPROF) finish(HANG, -1);
  string where = g_av_host ? "in import called from " + sym(p, *(u64*)(g_guest_sp)) : sym(p, g_av_rip); char b[96]; bool so = g_av_addr >= p->stk0 - 65536 && g_av_addr < p->stk0 + 4096; snprintf(b, sizeof b, "%s addr=%s ", g_av_sig == SIGFPE ? "div0" : g_av_sig == SIGILL ? "ill" : g_av_sig == SIGTRAP ? "trap" : "av", so ? "stack-overflow" : g_av_addr < 65536 ? "null" : g_av_addr == 0 ? "0" : "wild");
  if (!p->avinfo.size()) p->avinfo = b + where; hs("AV" + p->avinfo); if (g_trace) trace("AV", p->avinfo, 0, nullptr);
  u64 h = p->sig.count(11) ? p->sig[11] : 0; if (so || p->avdone || h <= 1 || g_av_sig == SIGTRAP) finish(CRASHED, so ? 0xC00000FD : 0xC0000005);
  p->avdone = true; if (!g_av_host) g_guest_sp = g_av_sp; run_signal(11, h); finish(CRASHED, 0xC0000005);
}
extern "C" { u64 g_crash_sp; void crash_entry(); }
asm(R"(
.globl crash_entry
crash_entry:
  and $-16, %rsp
  call crash_entry_c
  hlt
)");
static void on_fault(int sig, siginfo_t* si, void* uc_) {
  ucontext_t* uc = (ucontext_t*)uc_; greg_t* r = uc->uc_mcontext.gregs; u64 rsp = r[REG_RSP], rip = r[REG_RIP];
  if (!C || C->done) { if (sig == SIGPROF) return; static const char m[] = "sim: host crash\n"; (void)!write(2, m, sizeof m - 1); _exit(99); }
  bool guest = (rsp >= C->stk0 - (1 << 20) && rsp < C->stkend);
  if (sig == SIGPROF) { if (!guest) { g_hang = 1; return; } }
  g_av_host = !guest; g_av_rip = rip; g_av_addr = sig == SIGSEGV || sig == SIGBUS ? (u64)si->si_addr : rip; g_av_sig = sig; g_av_sp = rsp;
  u64 ns = guest ? cur_host_sp - 512 : rsp - 512; r[REG_RSP] = ns & ~15ull; r[REG_RIP] = (greg_t)crash_entry; r[REG_EFL] &= ~0x400ll;
}
// ------------------------------------------------------------------ loading
static void must(bool b, const char* m) { if (!b) throw std::runtime_error(m); }
static void mapfix(u64 a, u64 n, int pr) { void* r = mmap((void*)a, n, pr, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0); must(r == (void*)a, "mmap fixed"); }
static int g_firstent_trap;
static void load_proc(Proc& p) {
  Image& im = *p.img; u64 sl = (u64)p.id * 0x4000000000ull; u64 rs = 0x1234567 + (u64)p.kn.aslr * 7919; u64 r1 = p.kn.aslr ? rnd(rs) : 0, r2 = p.kn.aslr ? rnd(rs) : 0;
  p.base = 0x140000000ull + sl + (r1 % 4096) * 0x10000; mapfix(p.base, (im.size + 4095) & ~4095u, PROT_READ | PROT_WRITE);
  memcpy((void*)p.base, im.file.data(), im.hdrsize); for (auto& s : im.secs) memcpy((void*)(p.base + s.va), &im.file[s.raw], std::min(s.rawsz, s.vsz ? s.vsz : s.rawsz));
  i64 d = p.base - im.prefbase; if (im.reloc && d) for (u32 o = 0; o + 8 <= im.relocsz;) { u32 pg = *(u32*)(p.base + im.reloc + o), sz = *(u32*)(p.base + im.reloc + o + 4); if (!sz) break; for (u32 k = 8; k < sz; k += 2) { u16 e = *(u16*)(p.base + im.reloc + o + k); if ((e >> 12) == 10) *(u64*)(p.base + pg + (e & 0xfff)) += d; } o += sz; }
  // arena layout
  p.heap0 = 0x1000000000ull + sl + (r2 % 1024) * 0x10000; p.heapend = p.heap0 + (2ull << 30); mapfix(p.heap0, p.heapend - p.heap0, PROT_READ | PROT_WRITE); p.heapcur = (p.kn.aslr & 1) ? p.heapend : p.heap0; 
  p.vbase = 0x2000000000ull + sl + (r1 >> 20) % 1024 * 0x10000; p.vcur = (p.kn.aslr & 2) ? p.vbase + (4ull << 30) : p.vbase;
  u64 ssz = std::max<u64>(im.stackres, 0x200000); p.stk0 = 0x3000000000ull + sl + (r2 >> 30) % 1024 * 0x10000; p.stkend = p.stk0 + ssz; mapfix(p.stk0, ssz, PROT_READ | PROT_WRITE); mprotect((void*)p.stk0, 4096, PROT_NONE);
  u64 fs = 0x40000; memset((void*)(p.stkend - fs), (int)p.kn.stackfill, fs);
  u64 c0 = 0x3800000000ull + sl; mapfix(c0, 1 << 20, PROT_READ | PROT_WRITE); p.cellcur = c0 + 0x8000; p.gs = c0; *(u64*)(c0 + 8) = p.stkend; *(u64*)(c0 + 16) = p.stk0; *(u64*)(c0 + 0x30) = c0; *(u64*)(c0 + 0x58) = c0 + 0x2000; *(u64*)(c0 + 0x2000) = c0 + 0x3000; *(u64*)(c0 + 0x60) = c0 + 0x4000;
  p.iob = c0 + 0x40000; Proc* oc = C; C = &p; p.errno_cell = cell(16); *(int*)p.errno_cell = 0;
  p.hoststksz = 1 << 20; p.hoststk = (u8*)mmap(nullptr, p.hoststksz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  p.rng = (u64)p.kn.seed * 0x9E37 + 77; p.st.reserve(4100); p.st.resize(3); for (int i = 0; i < 3; i++) { Stream& s = p.st[i]; s.open = true; s.text = true; s.kind = i == 0 ? 1 : 2; s.path = i == 0 ? "<stdin>" : i == 1 ? "<stdout>" : "<stderr>"; s.rd = i == 0; s.wr = i != 0; s.bufsz = i == 2 || (i == 1 && p.kn.tty) ? 1 : std::max<i64>(1, p.kn.bufsiz); }
  static map<string, int> idx; if (idx.empty()) for (int i = 0; i < NENT; i++) idx[g_ents[i].n] = i;
  for (auto& im2 : im.imps) {
    u64 v; const string& n = im2.name;
    if (n == "__initenv" || n == "_fmode" || n == "_commode" || n == "_pgmptr" || n == "_acmdln" || n == "_environ" || n == "__argc" || n == "__argv") { auto& x = p.strcells["\1data_" + n]; if (!x) { x = cell(16); memset((void*)x, 0, 16); if (n == "_pgmptr") *(u64*)x = strcell("C:\\bin\\uasm.exe"); if (n == "_acmdln") *(u64*)x = strcell("uasm"); } v = x; }
    else if (n == "_iob") v = p.iob; else if (n == "_setjmp" || n == "_setjmpex" || n == "setjmp") v = THUNKS + 32 * 500;
    else { auto it = idx.find(n); int k; if (it == idx.end()) { k = 490; g_traps.push_back(n); } else k = it->second; v = THUNKS + 32 * k; }
    *(u64*)(p.base + im2.iat) = v;
  }
  for (auto& s : im.secs) { int pr = PROT_READ; if (s.ch & 0x80000000) pr |= PROT_WRITE; if (s.ch & 0x20000000) pr |= PROT_EXEC; if (s.name == ".idata") pr |= PROT_WRITE; u64 n = (std::max(s.vsz, s.rawsz) + 4095) & ~4095u; if (n) mprotect((void*)(p.base + s.va), n, pr); }
  C = oc;
}
static void make_thunks() {
  g_thunks = (u64)mmap((void*)THUNKS, 0x5000, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0); must(g_thunks == THUNKS, "thunks");
  for (int i = 0; i < 512; i++) { u8* t = (u8*)THUNKS + 32 * i; u64 tgt = i == 500 ? (u64)sim_setjmp : (u64)sim_common; t[0] = 0x41; t[1] = 0xBB; memcpy(t + 2, &i, 4); t[6] = 0x49; t[7] = 0xBA; memcpy(t + 8, &tgt, 8); t[16] = 0x41; t[17] = 0xFF; t[18] = 0xE2; sim_table[i] = i < NENT ? g_ents[i].f : trap_fn; }
  mprotect((void*)THUNKS, 0x5000, PROT_READ | PROT_EXEC);
}
static void proc_start() { // runs on the host stack of C
  Proc* p = C; u64 r = call_guest(p->base + p->img->entry, 0, 0, 0); do_exit((int)r);
}
extern "C" void proc_entry(); extern "C" void proc_entry_c() { proc_start(); abort(); }
asm(R"(
.globl proc_entry
proc_entry:
  and $-16, %rsp
  call proc_entry_c
  hlt
)");
static void resume(Proc* p) {
  C = p; syscall(SYS_arch_prctl, ARCH_SET_GS, p->gs);
  if (!p->started) { p->started = true; u64 top = ((u64)p->hoststk + p->hoststksz - 4096) & ~15ull; cur_host_sp = top - 65536; g_lj_host = cur_host_sp; g_guest_sp = p->stkend - 4096; u64* s = (u64*)top; *--s = 0; *--s = (u64)proc_entry; for (int i = 0; i < 6; i++) *--s = 0; *--s = 0; p->host_sp = cur_host_sp; p->guest_sp = g_guest_sp; p->sched_sp = (u64)s; }
  else { cur_host_sp = p->host_sp; g_guest_sp = p->guest_sp; }
  g_lj_host = (((u64)p->hoststk + p->hoststksz - 4096) & ~15ull) - 65536;
  switch_ctx(&g_main_sp, p->sched_sp); C = nullptr;
}
// ------------------------------------------------------------------ one plan
static string hex64(u64 v) { char b[20]; snprintf(b, sizeof b, "%016llx", (unsigned long long)v); return b; }
static string dhash(const string& d) { u64 h1 = 1469598103934665603ull, h2 = 0x9ae16a3b2f90404full; for (unsigned char c : d) { h1 = (h1 ^ c) * 1099511628211ull; h2 = (h2 + c) * 0x9E3779B97F4A7C15ull; h2 ^= h2 >> 29; } return hex64(h1) + hex64(h2); }
static void rd_knobs(Knobs& k, const J& j) {
#define KN(n) if (j.has(#n)) k.n = j[#n].num();
  KN(aslr) KN(fill) KN(bufsiz) KN(reuse) KN(seed) KN(tick) KN(clock) KN(stackfill) KN(tty) KN(maxopen) KN(guard) KN(tz) KN(findord) KN(freeze) KN(winefc) KN(mt) KN(pid)
}
static string fs_json(bool data, const std::set<string>& want) {
  string o = "["; bool first = true;
  for (auto& x : V.f) { auto it = V.orig.find(x.first); bool same = it != V.orig.end() && it->second == x.second->data; if (same) continue; if (!first) o += ","; first = false; o += "["; jstr(o, V.disp[x.first]); o += "," + std::to_string(x.second->data.size()) + ",\"" + dhash(x.second->data) + "\",\"" + (it != V.orig.end() ? "mod" : "new") + "\""; string ext = x.first.substr(x.first.rfind('.') == string::npos ? 0 : x.first.rfind('.')); if (data || want.count(x.first)) { o += ","; jstr(o, x.second->data); } o += "]"; }
  for (auto& x : V.orig) if (!V.f.count(x.first)) { if (!first) o += ","; first = false; o += "["; jstr(o, V.disp[x.first]); o += ",0,\"\",\"gone\"]"; }
  return o + "]";
}
static string run_plan(const J& j) {
  Knobs kn; rd_knobs(kn, j["knobs"]); g_budget = j.has("budget") ? j["budget"].num() : 20000000; string cwd = j["cwd"].str("C:\\work");
  V.dirs = {"C:", "C:\\WORK", "C:\\BIN", "C:\\TMP"}; V.quota = j.has("quota") ? j["quota"].num(-1) : -1;
  auto mkdirs = [&](const string& k) { string d = dir_of(k); while (d.size() >= 2) { V.dirs.insert(d); string n = dir_of(d); if (n == d) break; d = n; } };
  for (auto& d : j["dirs"].a) { string k = up(d.s); V.dirs.insert(k); mkdirs(k); }
  auto putf = [&](const J& f) { string k = up(disp_path(cwd, f["p"].str())); NodeP n = std::make_shared<Node>(); n->data = f.has("h") ? host_file(f["h"].str()) : f["d"].str(); n->mtime = kn.mt >= 0 ? kn.mt : kn.clock - 1000; n->ro = f["ro"].num(); V.f[k] = n; V.disp[k] = disp_path(cwd, f["p"].str()); V.orig[k] = n->data; mkdirs(k); };
  for (auto& f : j["files"].a) putf(f);
  g_trace = j["want"]["trace"].num(); if (j["want"]["tracemax"].num()) g_tracemax = j["want"]["tracemax"].num(); g_alloctrace = j["want"]["allocs"].num(); bool data = j["want"]["data"].num(); bool wout = j["want"]["out"].num(1); std::set<string> wantf; for (auto& x : j["want"]["files"].a) wantf.insert(up(disp_path(cwd, x.s)));
  string steps; int pid = 0; string imgdef = j["img"].str();
  int cpu = (int)j["cpu"].num(20); struct itimerval tv = {{cpu, 0}, {cpu, 0}}; u64 budget0 = g_budget;
  for (auto& st : j["steps"].a) {
    setitimer(ITIMER_PROF, &tv, nullptr); g_hang = 0; g_budget = st.has("budget") ? std::min(budget0, g_calls + (u64)st["budget"].num()) : budget0;
    for (auto& op : st["ops"].a) { if (op["do"].s == "put") putf(op); else if (op["do"].s == "rm") V.f.erase(up(disp_path(cwd, op["p"].str()))); else if (op["do"].s == "quota") V.quota = op["n"].num(); else if (op["do"].s == "advance") g_us += op["n"].num() * 1000000; else if (op["do"].s == "base") { for (auto& x : V.f) { V.orig[x.first] = x.second->data; } } }
    P.clear(); for (auto& pj : st["procs"].a) {
      auto p = std::make_unique<Proc>(); p->id = pid++; p->img = get_image(pj.has("img") ? pj["img"].str() : imgdef); p->kn = kn; rd_knobs(p->kn, pj["knobs"]); p->cwd = pj["cwd"].str(cwd.c_str()); p->argv.push_back(p->kn.pid % 3 == 1 ? "uasm" : p->kn.pid % 3 == 2 ? "D:\\Program Files\\tools.d\\UASM64.EXE" : "C:\\bin\\uasm.exe"); for (auto& x : pj["argv"].a) p->argv.push_back(x.s);
      for (auto& e : pj["env"].o) p->env.push_back({e.first, e.second.s});
      for (auto& fj : pj["faults"].a) { Fault f; f.k = fj["k"].str(); f.cls = fj["cls"].str(); if (fj.has("path")) { const string& ps = fj["path"].s; f.path = ps.size() && (ps[0] == '<' || ps[0] == '*') ? ps : up(disp_path(p->cwd, ps)); } f.n = fj["n"].num(); f.err = fj["err"].num(); f.part = fj["part"].num(-1); f.sticky = fj["sticky"].num(); f.delta = fj["delta"].num(); f.data = fj["d"].str(); f.rm = fj["rm"].num(); f.ip = fj["ip"].num(); p->faults.push_back(f); }
      load_proc(*p); P.push_back(std::move(p));
    }
    g_sched.clear(); g_schedi = 0; for (auto& s : st["sched"].a) g_sched.push_back({(u64)s.a[0].num() + g_calls, (int)s.a[1].num()});
    int cur = 0; std::set<u64> inter;
    for (;;) {
      bool any = false; for (auto& p : P) any |= !p->done; if (!any) break;
      while (P[cur]->done) cur = (cur + 1) % P.size();
      hn(0xABC0 + cur); resume(P[cur].get());
      if (!P[cur]->done && g_schedi < g_sched.size()) { int nx = g_sched[g_schedi].second; g_schedi++; if (nx >= 0 && nx < (int)P.size() && !P[nx]->done) { if (nx != cur) g_preempts++; cur = nx; } }
      else if (P[cur]->done) { // the dead process's handles are closed by the system
        Proc* q = P[cur].get(); for (auto& s : q->st) if (s.open && s.node) st_share(s, -1); for (auto& s : q->st) s.node.reset(), s.kind = s.kind == 0 ? 9 : s.kind;
      }
    }
    if (!steps.empty()) steps += ","; steps += "{\"procs\":["; bool fp = true;
    for (auto& pp : P) {
      Proc& p = *pp; C = &p; int live = 0; int opened = 0; string lk; for (size_t i = 3; i < p.st.size(); i++) { opened++; if (p.st[i].open) { live++; if (!lk.empty()) lk += ","; jstr(lk, p.st[i].path); } }
      if (p.end == EXITED) for (u64 r : p.blocks) { Blk* b = (Blk*)(r - 48); if (b->flags == 1) blk_check(r, "exit"); }
      int fnd = 0; for (auto& x : p.finds) fnd += x.second; u64 vl = 0, vn = 0; for (auto& x : p.vallocs) if (x.second.second) vl += x.second.first, vn++; u64 hbts = 0; for (u64 r : p.blocks) { Blk* b = (Blk*)(r - 48); if (b->flags == 1) hbts += b->size; } if (g_alloctrace) { for (u64 r : p.blocks) { Blk* b = (Blk*)(r - 48); if (b->flags == 1) { g_allocsites += ",["; jstr(g_allocsites, sym(C, b->site)); char bb[64]; snprintf(bb, sizeof bb, ",\"LIVE\",%llu,%u]", (unsigned long long)b->size, b->seq); g_allocsites += bb; } } }
      hn(p.end); hn(p.code); hn(p.nalloc); hs(p.out); hs(p.errout);
      if (!fp) steps += ","; fp = false; steps += "{\"end\":\"" + string(endname[p.end]) + "\",\"code\":" + std::to_string((i64)p.code) + ",\"calls\":" + std::to_string(p.ncalls) + ",\"allocs\":" + std::to_string(p.nalloc) + ",\"times\":" + std::to_string(p.ntime) + ",\"tvals\":" + [&] { string q = "["; for (i64 v : p.tvals) q += (q.size() > 1 ? "," : "") + std::to_string(v); return q + "]"; }() + ",\"maxlive\":" + std::to_string(p.maxlive) + ",\"heap\":[" + std::to_string(p.liven) + "," + std::to_string(hbts) + "," + std::to_string(vn) + "," + std::to_string(vl) + "],\"streams\":[" + lk + "],\"opened\":" + std::to_string(opened) + ",\"finds\":" + std::to_string(fnd);
      steps += ",\"envq\":["; { bool fe = true; for (auto& x : p.envq) { if (!fe) steps += ","; fe = false; jstr(steps, x); } } steps += "],\"av\":"; jstr(steps, p.avinfo); steps += ",\"trap\":"; string tr = p.trap; if (p.end == TRAP) for (auto& t : g_traps) tr += " " + t; jstr(steps, tr); steps += ",\"fired\":["; bool f2 = true; for (auto& x : p.fired) { if (!f2) steps += ","; f2 = false; jstr(steps, x); } steps += "],\"diag\":["; f2 = true; for (auto& x : p.diag) { if (!f2) steps += ","; f2 = false; jstr(steps, x); }
      steps += "],\"ops\":{"; f2 = true; for (auto& x : p.ops) { if (!f2) steps += ","; f2 = false; jstr(steps, x.first); steps += ":" + std::to_string(x.second); } steps += "}";
      if (wout) { steps += ",\"out\":"; jstr(steps, p.out); steps += ",\"errout\":"; jstr(steps, p.errout); } steps += "}"; C = nullptr;
    }
    steps += "]"; if (st["snap"].num()) steps += ",\"files\":" + fs_json(data, wantf); steps += "}";
    for (auto& pp : P) { Proc& p = *pp; munmap((void*)p.base, (p.img->size + 4095) & ~4095u); munmap((void*)p.heap0, p.heapend - p.heap0); munmap((void*)p.stk0, p.stkend - p.stk0); munmap((void*)(0x3800000000ull + (u64)p.id * 0x4000000000ull), 1 << 20); munmap((void*)p.vbase, 4ull << 30); munmap(p.hoststk, p.hoststksz); }
  }
  string fj = fs_json(data, wantf); hs(fj); string tch = "["; bool f1 = true; for (auto& t : V.touched) { if (!f1) tch += ","; f1 = false; jstr(tch, t); } tch += "]";
  return "{\"ok\":1,\"hash\":\"" + hex64(g_hash) + "\",\"calls\":" + std::to_string(g_calls) + ",\"us\":" + std::to_string(g_us) + ",\"preempts\":" + std::to_string(g_preempts) + ",\"steps\":[" + steps + "],\"files\":" + fj + ",\"touched\":" + tch + ",\"trace\":[" + g_traceout + "],\"allocs\":[" + g_allocsites + "]}";
}
// ------------------------------------------------------------------ server
static bool rdn(int fd, void* p, size_t n) { u8* b = (u8*)p; while (n) { ssize_t k = read(fd, b, n); if (k <= 0) { if (k < 0 && errno == EINTR) continue; return false; } b += k; n -= k; } return true; }
static bool wrn(int fd, const void* p, size_t n) { const u8* b = (const u8*)p; while (n) { ssize_t k = write(fd, b, n); if (k <= 0) { if (k < 0 && errno == EINTR) continue; return false; } b += k; n -= k; } return true; }
static string child_run(const string& plan) {
  static u8 alt[65536]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_fault; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGTRAP, SIGPROF}) sigaction(s, &sa, nullptr);
  try { J j = jparse(plan); return run_plan(j); } catch (std::exception& e) { string o = "{\"ok\":0,\"err\":"; jstr(o, e.what()); return o + "}"; }
}
int main(int argc, char** argv) {
  signal(SIGPIPE, SIG_IGN); make_thunks();
  if (argc == 3 && !strcmp(argv[1], "--one")) { FILE* f = fopen(argv[2], "rb"); if (!f) return 2; string s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); string r = child_run(s); wrn(1, r.data(), r.size()); wrn(1, "\n", 1); return 0; }
  for (;;) {
    u32 n; if (!rdn(0, &n, 4)) return 0; string plan(n, 0); if (!rdn(0, &plan[0], n)) return 0;
    // preload images and host files named in the plan so that children share them
    string pre; try { size_t q = 0; const string keys[] = {"\"img\": \"", "\"img\":\"", "\"h\": \"", "\"h\":\""}; for (int ki = 0; ki < 4; ki++) for (q = 0; (q = plan.find(keys[ki], q)) != string::npos;) { q += keys[ki].size(); size_t e = plan.find('"', q); string p = plan.substr(q, e - q); if (p.size() && p[0] == '/') { if (ki < 2) get_image(p); else host_file(p); } q = e; } } catch (std::exception& e) { pre = e.what(); }
    int pp[2]; if (pipe(pp)) return 3; pid_t pid = fork();
    if (pid == 0) { close(pp[0]); close(0); string r = child_run(plan); u32 m = r.size(); wrn(pp[1], r.data(), m); _exit(0); }
    close(pp[1]); string out; char b[65536]; i64 t0 = time(nullptr); bool to = false;
    for (;;) { struct pollfd pf = {pp[0], POLLIN, 0}; int k = poll(&pf, 1, 1000); if (k > 0) { ssize_t g = read(pp[0], b, sizeof b); if (g <= 0) break; out.append(b, g); } if (time(nullptr) - t0 > 180) { to = true; kill(pid, SIGKILL); break; } }
    close(pp[0]); int stt; waitpid(pid, &stt, 0);
    if (to) out = "{\"ok\":0,\"err\":\"wall timeout\"}"; else if (out.empty() || !(WIFEXITED(stt) && WEXITSTATUS(stt) == 0)) out = "{\"ok\":0,\"err\":\"sim child died status " + std::to_string(stt) + "\"}";
    u32 m = out.size(); if (!wrn(1, &m, 4) || !wrn(1, out.data(), m)) return 0;
  }
}
