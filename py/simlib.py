"""Driver side of the simulator: builds, servers, plans, parallel batches."""
import hashlib, json, os, random, shutil, struct, subprocess, sys, time, fcntl
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("UASM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
WORK = "C:\\work\\"


class HarnessError(Exception):
    pass


# ---------------------------------------------------------------- builds
def _hash_files(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


class _Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def build_sim():
    src = os.path.join(VERIF, "sim")
    files = [os.path.join(src, f) for f in os.listdir(src) if f.endswith((".cpp", ".h"))]
    tag = _hash_files(files)
    out = os.path.join(BUILD, "sim-" + tag)
    with _Lock("sim"):
        if not os.path.exists(out):
            for f in os.listdir(BUILD):
                if f.startswith("sim-"):
                    os.unlink(os.path.join(BUILD, f))
            cmd = ["g++", "-std=c++17", "-O2", "-w", "-fcf-protection=none", "-fno-omit-frame-pointer",
                   "-o", out + ".tmp", os.path.join(src, "sim.cpp")]
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode:
                raise HarnessError("simulator build failed:\n" + r.stderr[-3000:])
            os.rename(out + ".tmp", out)
    return out


def repo_sources():
    res = []
    for d, dirs, fs in os.walk(REPO):
        dirs[:] = [x for x in dirs if not x.startswith((".git", "_build")) and x not in ("regress", "samples", "Samples", "doc", "Doc", "Bin", "build")]
        for f in fs:
            if f.endswith((".c", ".h", ".H", ".inc", ".mak", ".C")):
                res.append(os.path.join(d, f))
    return res


def build_uasm(hooks=False):
    """Build uasm.exe from the working tree with the project's makefile."""
    tag = _hash_files(repo_sources(), "hooks" if hooks else "plain") + ("h" if hooks else "p")
    outd = os.path.join(BUILD, "uasm-" + tag)
    exe = os.path.join(outd, "uasm.exe")
    with _Lock("uasm" + ("h" if hooks else "p")):
        if not os.path.exists(exe):
            for f in os.listdir(BUILD):
                if f.startswith("uasm-") and f.endswith("h" if hooks else "p"):
                    shutil.rmtree(os.path.join(BUILD, f), ignore_errors=True)
            tmp = outd + ".tmp"
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            env = dict(os.environ)
            for k in ("MAKEFLAGS", "MFLAGS", "CFLAGS", "CPPFLAGS", "LDFLAGS"):
                env.pop(k, None)
            env["PATH"] = os.path.join(VERIF, "toolchain") + ":/usr/local/bin:/usr/bin:/bin"
            env["LC_ALL"] = "C"
            if hooks:
                env["UASM_SIM_DEFS"] = "-DUASM_SIM"
            r = subprocess.run(["make", "-s", "-j8", "-f", "GccWin64.mak", "OUTD=" + tmp, "name=uasm", "ALL"],
                               cwd=REPO, env=env, capture_output=True, text=True)
            if r.returncode or not os.path.exists(os.path.join(tmp, "uasm.exe")):
                raise HarnessError("uasm build failed:\n" + (r.stdout + r.stderr)[-3000:])
            for f in os.listdir(tmp):
                if f != "uasm.exe":
                    os.unlink(os.path.join(tmp, f))
            os.rename(tmp, outd)
    return exe


# ---------------------------------------------------------------- server
class Server:
    def __init__(self, sim):
        self.sim = sim
        self.p = None
        self.n = 0

    def start(self):
        self.p = subprocess.Popen([self.sim], stdin=subprocess.PIPE, stdout=subprocess.PIPE)

    def run(self, plan):
        if self.p is None:
            self.start()
        b = json.dumps(plan).encode("ascii")
        self.p.stdin.write(struct.pack("<I", len(b)) + b)
        self.p.stdin.flush()
        h = self.p.stdout.read(4)
        if len(h) < 4:
            self.p = None
            raise HarnessError("simulator died")
        n, = struct.unpack("<I", h)
        r = self.p.stdout.read(n)
        self.n += 1
        j = json.loads(r)
        if not j.get("ok"):
            raise HarnessError("simulator: " + j.get("err", "?"))
        for st in j["steps"]:
            for q in st["procs"]:
                if q["end"] == "trap":
                    raise HarnessError("unimplemented import:" + q["trap"])
        return j

    def close(self):
        if self.p:
            self.p.stdin.close()
            self.p.wait()
            self.p = None


def rng(*parts):
    return random.Random("|".join(str(x) for x in parts))
