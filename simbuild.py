"""Builds libff's sources from /repo, with the simulator, per configuration.

Objects are cached in /verif/build by the content of everything they depend on
(all headers of /repo/libff and /verif/sim, the source, the command), never by
time stamps."""
import concurrent.futures as cf, glob, hashlib, os, subprocess, sys, threading, time, uuid

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
JOBS = os.cpu_count() or 8

BASE = ["-std=gnu++14", "-g0", "-DNDEBUG", "-w", "-mpclmul", "-msse4.1", "-DNO_PROCPS", "-DCURVE_ALT_BN128", "-I" + REPO, "-I" + VERIF + "/sim"]

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()[:24]

def rd(p):
    with open(p, "rb") as f: return f.read()

_hdr = {}
def headers(root, exts):
    k = (root, exts)
    if k not in _hdr:
        fs = sorted(f for e in exts for f in glob.glob(root + "/**/*" + e, recursive=True))
        _hdr[k] = sha(*[x for f in fs for x in (os.path.relpath(f, root), rd(f))])
    return _hdr[k]

def lib_sources():
    fs = glob.glob(REPO + "/libff/**/*.cpp", recursive=True)
    skip = ("/tests/", "/curves/bn128/", "multiexp_profile.cpp")
    return sorted(f for f in fs if not any(s in f for s in skip))

_locks = {}; _locks_lock = threading.Lock()

def compile_one(cmd, src, hh):
    key = sha("o1", " ".join(cmd), os.path.relpath(src, "/"), rd(src), hh)
    out = os.path.join(BUILD, "obj", key + ".o")
    with _locks_lock: lock = _locks.setdefault(key, threading.Lock())
    with lock:      # configurations share objects: each is compiled once
        return compile_to(out, cmd, src)

def compile_to(out, cmd, src):
    if not os.path.exists(out):
        tmp = out + ".%s.tmp" % uuid.uuid4().hex
        r = subprocess.run(cmd + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise RuntimeError("compile failed: %s\n%s" % (" ".join(cmd + [src]), r.stdout.decode(errors="replace")[-4000:]))
        os.replace(tmp, out)
    else:
        os.utime(out)
    return out

class Builder:
    def __init__(self):
        os.makedirs(BUILD + "/obj", exist_ok=True); os.makedirs(BUILD + "/bin", exist_ok=True)
        self.pool = cf.ThreadPoolExecutor(JOBS)
    def objects(self, specs):
        """specs: list of (cmd, src, 'repo'|'plain'); compiled in parallel, slowest-first order kept."""
        rh = headers(REPO + "/libff", (".hpp", ".tcc", ".h")); vh = headers(VERIF + "/sim", (".hpp", ".h"))
        return [self.pool.submit(compile_one, cmd, src, vh if kind == "plain" else rh + vh) for cmd, src, kind in specs]
    def link(self, futs, flags, libs, cxx="g++"):
        objs = [f.result() for f in futs]
        key = sha("l1", cxx, " ".join(flags), " ".join(libs), *objs)
        out = os.path.join(BUILD, "bin", key)
        if not os.path.exists(out):
            tmp = out + ".%s.tmp" % uuid.uuid4().hex
            r = subprocess.run([cxx] + flags + objs + ["-o", tmp] + libs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                raise RuntimeError("link failed: %s" % r.stdout.decode(errors="replace")[-4000:])
            os.replace(tmp, out)
        return out

def prune(limit=4 << 30):
    fs = [f for d in ("obj", "bin") for f in glob.glob(BUILD + "/" + d + "/*")]
    st = sorted(((os.stat(f).st_mtime, os.stat(f).st_size, f) for f in fs), reverse=True)
    tot = 0
    for m, s, f in st:
        tot += s
        if tot > limit:
            try: os.unlink(f)
            except OSError: pass
