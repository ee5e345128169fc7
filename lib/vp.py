"""Check driver support: building harnesses from /repo, running them under sanitizers,
classifying what happened, known findings, evidence."""
import hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")

class HarnessError(Exception):
    pass

def _cfg(cmd):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True).stdout.split()

_tree_hash = None
def tree_hash():
    """Hash of all sources a harness may include from /repo, and of our harness directory."""
    global _tree_hash
    if _tree_hash is None:
        h = hashlib.sha256()
        for base in (os.path.join(REPO, "include"), os.path.join(REPO, "examples"), os.path.join(REPO, "osmjs"), os.path.join(VERIF, "harness")):
            for d, ds, fs in sorted(os.walk(base)):
                ds.sort()
                for f in sorted(fs):
                    p = os.path.join(d, f)
                    h.update(p.encode()); h.update(open(p, "rb").read())
        _tree_hash = h.hexdigest()
    return _tree_hash

SAN = {
    "asan": ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
             "-fno-sanitize-recover=all", "-fno-sanitize=vptr"],
    "tsan": ["-O1", "-fno-omit-frame-pointer", "-fsanitize=thread"],
    "plain": ["-O1"],
}

def build(src, name=None, variant="asan", flags=(), libs=(), cxx="g++", timeout=600):
    """Compile one translation unit (path relative to VERIF or absolute) into an executable."""
    path = src if os.path.isabs(src) else os.path.join(VERIF, src)
    cflags = ["-g1", "-w", "-D_LARGEFILE_SOURCE", "-D_FILE_OFFSET_BITS=64", "-DOSMIUM_WITH_DEBUG"]
    cflags += SAN[variant] + list(flags)
    inc = ["-I" + os.path.join(VERIF, "harness"), "-I" + os.path.join(REPO, "include")]
    inc += _cfg("xml2-config --cflags")
    libl = list(libs) + ["-losmpbf", "-lprotobuf-lite", "-lexpat", "-lz", "-lpthread"] + _cfg("xml2-config --libs")
    key = hashlib.sha256(json.dumps([path, tree_hash(), cflags, inc, libl, cxx]).encode()).hexdigest()[:24]
    out = os.path.join(BUILD, key, name or os.path.splitext(os.path.basename(path))[0])
    if os.path.exists(out):
        return out
    tmpd = os.path.join(BUILD, key + ".tmp%d" % os.getpid())
    os.makedirs(tmpd, exist_ok=True)
    tmpo = os.path.join(tmpd, "out")
    cmd = [cxx] + cflags + inc + ["-o", tmpo, path] + libl
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
    if r.returncode:
        shutil.rmtree(tmpd, ignore_errors=True)
        raise HarnessError("build of %s failed:\n%s\n%s" % (src, " ".join(cmd), r.stderr[-4000:]))
    os.makedirs(os.path.dirname(out), exist_ok=True)
    os.replace(tmpo, out)
    shutil.rmtree(tmpd, ignore_errors=True)
    return out

def build_many(specs):
    """specs: list of kwargs for build(); compiled in parallel. Returns list of paths."""
    from concurrent.futures import ThreadPoolExecutor
    tree_hash()
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda kw: build(**kw), specs))

def gdal_flags():
    return _cfg("gdal-config --cflags"), _cfg("gdal-config --libs")
def geos_flags():
    return _cfg("geos-config --cflags"), _cfg("geos-config --clibs") + _cfg("geos-config --libs")

class Run:
    def __init__(self, rc, out, err, timed_out, wall):
        self.rc, self.out, self.err, self.timed_out, self.wall = rc, out, err, timed_out, wall
    @property
    def crashed(self):
        """True if the process died from a signal, a sanitizer report or an abort."""
        return (not self.timed_out) and (self.rc < 0 or self.rc == 77 or b"runtime error:" in self.err
                or b"ERROR: AddressSanitizer" in self.err or b"WARNING: ThreadSanitizer" in self.err
                or b"ERROR: LeakSanitizer" in self.err)
    def crash_key(self):
        e = self.err.decode("utf-8", "replace")
        if self.timed_out:
            return "hang"
        m = re.search(r"ERROR: (\w+Sanitizer): ([\w-]+)", e)
        kind = None
        if m:
            kind = m.group(1) + ":" + m.group(2)
        else:
            m = re.search(r"runtime error: (.*)", e)
            if m: kind = "UBSan:" + re.sub(r"-?\b(0x[0-9a-f]+|\d+(\.\d+)?)\b", "N", m.group(1))[:80]
            else:
                m = re.search(r"Assertion [`'](.*?)' failed", e)
                if m: kind = "assert:" + m.group(1)[:80]
                elif "ThreadSanitizer" in e:
                    m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+)", e)
                    kind = "TSan:" + (m.group(1).strip() if m else "?")
                else: kind = "signal:%d" % self.rc
        where = ""
        for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?)(?::(\d+))?(?::\d+)?$", e, re.M):
            f = m.group(2)
            if f.startswith(REPO + "/"):
                where = os.path.relpath(f, REPO) + ":" + re.sub(r"<.*|\(.*", "", m.group(1)).split("::")[-1]
                break
        return kind + ("@" + where if where else "")

BASE_ENV = {
    "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    "LC_ALL": "C.UTF-8", "HOME": "/tmp",
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=0:allocator_may_return_null=1:handle_abort=1:max_allocation_size_mb=4000:detect_stack_use_after_return=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=77:second_deadlock_stack=1",
}

# large buffers are reused instead of mapped anew (plain builds)
KEEP = {"MALLOC_MMAP_THRESHOLD_": "1000000000", "MALLOC_TRIM_THRESHOLD_": "1000000000"}

def comma_env(ctx):
    """Environment for a program in a locale with a comma for a decimal point, None if there is no such locale."""
    d = os.path.join(ctx.tmp, "locale"); os.makedirs(d, exist_ok=True)
    try: subprocess.run(["localedef", "-c", "-i", "de_DE", "-f", "UTF-8", "--no-archive", d + "/de_DE.UTF-8"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
    except (OSError, subprocess.TimeoutExpired): return None
    e = {"LOCPATH": d, "LC_ALL": "de_DE.UTF-8", "VP_SETLOCALE": "1"}
    r = subprocess.run(["printf", "%.1f", "1,5"], env=dict(BASE_ENV, **e), capture_output=True) if os.path.isdir(d + "/de_DE.UTF-8") else None
    return e if r and r.stdout == b"1,5" else None

def _kill(p):
    try: os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError: pass

def run(cmd, stdin=b"", timeout=120, env=None, cwd=None, stdout=None, preexec=None, pass_fds=(), idle=None):
    """idle: seconds without anything on standard output after which the process counts as stuck."""
    e = dict(BASE_ENV)
    if env: e.update(env)
    t = time.time()
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE if stdout is None else stdout,
                         stderr=subprocess.PIPE, env=e, cwd=cwd, start_new_session=True, preexec_fn=preexec,
                         pass_fds=pass_fds)
    if idle is not None:
        # a copy of the output passes through a thread that notes when there was some
        seen = [time.time()]; parts = []; real = p.stdout
        def pump():
            while True:
                d = os.read(real.fileno(), 1 << 16)
                if not d: return
                parts.append(d); seen[0] = time.time()
        def watch():
            while p.poll() is None:
                now = time.time()
                if now - t > timeout or now - seen[0] > idle: stuck.append(1); _kill(p); return
                time.sleep(0.05)
        stuck = []; p.stdout = None
        th = [threading.Thread(target=pump), threading.Thread(target=watch)]
        for x in th: x.start()
        try: err = p.communicate(stdin)[1]
        except BrokenPipeError: err = b""
        for x in th: x.join()
        real.close()
        return Run(p.returncode, b"".join(parts), err, bool(stuck), time.time() - t)
    try:
        out, err = p.communicate(stdin, timeout=timeout)
        return Run(p.returncode, out or b"", err, False, time.time() - t)
    except subprocess.TimeoutExpired:
        _kill(p)
        out, err = p.communicate()
        return Run(p.returncode, out or b"", err, True, time.time() - t)

# something was found to hang: from then on no more time is spent on confirmations
hung = []
crashes = []; START = time.time()
def crashed(r):
    """Note a crash. When the system ends processes that use up all memory, or most of the time is gone, what there is suffices."""
    crashes.append(r)
    if sum(x.rc == -9 for x in crashes) >= 3 or len(crashes) >= 20 and time.time() - START > 480: hung.append(r)

def run_confirm(cmd, timeout=120, **kw):
    """As run; a timeout is inconclusive until it happens again with twice the time."""
    if hung: return run(cmd, timeout=min(timeout, 20), **kw)
    r = run(cmd, timeout=timeout, **kw)
    if r.timed_out:
        r = run(cmd, timeout=2 * timeout, **kw)
        if r.timed_out: hung.append(r)
    return r

class Ctx:
    def __init__(self, prop, tier, seed, level="exploration"):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.rng = random.Random("%s-%d" % (prop, seed))
        self.t0 = time.time()
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.counters = {}
        self.rule = ""
        self.assumptions = []
        self.exhaustive = None
        self.violations = {}      # key -> (message, replay files)
        self.tmp = tempfile.mkdtemp(prefix="vp.%s." % prop)
        os.chmod(self.tmp, 0o755)
        self.known = [k for k in load_known() if k.get("property") == prop and k.get("status") == "known"]
        self.known_seen = set()
    @property
    def quick(self): return self.tier == "quick"
    def n(self, quick, thorough):
        return quick if self.quick else thorough
    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n
    def case(self, sig, nontrivial=True, sample=None):
        """Record one evaluated case. sig identifies it; counted distinct if non-trivial."""
        self.evals += 1
        if nontrivial:
            self.distinct.add(hashlib.sha1(sig if isinstance(sig, bytes) else str(sig).encode()).digest()[:10])
        if sample is not None and len(self.samples) < 6:
            self.samples.append(sample)
    def violation(self, key, message, files=None):
        """key: stable identification of what failed. files: {name: bytes} for the replay."""
        for k in self.known:
            if re.fullmatch(k["match"], key):
                self.known_seen.add(k["id"])
                return
        if key not in self.violations:
            self.violations[key] = (message, files or {})
    def finish(self):
        shutil.rmtree(self.tmp, ignore_errors=True)
        cov = {"evaluations": self.evals, "distinct_nontrivial": len(self.distinct), "rule": self.rule,
               "samples": self.samples or ["(none)"]}
        if self.exhaustive is not None: cov["exhaustive"] = self.exhaustive
        cov.update({"observed": self.counters})
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations),
              "assumptions": self.assumptions}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True, default=str)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s%s" % (self.prop, k["what"],
                  "" if k["id"] in self.known_seen else " (not exercised in this run)"))
        if not self.violations:
            if self.evals == 0 or len(self.distinct) == 0:
                print("nothing observed; inconclusive"); return 2
            print("OK property=%s evaluations=%d distinct=%d wall=%.1fs" % (self.prop, self.evals, len(self.distinct), time.time() - self.t0))
            return 0
        base = os.path.join(VERIF, "replays", self.prop)
        for key, (msg, files) in list(self.violations.items())[:20]:
            d = os.path.join(base, hashlib.sha1(key.encode()).hexdigest()[:12])
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            with open(os.path.join(d, "README.txt"), "w") as f:
                f.write("property: %s\nkey: %s\nseed: %d tier: %s\n\n%s\n\nreplay: VERIF_SEED=%d VERIF_TIER=%s python3 bin/check %s\n"
                        % (self.prop, key, self.seed, self.tier, msg, self.seed, self.tier, self.prop))
            for n, b in files.items():
                with open(os.path.join(d, n), "wb") as f:
                    f.write(b if isinstance(b, bytes) else str(b).encode())
            print("VIOLATION property=%s replay=%s" % (self.prop, d))
            print("  key: %s" % key)
            print("  " + msg[:1500].replace("\n", "\n  "))
        return 1

def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p): return []
    return json.load(open(p))["findings"]
