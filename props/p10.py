"""P10: resources. Descriptors, children, heap and mappings accounted after every scenario; many files open at once."""
import bz2, gzip, os, re
import vp, model, xmlio, pbf, cases, server, p02
from p03 import decompress
from p05 import first_file, suffix, ENC

TECHNIQUE = "runtime monitoring: accounting of descriptors, children, live heap and mappings per repetition, LeakSanitizer, deadlock watchdog"
NOTE = ("Scenarios (reading, writing, converting, file objects, stores; ended normally, by stop, by exceptions, by faults) are repeated in one "
        "process and what remains is counted; a part under LeakSanitizer. Scripts keep many compressed inputs and outputs open in "
        "random order and compare every result with the one obtained alone.")

REPS = 5
def objs_for(rng, n, hist=False):
    g = model.Gen(rng, history=hist, meta=1, undef_pos=False, anon_user=False, plain_text=True)
    g.users = [(1, "a"), (2, "user name")]
    out = g.objs(n)
    if n >= 40 and rng.random() < .6:       # some objects beyond every size reserved for them
        k = rng.choice([2000, 2001, 3000, 5000])
        for o in rng.sample(out, min(len(out), 12)):
            if o.t == "w": o.refs = [rng.randint(1, 10**9) for _ in range(k)]
            if o.t == "r": o.members = [(rng.choice("nwr"), rng.randint(1, 10**9), rng.choice(["", "a role", "another role which is long"])) for _ in range(k)]
            if rng.random() < .3: o.tags = [("key%d" % i, "some value, some value %d" % i) for i in range(rng.choice([50, 300]))]
    return out

def scenarios(ctx, rng):
    """(job, name, env or None)"""
    out = []
    R = REPS
    def T(*p): return os.path.join(ctx.tmp, *p)
    files = []
    for i in range(ctx.n(8, 60)):
        enc = ENC[i % 4]; ftype = rng.choice(["osm", "osm", "osh"])
        n = rng.choice([0, 5, 40]) if i < 4 else rng.choice([5, 60, 3000])
        h = cases.rand_header(rng, ftype)
        p = T("in%d%s" % (i, suffix(ftype, enc)))
        exp = first_file(rng, p, ftype, enc, h, objs_for(rng, n, ftype != "osm"))
        tr = model.trace(h, exp)
        files.append((ftype, enc, p, len(tr)))
        m = T("model%d" % i); cases.write(m, ("\n".join(tr) + "\n").encode())
        files[-1] += (m,)
    k = 0
    for ftype, enc, p, n, m in files:
        out.append(("read %d %s %s -1 0 %s" % (R, ftype, enc, p), "read %s to the end" % enc, None))
        for how in (1, 2):
            for s in {0, 1, n - 1, rng.randrange(n), n // 2, n - 2}:
                if 0 <= s < n: out.append(("read %d %s %s %d %d %s" % (R, ftype, enc, s, how, p), "read %s %s" % (enc, ["", "stopped", "exception"][how]), None))
        data = open(p, "rb").read()
        for _ in range(ctx.n(2, 6)):
            q = T("bad%d" % k); k += 1
            b = bytearray(data[:rng.randrange(len(data))] if rng.random() < .6 else data)
            if len(b) == len(data): b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
            cases.write(q, bytes(b)); out.append(("read %d %s %s -1 0 %s" % (R, ftype, enc, q), "read damaged %s" % enc, None))
        out.append(("read %d %s %s -1 0 %s" % (R, ftype, enc, T("none")), "read missing %s" % enc, None))
        if enc == "pbf": out.append(("read %d %s %s -1 0 %s" % (R, "osh" if ftype == "osm" else "osm", enc, p), "read wrong type", None))
        for e2 in ENC:
            q = T("out%d" % k); k += 1
            out.append(("write %d %s %s -1 0 %s %s" % (R, ftype, e2, q, m), "write %s" % e2, None))
            for how in (0, 1):
                for s in rng.sample([0, 1, n - 1, rng.randrange(n), n // 2], ctx.n(2, 4)): out.append(("write %d %s %s %d %d %s %s" % (R, ftype, e2, s, how, q, m), "write %s %s" % (e2, ["abandoned", "exception"][how]), None))
            out.append(("write %d %s %s -1 0 /dev/full %s" % (R, ftype, e2, m), "write %s /dev/full" % e2, None))
            out.append(("write %d %s %s -1 0 %s %s" % (R, ftype, e2, T("none", "x"), m), "write %s no directory" % e2, None))
            out.append(("conv %d %s %s %s %s %s %s" % (R, ftype, enc, p, ftype, e2, q), "convert to %s" % e2, None))
        out.append(("write %d %s pbf %d 3 %s %s" % (R, ftype, rng.choice([-1, 0, 1, n // 2]), q, m), "write pbf directly", None))
        q2 = T("bad%d" % (k - 1 if os.path.exists(T("bad%d" % (k - 1))) else 0))
        if os.path.exists(q2): out.append(("conv %d %s %s %s %s %s %s" % (R, ftype, enc, q2, ftype, rng.choice(ENC), q), "convert damaged", None))
        for _ in range(ctx.n(4, 20)):
            ops = "".join(rng.choice("oocawdbspqx") for _ in range(rng.randint(1, 9)))
            # a file must not be opened twice without closing it, nor opened for reading while open for writing
            s = ""; fo = go = False
            for c in ops:
                if c == "o" and fo: c = "c"
                if c == "w" and go: c = "d"
                if c == "b": continue
                if c == "o": fo = True
                if c in "ca": fo = False
                if c == "w": go = True
                if c == "d": go = False
                if c == "c": s += "c"; continue
                s += c
            out.append(("file %d %s %s %s %s %s" % (R, s or "o", ftype, enc, p, T("fo%d" % k)), "file object %s" % enc, None)); k += 1
    for kind in ("fixed", "anon", "file", "named", "nodir", "dev", "fail", "failfile", "sparse", "map", "vector"):
        for c in ("clear", "destroy"): out.append(("store %d %s %s %s" % (R, kind, c, T("st" + kind + c)), "store %s" % kind, None))
    for c in ("clear", "destroy"): out.append(("store %d huge %s x" % (R, c), "store huge", None))
    # failing system calls
    for ftype, enc, p, n, m in files:
        for kind, errs in (("pipe2", (24, 23)), ("fork", (11, 12)), ("open64", (24, 13, 5)), ("dup2", (16, 24)), ("read", (5, 21)), ("waitpid", (4,))):
            for nth in (1, 2) if kind not in ("read",) else (1, 2, 3, 7):
                e = rng.choice(errs); e2 = rng.choice(ENC); q = T("out%d" % k); k += 1; f = " @%s:%d:%d" % (kind, nth, e)
                out.append(("read %d %s %s -1 0 %s" % (R, ftype, enc, p) + f, "fault %s read" % kind, None))
                if kind != "read": out.append(("write %d %s %s -1 0 %s %s" % (R, ftype, e2, q, m) + f, "fault %s write" % kind, None))
                out.append(("conv %d %s %s %s %s %s %s" % (R, ftype, enc, p, ftype, e2, q) + f, "fault %s convert" % kind, None))
                if kind != "waitpid": out.append(("file %d %s %s %s %s %s" % (R, rng.choice(["o", "w", "opqx", "qq", "oca", "ow"]), ftype, enc, p, T("fo%d" % k)) + f, "fault %s file object" % kind, None))
    for kind in ("anon", "file", "named"):
        for call in ("mmap64", "mremap", "ftruncate64", "fstat64", "tmpfile64", "dup", "open64"):
            for nth in (1, 2, 3):
                out.append(("store %d %s %s %s @%s:%d:%d" % (R, kind, rng.choice(["clear", "destroy"]), T("stf" + kind), call, nth, rng.choice([12, 28, 24])), "fault %s store" % call, None))
    # failing helper programs
    C = "/usr/bin/"
    for i, body in enumerate([None, "exit 1", "kill -9 $$", C + "head -c 50; exit 0", C + "cat; exit 3", C + "sleep 0.05; exit 1"]):
        d = T("bin%d" % i); os.mkdir(d)
        if body:
            for n in ("gzip", "bzip2", "zcat", "bzcat", "curl"):
                cases.write(os.path.join(d, n), ("#!/bin/sh\n" + body + "\n").encode()); os.chmod(os.path.join(d, n), 0o755)
        f = [x for x in files if x[1] == "gz"][0]
        for e in ("gz", "bz2"):
            out.append(("write %d %s %s -1 0 %s %s" % (R, f[0], e, T("h%d" % i), f[4]), "write %s failing program" % e, d))
            out.append(("read %d %s %s -1 0 %s" % (R, f[0], e, f[2]), "read %s failing program" % e, d))
        for e in ("xml", "pbf"): out.append(("read %d osm %s -1 0 http://localhost:1/x" % (R, e), "download failing %s" % e, d))
    return out

def judge(ctx, name, job, lines, files, reps, lsan):
    acc = []
    for l in lines:
        m = re.match(r"ACC (-?\d+) fds (\d+) children (\w+) heap (\d+) maps (\d+) hits (\d+) (\d+) res (.*)", l)
        if m: acc.append((int(m.group(2)), m.group(3), int(m.group(4)), int(m.group(5)), m.group(8), int(m.group(6)), int(m.group(7))))
    if len(acc) != reps + 1: ctx.violation("incomplete:" + name, "%s: %d repetitions reported" % (job, len(acc) - 1), files); return
    ctx.count("repetitions accounted", reps); ctx.count("ended " + acc[-1][4].split(" ")[0] + " " + (acc[-1][4].split(" ") + [""])[1][:20])
    f0 = acc[0][0]
    if "@" in job:      # the system call failed
        kind = job.split("@")[1].split(":")[0]; hits = sum(a[5] for a in acc); ch = sum(a[6] for a in acc)
        if hits: ctx.count("failed calls of " + kind, hits)
        if ch: ctx.count("failed calls in helper processes of " + kind, ch)
        for i, a in enumerate(acc[1:]):
            if kind == "waitpid":
                if (a[5] or a[6]) and a[4] != "ok": ctx.violation("interrupted:" + name, "%s: a signal interrupts waiting for the helper process: %s" % (job, a[4]), files); break
            elif a[4] == "ok" and (a[5] or a[6] and kind != "open64" or a[6] and "write" in job and ":1:" in job) and not name.endswith("object"): ctx.violation("unreported:" + name, "%s: a failing %s is not reported" % (job, kind), files); break
    for i, a in enumerate(acc[1:]):
        if a[0] > f0: ctx.violation("descriptor:" + name, "%s: %d descriptors open before, %d after repetition %d (%s)" % (job, f0, a[0], i, a[4]), files); break
        if a[0] < f0: ctx.violation("descriptor-closed:" + name, "%s: closed a descriptor it does not own" % job, files); break
    for i, a in enumerate(acc[1:]):
        if a[1] != "none": ctx.violation("child:" + name, "%s: a helper process was not waited for (%s) after repetition %d" % (job, a[1], i), files); break
    if not lsan:
        h = [a[2] for a in acc[2:]]
        if len(h) > 2 and all(y > x for x, y in zip(h, h[1:])): ctx.violation("heap:" + name, "%s: live heap grows with every repetition: %s" % (job, h), files)
        m = [a[3] for a in acc[2:]]
        if len(m) > 2 and all(y > x for x, y in zip(m, m[1:])): ctx.violation("mappings:" + name, "%s: mappings grow with every repetition: %s" % (job, m), files)

def script(ctx, rng, i, refs):
    """random interleaving; returns (lines, expected reads, expected outputs)"""
    ops = []; reads = {}; outs = []; cnt = [0, 0]
    openw = {}
    budget = [rng.randint(8, 60)]
    def step(depth):
        while budget[0] > 0:
            budget[0] -= 1
            r = rng.random()
            if r < .25 and len(openw) < 7:
                w = cnt[0]; cnt[0] += 1; ref = rng.choice(refs); enc = rng.choice(["gz", "bz2", "gz", "bz2", "xml", "pbf"])
                p = os.path.join(ctx.tmp, "sc%d_%d" % (i, w))
                ops.append("W\t%d\t%s\t%s" % (w, enc, p)); openw[w] = [list(ref[2]), p, enc, ref]
            elif r < .65 and openw:
                w = rng.choice(list(openw)); q = openw[w][0]
                for _ in range(rng.randint(1, 8)):
                    if not q: break
                    ops.append("M\t%d\t%s" % (w, q.pop(0)))
                if not q:
                    outs.append((openw[w][1], openw[w][2], openw[w][3]))
                    if rng.random() < .6: ops.append("D\t%d" % w)
                    del openw[w]
            elif r < .70 and openw:
                w = rng.choice(list(openw)); ops.append("D\t%d" % w); del openw[w]
            elif r < .78: ops.append("X\t%d" % rng.choice([1, 5, 35, 60]))
            elif r < .82: ops.append("x")
            elif depth < 5:
                ref = rng.choice(refs); enc = rng.choice(list(ref[1])); n = cnt[1]; cnt[1] += 1
                k = rng.randrange(len(ref[2]) - 1)
                reads[n] = ref[3]
                ops.append("R\t%d\t%s\t%s\t%d" % (n, enc, ref[1][enc], k))
                if k < len(ref[2]) - 1:
                    step(depth + 1); ops.append("E")
            if depth and rng.random() < .2: return
    step(0)
    if rng.random() < .5:
        for w in list(openw):
            if rng.random() < .7:
                for l in openw[w][0]: ops.append("M\t%d\t%s" % (w, l))
                outs.append((openw[w][1], openw[w][2], openw[w][3])); del openw[w]
    return ops, reads, outs

def check(ctx):
    W = ["-Wl,--wrap=" + n for n in ("pipe2", "pipe", "fork", "vfork", "dup2", "dup", "tmpfile64", "ftruncate64", "mmap64", "mremap", "fstat64", "read", "waitpid", "open64")]
    asan, plain, io = vp.build_many([dict(src="harness/h10.cpp", flags=["-DVP_LSAN"] + W), dict(src="harness/h10.cpp", variant="plain", flags=W), dict(src="harness/io.cpp", variant="plain")])
    rng = ctx.rng
    ctx.rule = ("scenarios x files of every encoding x ways to end (normally, StopReading and exceptions at several callbacks, damaged and missing "
                "files, failing writes and helper programs, abandoned writers), each repeated %d times in one process; scripts with up to 7 outputs and 5 "
                "nested inputs open at once with 0..200 other descriptors and with stdin/stdout/stderr closed. Non-trivial: every scenario." % REPS)
    ctx.assumptions = ["memory still reachable but not growing (library-wide tables) is not a leak", "a file object is not opened twice without close()"]
    sc = scenarios(ctx, rng)
    T = {"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"}
    rng.shuffle(sc)
    normal = [s for s in sc if s[2] is None]; k = len(normal) // 3
    LS = {"ASAN_OPTIONS": vp.BASE_ENV["ASAN_OPTIONS"].replace("detect_leaks=0", "detect_leaks=1")}
    batches = [(normal[:k], asan, LS, True), (normal[k:], plain, T, False)]
    for d in sorted({s[2] for s in sc if s[2]}):
        batches.append(([s for s in sc if s[2] == d], plain, dict(T, PATH=d), False))
    # LeakSanitizer needs to trace its own threads
    probe = server.jobs(asan, ["store 1 map clear x"], env=LS)[0]
    lsan_ok = not probe.crash and b"LeakSanitizer has encountered" not in probe.run.err
    ctx.count("LeakSanitizer usable", int(lsan_ok))
    for group, exe, env, lsan in batches:
        if lsan and not lsan_ok: env = None
        for (job, name, d), r in zip(group, server.parallel(exe, [s[0] for s in group], batch=12, env=env, timeout=200)):
            f = {"job.txt": job, "got.txt": "\n".join(r.lines)}
            ctx.case(job.replace(ctx.tmp, ""), True, {"job": job.replace(ctx.tmp + "/", ""), "name": name}); ctx.count("scenario " + name.split(" ")[0])
            if r.crash and "LeakSanitizer" not in r.crash:
                ctx.violation("crash:%s:%s" % (name, r.crash), "%s: %s\n%s" % (job, r.crash, r.run.err[-1500:].decode("utf-8", "replace")), f); continue
            judge(ctx, name, job, r.lines, f, REPS, lsan)
            if lsan and any(l == "LEAK 1" for l in r.lines):
                # a process that leaked once reports it again after every later job: identified by where it was allocated
                m = re.search(r" in ([^(\n]+?)[(<][^\n]* %s/(\S+?):\d+" % vp.REPO, r.run.err.decode("utf-8", "replace"))
                ctx.violation("leak:" + (m.group(2) if m else name), "%s: LeakSanitizer reports leaked memory\n%s" % (job, r.run.err[:2500].decode("utf-8", "replace")), f)
            if lsan and lsan_ok: ctx.count("leak checks")
    # many files at once
    refs = []
    for i in range(ctx.n(5, 12)):
        h = cases.rand_header(rng, "osm", gen=False)
        objs = objs_for(rng, rng.choice([3, 20, 300, 3000 if i == 0 else 50]))
        files = {}
        for e in ENC:
            p = os.path.join(ctx.tmp, "ref%d.%s" % (i, e))
            if e == "pbf": data, exp, _ = p02.encode_file(vp.random.Random(i), h, objs, False, opts=pbf.Opts(rng=rng), junk=False)
            else:
                data, exp2 = xmlio.XmlWriter(vp.random.Random(i), "plain").document(h, objs, "osm"); data = cases.compress(vp.random.Random(i), data, e)
            cases.write(p, data); files[e] = p
        tr = model.trace(h, objs)
        refs.append([h, files, tr, tr])
    # reference outputs, written alone
    for i, ref in enumerate(refs):
        m = os.path.join(ctx.tmp, "rm%d" % i); cases.write(m, ("\n".join(ref[2]) + "\n").encode())
        ref.append({})
        for e in ENC:
            p = os.path.join(ctx.tmp, "ro%d.%s" % (i, e))
            r = server.jobs(io, ["write osm %s - %s %s" % (e, p, m)])[0]
            if r.end != "ok": ctx.violation("alone:" + e, "writing alone failed: %s" % (r.crash or r.end), {}); return
            ref[4][e] = decompress(open(p, "rb").read(), e)
    def one(i):
        r = vp.random.Random("%s-%d-%d" % (ctx.prop, ctx.seed, i))
        ops, reads, outs = script(ctx, r, i, refs)
        sp = os.path.join(ctx.tmp, "script%d" % i); cases.write(sp, ("\n".join(ops) + "\n").encode())
        low = r.choice([0, 0, 1, 2, 3, 4, 7])
        rp = os.path.join(ctx.tmp, "result%d" % i)
        run = vp.run_confirm([plain, sp, rp, str(low)], timeout=60, env=dict(T))
        return ops, reads, outs, low, rp, run
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex: rs = list(ex.map(one, range(ctx.n(120, 2500))))
    for i, (ops, reads, outs, low, rp, run) in enumerate(rs):
        f = {"script.txt": "\n".join(ops), "stderr.txt": run.err[-3000:]}
        nm = "many files"
        ctx.case("\n".join(ops) + str(low), bool(reads or outs), {"script": i, "reads": len(reads), "outputs": len(outs), "closed": low}); ctx.count("scripts"); ctx.count("script operations", len(ops))
        if run.timed_out: ctx.violation("deadlock", "script with %d inputs and %d outputs does not end (closed %d)" % (len(reads), len(outs), low), f); continue
        if run.crashed or run.rc: ctx.violation("crash:many:" + run.crash_key(), "%s" % run.err[-1500:].decode("utf-8", "replace"), f); continue
        lines = open(rp, encoding="latin-1").read().split("\n")
        f["result.txt"] = "\n".join(lines)[:200000]
        judge(ctx, nm, "script closed=%d" % low, [l for l in lines if l.startswith("ACC")], f, 3, False)
        bad = [l for l in lines if l.startswith("ACC") and not l.endswith("res ok") and not l.endswith("res start")]
        if bad: ctx.violation("exception:many", "script ended with %s" % bad[0], f)
        # reads of the last repetition (all must be equal)
        got = []
        for l in lines:
            if l.startswith("READ "): got.append((int(l[5:]), []))
            elif l.startswith("ENDREAD "):
                if not l.endswith(" ok"): ctx.violation("exception:many-read", l, f)
            elif not l.startswith("ACC") and got: got[-1][1].append(l)
        if len(got) != 3 * len(reads): ctx.violation("reads:many", "%d reads, expected %d" % (len(got), 3 * len(reads)), f)
        for n, tr in got:
            ctx.count("reads compared")
            exp = reads[n]
            if tr and tr[-1] == "": tr = tr[:-1]
            d = model.diff(exp, tr)
            if d: ctx.violation("read-differs:many", "input read with others open: %s" % d, f); break
        for p, e, ref in outs:
            ctx.count("outputs compared")
            try: raw = decompress(open(p, "rb").read(), e)
            except Exception as ex2: raw = str(ex2).encode()
            if raw != ref[4][e]: ctx.violation("output-differs:" + e, "output %s written with others open differs from the one written alone" % e, f)
