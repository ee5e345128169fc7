"""P09: failed writes. Faults injected at every byte and call; outcome and file compared with the fault-free run."""
import bz2, gzip, os, stat
import vp, model, cases, server
from p03 import write_job, decompress
from p05 import suffix, objects

TECHNIQUE = "fault injection (write/close wrappers, RLIMIT_FSIZE, /dev/full, failing compressors) with an outcome monitor; part under ASan+UBSan"
NOTE = ("Write errors are injected at every byte (small outputs) or at random bytes, at single calls, at close and in the compression "
        "programs; short writes of any size. The monitor requires an exception whenever a byte was lost and a complete file whenever "
        "final returned normally. Sampling of workloads; fault positions enumerated for small outputs.")

def stream(objs, h):
    return "\n".join(model.trace(h, objs)) + "\n"

def check(ctx):
    exe, asan = vp.build_many([dict(src="harness/h09.cpp", variant="plain", flags=["-rdynamic"]), dict(src="harness/h09.cpp", flags=["-rdynamic"])])
    rng = ctx.rng
    ctx.rule = ("random outputs (types x XML/gzip/bzip2/PBF with settings, 0..2000 objects, several blocks) x faults: file size limit or EIO/ENOSPC "
                "after N bytes (every N for small outputs), one failing write, failing close, interrupted write, short writes, /dev/full, "
                "missing, failing and killed compression programs, unwritable destinations, SIGPIPE default and ignored. "
                "Non-trivial: fault that fired (or short writes).")
    ctx.assumptions = ["libxml2 and the compression programs report the errors they get"]
    outs = []
    for i in range(ctx.n(22, 120)):
        enc = ["xml", "pbf", "gz", "pbf", "bz2", "xml"][i % 6]
        ftype = rng.choice(["osm", "osm", "osh", "osc"])
        n = 0 if i < 6 else rng.randint(1, 12) if i < 14 else rng.choice([60, 300, 2000])
        g = model.Gen(rng, history=ftype != "osm", meta=1, undef_pos=False, plain_text=True)
        objs = g.objs(n)
        if i == 15: # several PBF blocks
            objs = [o for o in g.objs(17000, "n")]; 
            for o in objs: o.tags = []
        h = cases.rand_header(rng, ftype, gen=False)
        m = os.path.join(ctx.tmp, "m%d" % i); cases.write(m, stream(objs, h).encode())
        opts = "-" if enc != "pbf" or rng.random() < .4 else rng.choice(["zd", "z", "d", "x"])
        ref = os.path.join(ctx.tmp, "ref%d" % i)
        outs.append([ftype, enc, opts, m, ref, n])
    rr = server.parallel(asan, ["w none dfl %s %s %s %s %s" % (o[0], o[1], o[2], o[4], o[3]) for o in outs], batch=10)
    todo = []
    nout = [0]
    def add(o, fault, sig, must, what, env=None, path=None, use=exe):
        nout[0] += 1
        p = path or os.path.join(ctx.tmp, "o%d" % nout[0])
        todo.append(("w %s %s %s %s %s %s %s" % (fault, sig, o[0], o[1], o[2], p, o[3]), o, must, what, env, p, use, sig))
    for o, r in zip(outs, rr):
        if r.crash or r.end != "ok":
            ctx.violation("no-fault:" + (r.crash or r.end.split(" ")[1]), "writing without faults failed: %s" % (r.crash or r.end), {"model": open(o[3], "rb").read()}); continue
        data = open(o[4], "rb").read(); raw = decompress(data, o[1])
        o.append(raw); size = len(data); calls = int(r.lines[-1].split(" ")[3])
        o.append(data)
        ctx.count("outputs " + o[1])
        whole = o[1] in ("gz", "bz2")
        lim = ctx.n(230, 3000)
        pts = range(size) if size <= lim else sorted(set(rng.sample(range(size), lim // 2)) | {0, 1, size - 1, size - 2, size // 2} | {k for k in (1023, 1024, 4095, 4096, 16383, 16384, 65536) if k < size})
        if whole: pts = rng.sample(list(pts), min(len(list(pts)), ctx.n(50, 600)))
        for k in pts: add(o, "fsize:%d" % k, "dfl", True, "file size limit")
        pts = range(len(raw)) if len(raw) <= lim else sorted(rng.sample(range(len(raw)), lim // 2))
        if whole: pts = rng.sample(list(pts), min(len(list(pts)), ctx.n(40, 400)))
        for k in pts:
            if rng.random() < .5: add(o, "%s:%d" % (rng.choice(["eio", "enospc"]), k), "dfl", True, "write error")
        for k in range(1, min(calls, ctx.n(40, 400)) + 1): add(o, "once:%d" % k, "dfl", True, "one failing write"); add(o, "eintr:%d" % k, "dfl", None, "interrupted write")
        for k in sorted(rng.sample(range(1, calls + 1), min(calls, 10))): add(o, "once:%d" % k, "dfl", True, "one failing write", use=asan)
        add(o, "once:%d" % calls, "dfl", True, "one failing write")
        for mx in (1, 2, 3, 7, 100, 5000, rng.randint(1, 70000)):
            if len(raw) / mx < 300000: add(o, "short:%d:%d" % (rng.randint(1, 10**6), mx), "dfl", False, "short writes", use=rng.choice([exe, asan]))
        if not whole: add(o, "close:1", "dfl", True, "failing close")
        for s in ("dfl", "ign"):
            add(o, "none", s, True, "/dev/full", path="/dev/full")
            add(o, "none", s, True, "missing directory", path=os.path.join(ctx.tmp, "none", "x"))
            add(o, "none", s, True, "directory", path=ctx.tmp)
    def helper(body):
        d = os.path.join(ctx.tmp, "bin%d" % nout[0]); nout[0] += 1; os.mkdir(d)
        if body is not None:
            for n in ("gzip", "bzip2"):
                with open(os.path.join(d, n), "w") as f: f.write("#!/bin/sh\n" + body.replace("PROG", "/usr/bin/" + n) + "\n")
                os.chmod(os.path.join(d, n), 0o755)
        return {"PATH": d}
    fails = [(None, "missing"), ("exit 1", "exit 1 at once"), ("kill -9 $$", "killed at once"), ("/usr/bin/cat >/dev/null; exit 1", "reads all, exit 1"),
             ("PROG; exit 1", "writes all, exit 1"), ("PROG; kill -9 $$", "writes all, killed"), ("PROG; kill -TERM $$", "writes all, terminated"),
             ("/usr/bin/head -c 100 | PROG; exit 0", "reads a part, exit 0"), ("/usr/bin/head -c 100 | PROG; exit 3", "reads a part, exit 3"),
             ("PROG; exec <&- >&-; /usr/bin/sleep 0.15; exit 2", "closes, then exit 2"), ("PROG; exit 255", "exit 255")]
    for o in outs:
        if o[1] not in ("gz", "bz2") or len(o) < 8: continue
        for body, what in fails:
            for s in ("dfl", "ign"):
                # a program that reads only a part and claims success: the writer notices only if its writes fail
                must = True if "exit 0" not in what else (None if len(o[6]) < 200000 else True)
                add(o, "none", s, must, "compressor: " + what, env=helper(body))
        add(o, "none", "dfl", False, "compressor: slow", env=helper("/usr/bin/sleep 0.1; PROG"))
    # unwritable file, as another user
    groups = {}
    for t in todo: groups.setdefault((t[6], t[4]["PATH"] if t[4] else None), []).append(t)
    ordered = []
    from concurrent.futures import ThreadPoolExecutor
    small = [(k, g) for k, g in groups.items() if k[1]]
    def one(kg):
        k, g = kg
        return list(zip(g, server.jobs(k[0], [t[0] for t in g], env={"PATH": k[1]}, timeout=120)))
    with ThreadPoolExecutor(8) as ex:
        for l in ex.map(one, small): ordered += l
    for k, g in groups.items():
        if not k[1]: rng.shuffle(g); ordered += list(zip(g, server.parallel(k[0], [t[0] for t in g], batch=300)))
    for (job, o, must, what, env, p, use, sig), r in ordered:
        fault = job.split(" ")[1]
        key = "%s:%s" % (o[1], what)
        f = {"job.txt": job, "model.txt": open(o[3], "rb").read()}
        ctx.count("fault " + what.split(":")[0])
        if use is asan: ctx.count("runs under ASan+UBSan")
        ctx.case(job.replace(ctx.tmp, "").replace("/o%s" % p.rsplit("/o", 1)[-1], "") + what, True, {"fault": fault, "what": what, "enc": o[1], "outcome": (r.end or r.crash or "")[:70]})
        if r.crash:
            if r.crash in ("exit:-13", "signal:-13") and sig == "dfl" and o[1] in ("gz", "bz2") and must is not False:
                ctx.count("ended by SIGPIPE"); continue
            ctx.violation("crash:%s:%s" % (key, r.crash), "%s (%s): %s\n%s" % (what, job, r.crash, r.run.err[-1500:].decode("utf-8", "replace")), f); continue
        fired = int(r.lines[-1].split(" ")[1]); fin = int(r.lines[-1].split(" ")[5])
        ctx.count("faults fired", fired)
        if r.end == "ok":
            if must is True and not (fault.split(":")[0] in ("once", "close", "eio", "enospc") and not fired):
                ctx.violation("unreported:" + key, "%s (%s): final returned normally" % (what, job), f); continue
            if p.startswith(ctx.tmp):
                got = open(p, "rb").read() if os.path.isfile(p) else None
                try: raw = decompress(got, o[1]) if got is not None else None
                except Exception: raw = None
                if raw != o[6] and not (must is None and "exit 0" in what):
                    ctx.violation("incomplete:" + key, "%s (%s): final returned normally, but the file is not the complete output (%s of %d bytes)" % (what, job, None if got is None else len(got), len(o[7])), f); continue
            ctx.count("completed")
        else:
            ctx.count("reported")
            if must is False: ctx.violation("alarm:" + key, "%s (%s): %s although everything could be written" % (what, job, r.end), f)
            if fin: ctx.violation("late:" + key, "%s (%s): exception after final returned: %s" % (what, job, r.end), f)
        if p.startswith(os.path.join(ctx.tmp, "o")) and os.path.isfile(p): os.unlink(p)
