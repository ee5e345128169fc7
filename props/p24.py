"""P24: threads. Mixes of independent jobs run in threads under TSan and stress; results against the same jobs run one after the other."""
import bz2, gzip, os, re, shutil
import vp, model, cases, p27
from p05 import first_file, suffix, ENC, objects
from p13 import history

TECHNIQUE = "runtime monitoring: ThreadSanitizer on concurrent independent readers, writers and utilities; results per thread compared with a single-threaded run"
NOTE = ("Random mixes of 2..8 threads, each with its own files, handlers, storages, filters, geometries and timestamps, with injected yields and "
        "delays at every step; data races by ThreadSanitizer, interference by comparing results. Explores interleavings by stress, not exhaustively.")

TYPES = ["osm", "osh", "osc"]
def plainbytes(p):
    try: b = open(p, "rb").read()
    except OSError: return None
    try:
        if p.endswith(".gz"): return gzip.decompress(b)
        if p.endswith(".bz2"): return bz2.decompress(b)
    except Exception as e: return b"damaged: " + repr(e).encode()
    return b

def mkjobs(ctx, rng, d, n):
    """jobs as functions of an output directory"""
    jobs = []
    kinds = [rng.choice("RWCXETGFDSOOAH") for _ in range(n)]
    if rng.random() < .4: kinds = [kinds[0]] * n                  # all the same
    if rng.random() < .15: kinds = [rng.choice("TDOF")] * n
    for i, k in enumerate(kinds):
        ctx.count("jobs " + k)
        p = os.path.join(d, "in%d" % i)
        if k in "RC":
            t, e = rng.choice(TYPES), rng.choice(ENC)
            p += suffix(t, e); first_file(rng, p, t, e, cases.rand_header(rng, t), objects(rng, t))
            if k == "R": jobs.append("R %s %s %s" % (t, e, p))
            else: t2, e2 = rng.choice(TYPES), rng.choice(ENC); jobs.append("C %s %s %s %%s/out%d%s %s %s" % (t, e, p, i, suffix(t2, e2), t2, e2))
        elif k == "W":
            t, e = rng.choice(TYPES), rng.choice(ENC)
            objs = objects(rng, t); h = cases.rand_header(rng, t)
            cases.write(p, ("\n".join(model.trace(h, objs)) + "\n").encode())
            jobs.append("W %s %s %%s/out%d%s %s" % (t, e, i, suffix(t, e), p))
        elif k == "X":
            e = rng.choice(ENC); p += suffix("osm", e)
            g = model.Gen(rng, history=False, undef_pos=False, plain_text=True)
            nodes = []; ids = list(range(1, rng.randint(5, 40)))
            for x in ids: o = g.obj("n", x); nodes.append(o)
            ways = []
            for x in range(1, rng.randint(2, 20)):
                o = g.obj("w", x); o.refs = [rng.choice(ids) for _ in range(rng.randint(2, 8))]
                if rng.random() < .5: o.refs[-1] = o.refs[0]
                ways.append(o)
            for o in nodes + ways:
                if o.uid <= 0: o.uid, o.user = -1, ""
            first_file(rng, p, "osm", e, cases.rand_header(rng, "osm"), nodes + ways); jobs.append("X " + p)
        elif k == "E":
            e = rng.choice(ENC); p += suffix("osh", e)
            first_file(rng, p, "osh", e, cases.rand_header(rng, "osh"), history(rng, rng.choice([2, 8]), False)); jobs.append("E " + p)
        elif k == "A":
            w, X, st = p27.build(rng, True, "cxml"); e = rng.choice(["xml", "gz", "bz2"])
            if any(v is None and i < 0 for i, v in w.pos.items()): jobs.append("O %d 60" % rng.randint(1, 10**6))
            else: jobs.append("A " + p27.write(rng, w, p, "c" + e))
        elif k == "H": jobs.append("H %d 60 %%s/shape%d" % (rng.randint(1, 10**6), i))
        else:
            jobs.append("%s %d %d" % (k, rng.randint(1, 10**6), {"T": 400, "G": 80, "F": 80, "D": 300, "S": 800, "O": 60}[k]))
    return jobs

def parse(out):
    res = {}; cur = None; order = None
    for l in out.split(b"\n"):
        if l.startswith(b"ORDER "): order = l.split()[1:]
        elif l.startswith(b"JOB "): cur = res.setdefault(int(l[4:]), [])
        elif cur is not None: cur.append(l)
    return order, res

SUPP = "called_from_lib:libgeos.so\ncalled_from_lib:libgeos_c.so\ncalled_from_lib:libxml2.so\ncalled_from_lib:libprotobuf-lite.so\ncalled_from_lib:libexpat.so\n"
def check(ctx):
    tsan, plain = vp.build_many([dict(src="harness/h24.cpp", variant=v, flags=["-I" + vp.VERIF + "/harness/geosold"], libs=["-lboost_regex", "-lshp", "-lgeos_c"]) for v in ("tsan", "plain")])
    from concurrent.futures import ThreadPoolExecutor
    ctx.rule = ("random mixes of 2..8 jobs (read, write, convert all formats; coordinates for ways and geometries; end times; timestamps; "
                "filters and texts of tags; file descriptions; storages and object store; accessors of objects, lists and boxes; multipolygons; shapefiles and text tables), each set run one after the other and several "
                "times in parallel. A case is one parallel run; non-trivial: distinct order of the steps of all threads.")
    ctx.assumptions = ["every object of the library is used by one thread only", "libxml2, expat, protobuf and zlib are safe for independent use"]
    supp = os.path.join(ctx.tmp, "supp"); cases.write(supp, SUPP.encode())
    env_t = {"TSAN_OPTIONS": vp.BASE_ENV["TSAN_OPTIONS"] + ":die_after_fork=0:report_signal_unsafe=0:suppressions=" + supp}
    rounds = ctx.n(100, 1500); runs_t, runs_p = ctx.n(3, 5), ctx.n(6, 12)
    sets = []
    for i in range(rounds):
        d = os.path.join(ctx.tmp, "r%d" % i); os.makedirs(d)
        import random
        rng = random.Random(ctx.rng.random())
        jobs = mkjobs(ctx, rng, d, rng.choice([2, 2, 3, 4, 6, 8])); sets.append((i, d, jobs))
    def one(d, jobs, exe, mode, seed, env):
        o = os.path.join(d, "%s%d" % (mode, seed)); os.makedirs(o)
        text = "".join((j % o if "%s" in j else j) + "\n" for j in jobs).encode()
        r = vp.run_confirm([exe, mode, str(seed)], stdin=text, timeout=120, env=env)
        outs = {f: plainbytes(os.path.join(o, f)) for f in sorted(os.listdir(o))}
        shutil.rmtree(o)
        return r, outs, text
    def work(s):
        i, d, jobs = s
        res = [("seq", one(d, jobs, plain, "seq", 0, vp.KEEP))]
        for k in range(1, runs_t + 1): res.append(("tsan", one(d, jobs, tsan, "par", 1000 * i + k, env_t)))
        for k in range(1, runs_p + 1): res.append(("plain", one(d, jobs, plain, "par", 1000 * i + 500 + k, vp.KEEP)))
        return s, res
    norm = lambda b: re.sub(rb'/(seq|par)\d+/', b'/DIR/', b)
    with ThreadPoolExecutor(ctx.n(4, 6)) as ex:
        for (i, d, jobs), res in ex.map(work, sets):
            base = parse(norm(res[0][1][0].out))[1]; bouts = res[0][1][1]
            for kind, (r, outs, text) in res:
                files = {"jobs.txt": text, "stdout.txt": r.out, "stderr.txt": r.err}
                if r.timed_out or r.rc != 0:
                    ctx.violation("threads:%s:%s" % (kind, r.crash_key()), "jobs %r %s" % (jobs, r.err.decode("utf8", "replace")[-1500:]), files); continue
                order, got = parse(norm(r.out))
                if kind != "seq":
                    ctx.case(order[0], int(order[1]) > 0, {"jobs": jobs, "order": order[0].decode(), "switches": int(order[1]), "steps": int(order[2])} if ctx.evals < 3 else None)
                    ctx.count("switches between threads", int(order[1])); ctx.count("steps of threads", int(order[2])); ctx.count("runs " + kind)
                for j in range(len(jobs)):
                    k = jobs[j][0]
                    if got.get(j) != base.get(j):
                        a, b = got.get(j) or [], base.get(j) or []
                        q = next((x for x in range(min(len(a), len(b))) if a[x] != b[x]), min(len(a), len(b)))
                        ctx.violation("threads:%s result" % k, "job %s alone: %r in threads: %r" % (jobs[j], b[q:q+2], a[q:q+2]), files)
                if outs != bouts:
                    x = next(f for f in sorted(set(outs) | set(bouts)) if outs.get(f) != bouts.get(f))
                    ctx.violation("threads:file written", "%s of jobs %r differs" % (x, jobs), files)
    for _, d, _ in sets: shutil.rmtree(d, ignore_errors=True)
