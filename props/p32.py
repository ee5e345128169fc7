"""P32: memory and time while long streams pass."""
import os, re, shutil
from concurrent.futures import ThreadPoolExecutor
import vp

TECHNIQUE = "runtime monitoring: bytes allocated (and processor time) sampled at every step of long streams through writers, readers and handler chains, judged by thirds of each phase"
NOTE = ("Streams of 40 000 to 130 000 objects of each type (6 times as many in thorough runs) in every encoding through the writers, readers, stores, assemblers and handlers, heap in use sampled 600 times in each phase; growth of some 20 bytes per "
        "object is seen. Processor time: only growth of the cost per object by more than three times between the thirds of a phase is reported, if it repeats. Sampling.")

ALL = ["null", "debug", "progress", "bbox", "geom", "tags", "last", "merge"]
STORES = ["sparse", "vector", "anon", "file", "fixed"]

def plan(ctx):
    """(type, encoding, objects, chains)"""
    x, p = ctx.n(40000, 240000), ctx.n(130000, 400000); f = ctx.n(40000, 120000)
    r = [("osm", "", x, ALL[:4]), ("osm", "", x, ALL[4:] + ["out.osm"]), ("osm", "", x, STORES), ("osm", "", x, ["assemble", "multi"]), ("osm", ".gz", x, ["null", "out.osm.bz2", "endtime"]), ("osm", ".bz2", x, ["null", "out.osm.gz", "geom"]),
         ("osh", "", x // 3, ["null", "endtime", "debug", "out.osh"]), ("osh", ".gz", x // 3, ["endtime", "out.osh.bz2"]), ("osc", "", x, ["null", "tags", "out.osc"]), ("osc", ".gz", x, ["last", "out.osc"]),
         ("osm", ".pbf", p, ["null", "last", "geom", "merge"]), ("osm", ".pbf", p, ["out.osm.pbf", "tags", "progress"]), ("osm", ".pbf", p, ["sparse", "assemble"]), ("osm", ".pbf", f * 2, ["multi", "out.osm", "bbox"]), ("osh", ".pbf", f, ["null", "endtime", "out.osh.pbf"]), ("osm", ".pbf", p, ["anon", "vector", "debug"]), ("osm", "", 6000, ["objects"]), ("osh", ".pbf", 3000, ["objects"])]
    return r * ctx.n(1, 3)

def judge(out, n, hist, pbf):
    """list of (key, text)"""
    bad = []; first = {}
    for l in out.split("\n"):
        w = l.split()
        if w[:1] == ["PHASE"]:
            what, cnt, m1, m2, m3, t1, t2, t3, end = w[1], *map(int, w[2:]); c, ph = what.rsplit(":", 1); lim = m2 + m2 // 20 + 300000; first[what] = end
            if c in ("sparse", "vector", "multi2", "assemble2") and ph == "n": lim = max(lim, 24 * n + 4000000)               # a position for each id, in tables that double
            if c in ("assemble1", "multi1") and ph == "r": lim = max(lim, 4000 * cnt + 8000000)                                # the relations are kept
            if m3 > lim: bad.append(("memory:%s" % what, "in phase %s of %d objects memory in use grows: at most %d, %d, %d bytes more than at its start in its first, second and last third" % (what, cnt, m1, m2, m3)))
            if t3 > 3.5 * max(t1, t2) + 150000: bad.append(("time:%s" % what, "in phase %s of %d objects the thirds take %d, %d, %d microseconds" % (what, cnt, t1, t2, t3)))
            if c in ("assemble2", "multi2") and ph == "w" and end > -first[c[:-1] + "1:r"] // 2 + 4000000: bad.append(("released:%s" % what, "relations took %d bytes, after all of them were assembled %d bytes were released" % (first[c[:-1] + "1:r"], -end)))
        elif w[:1] == ["CLEARED"]:
            full, left, mapped, mleft = map(int, w[2:])
            if left > full // 10 + 200000 or mleft > mapped // 10 + 4000000: bad.append(("clear:%s" % w[1], "of %d bytes in use and %d bytes mapped with %s, %d and %d remain after clear()" % (full, mapped, w[1], left, mleft)))
        elif w[:1] == ["LEFT"]:
            full, a, b = map(int, w[2:])
            if a > full - 100 * n or b > a - 100 * n: bad.append(("fed:%s" % w[1], "objects take %d bytes; %d when nodes were fed, %d when ways were fed to a handler" % (full, a, b)))
        elif w[:1] == ["DONE"] and int(w[2]) > 50000: bad.append(("end:%s" % w[1], "%s bytes are still in use at the end of %s" % (w[2], w[1])))
    return bad

def check(ctx):
    exe, = vp.build_many([dict(src="harness/h32.cpp", variant="plain", flags=["-I" + vp.VERIF + "/harness/geosold", "-std=gnu++17"], libs=["-lgeos_c", "-lgeos"])]); rng = ctx.rng
    ctx.rule = "encodings and file types x handler chains (writers, readers, stores, assemblers, geometries, filters, dumps), many objects of each type with random tags. Non-trivial: all."
    ctx.assumptions = ["objects have bounded size and every file has the same mix of them from start to end", "glibc's count of bytes in use"]
    env = {"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0", "MALLOC_MMAP_THRESHOLD_": "1000000000"}
    def work(j):
        i, (typ, enc, n, chains), seed = j; d = os.path.join(ctx.tmp, "j%d" % i); res = None
        for attempt in range(3):                                   # only what repeats is reported
            os.mkdir(d); r = vp.run([exe, typ, enc, str(n), str(seed), d] + chains, timeout=500, env=env, cwd=d); shutil.rmtree(d)
            out = r.out.decode("utf-8", "replace")
            if r.timed_out: b = [("hang", "takes more than 500 seconds")]
            elif r.rc or not out.endswith("OK\n"): b = [(r.crash_key() if r.crashed else "failed", "rc %d\n%s\n%s" % (r.rc, out[-500:], r.err.decode("utf-8", "replace")[-2000:]))]
            else: b = judge(out, n, typ == "osh", "pbf" in enc)
            res = b if res is None else [x for x in b if x[0] in {y[0] for y in res}]
            if not res or r.timed_out: break
        return j, res, out
    jobs = [(i, p, rng.randrange(1, 10**6)) for i, p in enumerate(plan(ctx))]
    with ThreadPoolExecutor(8) as ex:
        for (i, (typ, enc, n, chains), seed), bad, out in ex.map(work, jobs):
            name = "%s%s %d %d %s" % (typ, enc, n, seed, " ".join(chains)); ctx.case(name, True, {"job": name, "measured": out.split("\n")[:4]} if i < 3 else None)
            for w in (l.split() for l in out.split("\n") if l.startswith("PHASE")):
                ctx.count("phases"); ctx.count("objects passed", int(w[2])); ctx.count("phases " + w[1].split(":")[0])
            ctx.count("stores cleared", out.count("\nCLEARED "))
            for k, t in bad: ctx.violation(k, "%s: %s" % (name, t), {"output.txt": out})
