"""P11: by-id stores. Random operation histories checked online against a map."""
import os
import vp, server

TECHNIQUE = "runtime monitoring: ASan+UBSan build, random operation histories on every store checked online against a map, guard mappings"
NOTE = ("Every read of random histories of set/get/grow/clear/reopen is compared with a std::map; guard pages detect that a store unmaps "
        "memory it does not own; descriptors and mappings are counted. Ids up to 2^27 in mapped stores, 2^64 in maps. Sampling.")

KINDS = ["fixed", "anon", "file", "named", "removed", "sparse", "map", "vector"]

def check(ctx):
    exe, plain = vp.build_many([dict(src="harness/h11.cpp"), dict(src="harness/h11.cpp", variant="plain")])
    ctx.rule = ("random histories (set, get, unset get, growth, failing growth (too large, or a failing mmap, mremap, ftruncate, fstat, dup or tmpfile), failing construction, clear once or more, destruction, reopening of named files) x 8 "
                "kinds of store x value types of 8, 8 and 12 bytes; ids small, at and around the current size, far apart, repeated. "
                "Non-trivial: a history with at least one set and one get.")
    ctx.assumptions = ["Vector is filled in ascending id order as documented", "FixedArray ids below the given size",
                       "mapped stores and FixedArray are not asked for ids never set (documented as unchecked)"]
    jobs = []
    for i in range(ctx.n(240, 6000)):
        k = KINDS[i % len(KINDS)] + ctx.rng.choice(["", "", ":i", ":s"])
        d = os.path.join(ctx.tmp, "s%d" % i); os.mkdir(d)
        ops = ctx.rng.choice([0, 3, 50, 400, 3000]) if k.split(":")[0] in ("anon", "file", "named", "removed") else ctx.rng.choice([0, 3, 50, 2000, 20000])
        jobs.append("run %s %d %d %s" % (k, ctx.seed * 1000000 + i, ops, d))
    n = len(jobs) * 2 // 3
    res = server.parallel(exe, jobs[:n], batch=20, timeout=240) + server.parallel(plain, jobs[n:], batch=20, timeout=240)
    for j, r in zip(jobs, res):
        kind = j.split(" ")[1].split(":")[0]
        f = {"job.txt": j + "\n(feed this line to the h11 harness)", "got.txt": "\n".join(r.lines)}
        c = [l for l in r.lines if l.startswith("C ")]
        w = c[0].split(" ")[1:] if c else []
        tot = {w[k]: int(w[k + 1]) for k in range(0, len(w), 2)}
        for k, v in tot.items(): ctx.count(k, v)
        ctx.count("histories " + kind)
        ctx.case(" ".join(j.split(" ")[:4]), tot.get("sets", 0) > 0 and tot.get("gets", 0) > 0, {"job": " ".join(j.split(" ")[:4]), "events": tot})
        if r.crash: ctx.violation("%s:crash:%s" % (kind, r.crash), "%s: %s\n%s" % (j, r.crash, r.run.err[-2000:].decode("utf-8", "replace")), f); continue
        for l in r.lines:
            if l.startswith("BAD "): ctx.violation("%s:%s" % (kind, l.split(" ")[1]), "%s: %s" % (j, l), f)
        if r.end != "ok": ctx.violation("%s:exception" % kind, "%s: %s" % (j, r.end), f)
