"""P17: tag filters and tag lists against the first-matching-rule definition."""
import vp, model, cases, server
from tagrules import *

TECHNIQUE = "runtime monitoring: ASan+UBSan build, verdicts and iteration of filters compared with the first-matching-rule definition"
NOTE = ("Random rule lists of the three filters over near-equal, empty, long and Unicode keys and values; verdict per tag, iteration, accumulation, "
        "copies of filters and key lookup are compared with a definition in Python. Regular expressions from the part common to both dialects.")

def check(ctx):
    exe, = vp.build_many([dict(src="harness/h17.cpp", libs=["-lboost_regex"])])
    rng = ctx.rng
    ctx.rule = ("random rule lists (0..8 rules, either result, with and without value) x default x random tag lists (0..20 tags from pools of near-equal "
                "words, repeated keys) for key, key-value and regex filters. Non-trivial: at least one rule and one tag.")
    ctx.assumptions = ["a rule's value is not the empty text", "texts without NUL"]
    jobs, exps = [], []
    for i in range(ctx.n(9000, 250000)):
        kind = ("key", "kv", "re")[i % 3]
        pool = [rng.choice(NEAR) for _ in range(rng.randint(1, 4))]
        ts = tags(rng, pool=pool); rs = rules(rng, kind, pool); d = rng.random() < .5
        keys = [word(rng, pool) for _ in range(3)] + [k for k, _ in ts[:2]]
        jobs.append("filter %s %d %s %s %s" % (kind, d, rules_str(rs), tags_str(ts), lst([enc(k) for k in keys]) if keys != [""] else "-"))
        m = [verdict(kind, d, rs, t) for t in ts]
        e = ["MATCH " + "".join("01"[x] for x in m)] * 2
        acc = [t for t, x in zip(ts, m) if x]
        e.append("VISIT" + "".join(" %s=%s" % (model.esc(k), model.esc(v)) for k, v in acc))
        e.append("COUNT %d" % len(acc))
        for k in keys:
            v = [b for a, b in ts if a == k]
            e.append("GET " + ("=" + model.esc(v[0]) if v else "none"))
        e.append("SIZE %d %d" % (len(ts), not ts))
        exps.append(e)
        ctx.case(jobs[-1], bool(rs and ts), {"kind": kind, "rules": rs[:3], "tags": ts[:3]} if i < 6 else None)
        ctx.count("verdicts " + kind, len(ts)); ctx.count("accepted", len(acc)); ctx.count("by a rule", sum(verdict(kind, d, rs, t) == verdict(kind, not d, rs, t) for t in ts))
    for j, e, r in zip(jobs, exps, server.parallel(exe, jobs, batch=500, timeout=240)):
        if not r.crash and r.end == "ok" and r.lines != e:
            k = [a.split(" ")[0] for a, b in zip(e, r.lines) if a != b] or ["count"]
            ctx.violation("%s:%s" % (j.split(" ")[1], k[0]), "%s: %s" % (j[:500], model.diff(e, r.lines)), {"job.txt": j, "expected.txt": "\n".join(e), "got.txt": "\n".join(r.lines)})
        else: cases.report(ctx, j[:300], e, r, {"job.txt": j}, j.split(" ")[1] + ":")
