"""P18: tags as text, parsed back by an independent hstore parser."""
import vp, model, cases, server
from tagrules import *

TECHNIQUE = "runtime monitoring: ASan+UBSan build, formatted tags parsed by an independent hstore parser and compared with the formatter's definition"
NOTE = ("Random tag lists (any characters, quotes, backslashes, separators, long and empty texts) through hstore, key=value and general formatters "
        "with random escape sets and filters; hstore output is parsed back. Sampling.")

def parse_hstore(s):
    """PostgreSQL's quoted hstore syntax, bytes -> list of pairs"""
    out = []; i = 0
    def ws():
        nonlocal i
        while i < len(s) and s[i:i+1] in b" \t\n\r\v\f": i += 1
    def quoted():
        nonlocal i
        if s[i:i+1] != b'"': raise ValueError("quote expected at %d" % i)
        i += 1; o = bytearray()
        while True:
            if i >= len(s): raise ValueError("unterminated")
            c = s[i:i+1]
            if c == b'"': i += 1; return bytes(o)
            if c == b"\\":
                i += 1
                if i >= len(s): raise ValueError("unterminated escape")
            o += s[i:i+1]; i += 1
    ws()
    while i < len(s):
        k = quoted(); ws()
        if s[i:i+2] != b"=>": raise ValueError("=> expected at %d" % i)
        i += 2; ws(); v = quoted(); ws(); out.append((k, v))
        if i < len(s):
            if s[i:i+1] != b",": raise ValueError(", expected at %d" % i)
            i += 1; ws()
            if i >= len(s): raise ValueError("trailing comma")
    return out

HARD = ['"', '\\', '\\"', '"=>"', ',', '=>', '","', "'", '\\\\', 'a\\', '"a', ' ', '\n', '\t', 'NULL', '"x"=>"y"']
def hard_tags(rng):
    ts = tags(rng)
    for i in range(len(ts)):
        if rng.random() < .5:
            ts[i] = tuple("".join(rng.choice(HARD + NEAR) for _ in range(rng.randint(0, 5))) for _ in range(2))
    return ts

def check(ctx):
    exe, = vp.build_many([dict(src="harness/h17.cpp", libs=["-lboost_regex"])])
    rng = ctx.rng
    ctx.rule = ("random tag lists with quotes, backslashes, separators and any other characters x hstore, key=value, general formatters with random "
                "escape characters, prefix, infix, suffix, separator x filters. Non-trivial: at least one accepted tag.")
    ctx.assumptions = ["the text of a tag (with prefix, infix and suffix) is not empty", "texts without NUL"]
    jobs, exps, meta = [], [], []
    for i in range(ctx.n(6000, 150000)):
        ts = hard_tags(rng); kind = rng.choice(["key", "kv", "re"]); d = rng.random() < .8
        rs = rules(rng, kind, ["highway", "name", "a"]) if rng.random() < .6 else []
        m = [t for t in ts if verdict(kind, d, rs, t)]
        what = rng.choice(["hstore", "hstore", "kev", "x"])
        sep = rng.choice([",", ";", ", ", "", "|", "\n", "ä", "\\"])
        escs = "".join(rng.sample(["\\", '"', "'", ",", "=", ">", "a", " ", "%", "\n"], rng.randint(0, 5)))
        pre, inf, suf = (rng.choice(["", '"', "<", "ab", "\\", "=", "ä"]) for _ in range(3))
        if what == "x" and not pre + inf + suf: inf = "="
        def fmt(tt):
            if what == "hstore": e, p, n, s, j = '\\"', '"', '"=>"', '"', ","
            elif what == "kev": e, p, n, s, j = "", "", "=", "", sep
            else: e, p, n, s, j = escs, pre, inf, suf, sep
            q = lambda t: "".join("\\" + c if c in e else c for c in t)
            return j.join(p + q(k) + n + q(v) + s for k, v in tt)
        a = what if what != "x" else "x" + enc(escs)
        jobs.append("format %s %s %s %s %s %s %d %s %s" % (a, enc(pre), enc(inf), enc(suf), enc(sep), kind, d, rules_str(rs), tags_str(ts)))
        exps.append(["OUT " + model.esc(fmt(m)), "ALL " + model.esc(fmt(ts))]); meta.append((what, m, ts))
        ctx.case(jobs[-1], bool(m), {"as": what, "tags": m[:3]} if i < 6 else None); ctx.count("formatted " + what, len(m) + len(ts))
    def unesc(s):
        import re
        return re.sub(rb"%([0-9A-F]{2})", lambda x: bytes([int(x.group(1), 16)]), s.encode("latin-1"))
    for j, e, (what, m, ts), r in zip(jobs, exps, meta, server.parallel(exe, jobs, batch=500, timeout=240)):
        if r.crash or r.end != "ok" or len(r.lines) != 2: cases.report(ctx, j[:300], e, r, {"job.txt": j}, what + ":"); continue
        if what == "hstore":
            # judged by what it means, not by how it is spelled
            for l, want in zip(r.lines, (m, ts)):
                ctx.count("hstore texts parsed")
                try: got = parse_hstore(unesc(l.split(" ", 1)[1]))
                except ValueError as ex: got = "not an hstore: %s" % ex
                if got != [(k.encode(), v.encode()) for k, v in want]:
                    ctx.violation("hstore", "%s: reads back as %s instead of %s" % (l[:300], str(got)[:300], str(want)[:300]), {"job.txt": j, "got.txt": "\n".join(r.lines)})
        elif r.lines != e: ctx.violation(what, "%s: %s" % (j[:300], model.diff(e, r.lines)), {"job.txt": j, "expected.txt": "\n".join(e), "got.txt": "\n".join(r.lines)})
