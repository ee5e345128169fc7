"""P08: cut-off and damaged files. Every cut of small files, damaged compressed data, failing helper programs."""
import bz2, gzip, os, struct, zlib
import vp, model, xmlio, pbf, cases, server, p02
from p05 import first_file, suffix, ENC, objects

TECHNIQUE = "fault injection under ASan+UBSan: files cut at every byte or damaged, recorded objects and outcome checked against the intact file"
NOTE = ("Small files of every encoding are cut at every byte, larger ones around buffer and blob boundaries; compressed data is damaged; "
        "helper programs fail. The monitor requires an exception and that what was delivered is a prefix of the intact file's objects.")

def isobj(l): return l[:2] in ("N\t", "W\t", "R\t")

def check(ctx):
    exe, plain = vp.build_many([dict(src="harness/io.cpp"), dict(src="harness/io.cpp", variant="plain")])
    keep = vp.KEEP
    rng = ctx.rng
    ctx.rule = ("files of all types and encodings (PBF with several blobs, raw and zlib; gzip/bzip2 with one or several members) cut at "
                "every byte (small) or at random and boundary positions (large); bit errors in compressed data for which an "
                "independent decompressor reports an error; helper programs that are missing, fail or are killed after part of the "
                "data. Non-trivial: every distinct damaged input.")
    ctx.assumptions = ["a file cut to zero bytes counts as a complete PBF file without blobs",
                       "damage an independent decompressor accepts is not required to be detected"]
    jobs = []; meta = []
    def add(job, data, must, objs, what, env=None):
        jobs.append(job); meta.append((must, objs, what, data))
    def put(data, tag=""):
        p = os.path.join(ctx.tmp, "d%d" % len(jobs)); cases.write(p, data); return p
    nfile = 0
    for i in range(ctx.n(26, 160)):
        ftype = ["osm", "osm", "osh", "osc"][i % 4]; enc = ["xml", "pbf", "gz", "bz2", "xml", "pbf", "pbf"][i % 7]
        if (ftype, enc) == ("osc", "pbf"): ftype = "osm"
        h = cases.rand_header(rng, ftype)
        g = model.Gen(rng, history=ftype != "osm", meta=.7, maxtags=3, maxrefs=5, plain_text=rng.random() < .5)
        g.users = [(1, "a"), (2, model.text(rng, 20, 1))]
        objs = g.objs(rng.randint(2, 7))
        for o in objs:
            if o.uid <= 0: o.uid, o.user = -1, ""
            if o.t == "n" and o.x == model.UNDEF: o.x = o.y = 0
            o.tags = [(k[:20], v[:20]) for k, v in o.tags]; o.members = [(a, b, c[:10]) for a, b, c in o.members]
        docend = None
        if enc == "pbf":
            op = pbf.Opts(rng=rng, dense=rng.random() < .7, zlib=rng.random() < .5, visible=ftype != "osm")
            data, exp, ok = p02.encode_file(rng, h, objs, ftype == "osh", opts=op, junk=True, maxgroup=2)
            exp = [e for e, _ in exp]
            for e in exp: e.ts = int(e.ts)
            ok = set(ok) | {0}
            must = lambda k, ok=ok: k not in ok
        else:
            xml, exp = xmlio.XmlWriter(rng, rng.choice(["random", "plain"])).document(h, objs, ftype)
            docend = xml.index(b">", xml.rindex(b"</osm")) + 1
            if enc == "xml": data = xml; must = lambda k, n=docend: k < n
            else:
                data = cases.compress(rng, xml, enc)
                if enc == "gz" and i % 3 == 0: data = gzip.compress(xml[:docend // 2]) + gzip.compress(xml[docend // 2:docend])
                n = len(data); must = lambda k, n=n: k < n
        lines = [e.line() for e in exp]
        nfile += 1
        step = 1 if len(data) < 1500 or not ctx.quick else len(data) // 1500 + 1
        if ctx.quick and enc != "xml": step = max(1, len(data) // 260)
        cuts = set(range(0, len(data), step)) | set(range(len(data) - 24, len(data))) | set(range(0, 24))
        if enc == "pbf":
            for b in ok: cuts |= set(range(b - 2, b + 7))
        for k in sorted(c for c in cuts if 0 <= c < len(data)):
            p = put(data[:k]); add("read %s %s -1 0 %s" % (ftype, enc, p), data[:k], must(k), lines, "cut %s %s at %d of %d" % (ftype, enc, k, len(data)))
        p = put(data); add("read %s %s -1 0 %s" % (ftype, enc, p), data, False, lines, "intact %s %s" % (ftype, enc))
        # damage
        for _ in range(ctx.n(60, 400)):
            if enc in ("gz", "bz2"):
                b = bytearray(data); k = rng.randrange(len(b)); b[k] ^= 1 << rng.randrange(8)
                if rng.random() < .3: b[-rng.randint(1, 8)] ^= 1 << rng.randrange(8)
                b = bytes(b)
                try: (gzip if enc == "gz" else bz2).decompress(b); bad = False
                except Exception as e:
                    bad = not (enc == "gz" and k > 20 and isinstance(e, gzip.BadGzipFile) and "Not a gzipped" in str(e)) \
                        and not (enc == "gz" and k < 10) and not (enc == "bz2" and k > 20 and "Invalid data" in str(e) and 0)
                if not bad: continue
                p = put(b); add("read %s %s -1 0 %s" % (ftype, enc, p), b, True, None, "damaged %s byte %d" % (enc, k))
            elif enc == "pbf":
                # damage inside a compressed blob's data
                raw = pbf.enc_block([[o] for o in objs], pbf.Opts(rng=rng, visible=ftype != "osm"))
                z = bytearray(zlib.compress(raw))
                how = rng.randrange(4)
                if how < 2: z[rng.randrange(len(z))] ^= 1 << rng.randrange(8)
                elif how == 2: del z[rng.randrange(len(z)):]
                rs = len(raw) + (rng.choice([-1, 1, 10, -len(raw)]) if how == 3 else 0)
                try:
                    d = zlib.decompressobj(); x = d.decompress(bytes(z)); bad = not d.eof or len(x) != rs or x != raw
                except zlib.error: bad = True
                if not bad: continue
                body = pbf.fv(2, rs) + pbf.fb(3, bytes(z)); hd = pbf.fb(1, "OSMData") + pbf.fv(3, len(body))
                hb = pbf.blob("OSMHeader", pbf.header_block(h, ftype == "osh"))
                b = hb + struct.pack(">I", len(hd)) + hd + body
                p = put(b); add("read %s %s -1 0 %s" % (ftype, enc, p), b, True, [], "damaged blob %d" % how)
    # large files: buffer boundaries, random cuts
    for i in range(ctx.n(4, 24)):
        enc = ["xml", "gz", "xml", "pbf", "bz2"][i % 5]
        g = model.Gen(rng, meta=1)
        objs = g.objs(ctx.n(250, 700))
        for o in objs:
            if o.uid <= 0: o.uid, o.user = -1, ""
            if o.t == "n" and o.x == model.UNDEF: o.x = o.y = 0
        h = cases.rand_header(rng, "osm")
        p = os.path.join(ctx.tmp, "big%d" % i)
        exp = first_file(rng, p, "osm", enc, h, objs)
        data = open(p, "rb").read()
        lines = [e.line() for e in exp]
        end = data.index(b">", data.rindex(b"</osm")) + 1 if enc == "xml" else len(data)
        cuts = set(rng.randrange(end) for _ in range(ctx.n(40, 200)))
        for s in (1024, 4096, 10240, 16384, 65536):
            for m in range(s, end, s): cuts |= {m - 1, m, m + 1}
        cuts = sorted(c for c in cuts if c < end)
        if len(cuts) > ctx.n(130, 800): cuts = sorted(rng.sample(cuts, ctx.n(130, 800)))
        okc = set()
        if enc == "pbf":
            j = 0
            while j < len(data):
                okc.add(j)
                hl = struct.unpack(">I", data[j:j + 4])[0]
                ds = [v for f, w, v in pbf.fields(data[j + 4:j + 4 + hl]) if f == 3][0]
                j += 4 + hl + ds
        for k in cuts:
            p = put(data[:k]); add("read osm %s -1 0 %s" % (enc, p), data[:k], k not in okc, lines, "cut large %s at %d of %d" % (enc, k, len(data)))
        nfile += 1
    ctx.count("files", nfile)
    # one in six under sanitizers, the others in a plain build
    one = [i for i in range(len(jobs)) if i % 6 == 0]; five = [i for i in range(len(jobs)) if i % 6]
    groups = [(None, [jobs[i] for i in one], [meta[i] for i in one]), (keep, [jobs[i] for i in five], [meta[i] for i in five])]
    # failing helper programs
    good, _ = xmlio.XmlWriter(rng, "plain").document(model.Header("g"), model.Gen(rng, meta=.5).objs(400, "n"), "osm")
    hb = pbf.blob("OSMHeader", pbf.header_block(model.Header("g"), False))
    op = pbf.Opts(rng=rng)
    pb = hb + b"".join(pbf.blob("OSMData", pbf.enc_block([[o]], op)) for o in [model.Gen(rng, meta=1, undef_pos=False, anon_user=False).obj("n") for _ in range(5)])
    gp = os.path.join(ctx.tmp, "good.osm"); cases.write(gp, good)
    pp = os.path.join(ctx.tmp, "good.pbf"); cases.write(pp, pb)
    def helper(name, body):
        d = os.path.join(ctx.tmp, "bin%d" % len(groups)); os.mkdir(d)
        if body is not None:
            for n in name.split(","):
                with open(os.path.join(d, n), "w") as f: f.write("#!/bin/sh\n" + body + "\n")
                os.chmod(os.path.join(d, n), 0o755)
        return {"PATH": d}
    C = "/usr/bin/"
    fails = [("missing", None), ("exit 1 at once", "exit 1"), ("all data then exit 1", C + "cat %s; exit 1"), ("all data then exit 2", C + "cat %s; exit 2"),
             ("half the data then exit 18", C + "head -c %d %s; exit 18"), ("half the data then killed", C + "head -c %d %s; kill -9 $$"),
             ("all data then killed", C + "cat %s; kill -9 $$"), ("all data then term", C + "cat %s; kill -TERM $$"), ("all data, closes, sleeps, fails", C + "cat %s; exec >&-; /usr/bin/sleep 0.2; exit 3"),
             ("data with exit 255", C + "cat %s; exit 255"), ("ok", C + "cat %s")]
    for what, body in fails:
        for enc, src, fn, size in (("gz", gp, gp, len(good)), ("bz2", gp, gp, len(good)), ("xml", gp, "http://localhost:1/x.osm", len(good)), ("pbf", pp, "https://localhost:1/x.pbf", len(pb))):
            b = body
            if b and "%s" in b: b = b.replace("%s", src)
            if b and "%d" in b: b = b.replace("%d", str(len(hb) if enc == "pbf" else size // 2))
            env = helper("zcat,bzcat,curl", b)
            groups.append((env, ["read osm %s -1 0 %s" % (enc, fn)], [(what != "ok", None, "helper program for %s: %s" % (enc, what), b"")]))
    for what, fn in (("directory", "/tmp"), ("no such file", os.path.join(ctx.tmp, "none"))):
        for enc in ENC: groups.append((None, ["read osm %s -1 0 %s" % (enc, fn)], [(True, [], "%s as %s" % (what, enc), b"")]))
    ctx.count("inputs read under ASan+UBSan", sum(len(g[1]) for g in groups) - len(five))
    for env, js, ms in groups:
        res = server.parallel(plain if env is keep else exe, js, batch=150, env=env)
        for j, (must, lines, what, data), r in zip(js, ms, res):
            ctx.case(data + what.encode() if not data else data + j.split(" ")[2].encode(), True, {"what": what, "outcome": (r.end or "")[:60]})
            kind = " ".join(w for w in what.split(" ") if not w.isdigit() and w not in ("at", "of"))
            ctx.count("inputs " + what.split(" ")[0])
            f = {"input": data, "job.txt": j, "got.txt": "\n".join(r.lines)}
            if r.crash: ctx.violation("crash:" + r.crash, "%s: %s\n%s" % (what, r.crash, r.run.err[-1500:].decode("utf-8", "replace")), f); continue
            if must and r.end == "ok": ctx.violation("accepted:" + kind, "%s: read without an exception (%s)" % (what, j), f)
            elif must: ctx.count("rejected")
            else: ctx.count("accepted")
            if not must and (what.startswith("intact") or what.endswith(": ok")) and r.end != "ok":
                ctx.violation("rejected:" + kind, "%s: %s" % (what, r.end), f)
            if lines is not None:
                got = [l for l in r.lines if isobj(l)]
                if got != lines[:len(got)]:
                    ctx.violation("objects:" + kind, "%s: delivered objects differ from the original: %s" % (what, model.diff(lines[:len(got)], got)), f)
                elif what.startswith("intact") and len(got) != len(lines): ctx.violation("objects:" + kind, "objects missing", f)
                ctx.count("objects delivered before the end", len(got))
