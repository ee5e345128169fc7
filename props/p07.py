"""P07: hostile input. Mutated PBF and XML files under ASan+UBSan (and a part under valgrind memcheck)."""
import gzip, os, struct, zlib
import vp, model, xmlio, pbf, cases, server, p02
from pbf import fb, fv, fz, uv, zz, key

TECHNIQUE = "sanitizers: ASan+UBSan (plus valgrind memcheck on a part) over structure-aware and byte-level mutated input files"
NOTE = ("Mutated valid files (single protobuf fields, array lengths, indexes, sizes; XML structure; raw bytes) are read by the real "
        "readers in a sanitized build; any sanitizer report, abort or confirmed hang is a violation. Signed integer overflow of hostile "
        "deltas is not counted. Sampling, not exhaustive.")

# ---------------------------------------------------------------- PBF
def rebuild(rng, raw, rate, depth=0):
    """Walk protobuf fields, mutating some of them."""
    out = b""
    try: fs = list(pbf.fields(raw))
    except pbf.WireError: return raw
    for f, w, v in fs:
        r = rng.random()
        if r < rate:
            m = rng.randrange(9)
            if m == 0: continue                                     # drop
            if m == 1: f = rng.choice([f + 1, max(1, f - 1), rng.randint(1, 40), 17, 18])
            if m == 2 and w == 0:
                v = rng.choice([0, 1, 2**31, 2**31 - 1, 2**32 - 1, 2**63, 2**64 - 1, v + 1, v * 2, 1 << rng.randrange(64), 33554432, 33554433, 100])
            elif m == 3 and w == 2: v = v[:rng.randrange(len(v) + 1)]
            elif m == 4 and w == 2:
                try: a = pbf.unpack(v)
                except pbf.WireError: a = []
                k = rng.randrange(5)
                if a:
                    if k == 0: a.pop()
                    elif k == 1: a.append(rng.choice([0, 1, 5, 2**63]))
                    elif k == 2: a[rng.randrange(len(a))] = rng.choice([0, 1, 2, 3, 10**6, 2**31, 2**32, 2**64 - 1, 2**31 - 1, 1 << rng.randrange(64)])
                    elif k == 3: a = a[:rng.randrange(len(a))]
                    else: a = a * 2
                    v = b"".join(uv(x) for x in a)
            elif m == 5 and w == 2: v = v + bytes(rng.randrange(256) for _ in range(rng.randint(1, 8)))
            elif m == 6: out += key(f, w) + (uv(v) if w == 0 else (uv(len(v)) + v if w == 2 else v))   # duplicate
            elif m == 7 and w == 2: v = bytes(rng.randrange(256) for _ in range(rng.randrange(20)))
            elif m == 8 and w == 0: w, v = 2, uv(v)
        elif w == 2 and depth < 5 and len(v) > 1 and rng.random() < 0.7:
            v = rebuild(rng, v, rate, depth + 1) if parses(v) else v
        out += key(f, w) + (uv(v) if w == 0 else (uv(len(v)) + v if w == 2 else v))
    return out
def parses(v):
    try:
        n = 0
        for f, w, x in pbf.fields(v):
            if f == 0 or f > 60: return False
            n += 1
        return n > 0
    except pbf.WireError: return False

def rawblob(rng, typ, data, rate):
    """A blob with a possibly wrong envelope."""
    z = rng.random() < 0.4
    b = fb(3, zlib.compress(data)) if z else fb(1, data)
    rs = len(data)
    r = rng.random()
    if r < rate: rs = rng.choice([0, 1, len(data) - 1, len(data) + 1, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**64 - 1, 33554432, 33554433, 33554431, 2**63])
    if r < rate * .5: pass
    elif r < rate * .7: b = fb(rng.choice([4, 5, 3]), data)
    elif r < rate * .8: b = b""
    elif r < rate * .9: b += fb(1, b"") 
    if rng.random() > rate * .3 or z: b = fv(2, rs) + b
    ds = len(b)
    if rng.random() < rate * .5: ds = rng.choice([0, 1, ds - 1, ds + 1, 2**31 - 1, 2**31, 2**32 - 1, 33554432, 33554433, 2**63])
    h = b""
    if rng.random() > rate * .2: h += fb(1, typ)
    if rng.random() < rate * .2: h += fb(2, b"x" * rng.choice([1, 65000, 65536]))
    if rng.random() > rate * .1: h += fv(3, ds)
    hl = len(h)
    if rng.random() < rate * .5: hl = rng.choice([0, hl - 1, hl + 1, 65535, 65536, 65537, 2**31 - 1, 2**31, 2**32 - 1])
    return struct.pack(">I", hl & 0xffffffff) + h + b

def bytemut(rng, d, n=None):
    d = bytearray(d)
    for _ in range(n or rng.choice([1, 1, 2, 5, 20])):
        if not d: break
        r = rng.random(); i = rng.randrange(len(d))
        if r < .4: d[i] = rng.choice([0, 1, 0x7f, 0x80, 0xff, rng.randrange(256)])
        elif r < .6: d[i] ^= 1 << rng.randrange(8)
        elif r < .7: del d[i:i + rng.randint(1, 4)]
        elif r < .8: d[i:i] = bytes(rng.randrange(256) for _ in range(rng.randint(1, 4)))
        elif r < .9:
            j = rng.randrange(len(d)); k = rng.randint(1, 30); d[i:i] = d[j:j + k]
        else: del d[i:]
    return bytes(d)

def hostile_block(rng, g, history):
    objs = g.objs(rng.randint(1, 12), rng.choice(["sorted", "mixed", "n", "n", "w", "r"]))
    groups = []
    for o in objs:
        if groups and groups[-1][0].t == o.t: groups[-1].append(o)
        else: groups.append([o])
    op = p02.rand_opts(rng, history); op.gran = rng.choice([100, 100, 1, 2**31 - 1]); op.pad = 0
    for o in objs:
        if o.x == model.UNDEF: o.x = o.y = 0
    return pbf.enc_block(groups, op)

def mut_pbf(rng, ftype):
    g = model.Gen(rng, history=ftype == "osh")
    rate = rng.choice([0, 0.02, 0.05, 0.15, 0.3])
    env = rng.choice([0, 0, 0, 0.3])
    h = cases.rand_header(rng, ftype)
    hb = pbf.header_block(h, ftype == "osh")
    if rng.random() < 0.2: hb = rebuild(rng, hb, 0.3)
    out = rawblob(rng, "OSMHeader", hb, env * rng.randint(0, 1)) if rng.random() < .95 else b""
    for _ in range(rng.randint(1, 3)):
        b = hostile_block(rng, g, ftype == "osh")
        if rng.random() < .8: b = rebuild(rng, b, rate)
        if rng.random() < .1: b = bytemut(rng, b)
        out += rawblob(rng, rng.choice(["OSMData"] * 9 + ["OSMHeader", "Foo"]), b, env)
    r = rng.random()
    if r < .15: out = bytemut(rng, out)
    elif r < .2: out = out[:rng.randrange(len(out) + 1)]
    elif r < .22: out = bytes(rng.randrange(256) for _ in range(rng.randrange(200)))
    return out

def targeted():
    """Every array of the format one shorter, longer, or with one index out of range, one at a time."""
    S = [b"", b"a", b"b", b"c", b"user"]
    st = fb(1, b"".join(fb(1, s) for s in S))
    pk = lambda f, a, e=uv: fb(f, b"".join(e(x) for x in a)) if a is not None else b""
    info = lambda sid: fb(4, fv(1, 1) + fv(2, 1000) + fv(3, 1) + fv(4, 1) + fv(5, sid))
    res = []
    def block(name, group, tail=b""): res.append((name, st + fb(2, group) + tail))
    BAD = [5, 6, 1000, 2**31 - 1, 2**31, 2**32 - 1, 2**63, 2**64 - 1]
    for bad in BAD:
        for t, f, body in (("node", 1, fz(1, 1) + fz(8, 0) + fz(9, 0)), ("way", 3, fv(1, 1) + pk(8, [1, 1], zz)), ("rel", 4, fv(1, 1) + pk(8, [1]) + pk(9, [1], zz) + pk(10, [0]))):
            block("%s key %d" % (t, bad), fb(f, body + pk(2, [bad]) + pk(3, [1])))
            block("%s val %d" % (t, bad), fb(f, body + pk(2, [1]) + pk(3, [bad])))
            block("%s user %d" % (t, bad), fb(f, body + info(bad)))
        block("role %d" % bad, fb(4, fv(1, 1) + pk(8, [bad]) + pk(9, [1], zz) + pk(10, [0])))
        block("member type %d" % bad, fb(4, fv(1, 1) + pk(8, [1]) + pk(9, [1], zz) + pk(10, [bad])))
        d = pk(1, [1], zz) + pk(8, [1], zz) + pk(9, [1], zz)
        block("dense key %d" % bad, fb(2, d + pk(10, [bad, 1, 0])))
        block("dense val %d" % bad, fb(2, d + pk(10, [1, bad, 0])))
        for sid in (bad, -bad):
            di = pk(1, [1]) + pk(2, [1], zz) + pk(3, [1], zz) + pk(4, [1], zz) + pk(5, [sid], zz)
            block("dense user %d" % sid, fb(2, d + fb(5, di)))
    for t, f, body in (("node", 1, fz(1, 1) + fz(8, 0) + fz(9, 0)), ("way", 3, fv(1, 1)), ("rel", 4, fv(1, 1))):
        for nk, nv in ((1, 0), (2, 1), (0, 1), (3, 0), (30, 1)):
            block("%s %d keys %d vals" % (t, nk, nv), fb(f, body + pk(2, [1] * nk) + pk(3, [2] * nv)))
    for a in range(3):
        for n in (0, 1, 40):
            L = [2, 2, 2]; L[a] = n
            block("members %s" % L, fb(4, fv(1, 1) + pk(8, [1] * L[0]) + pk(9, [1] * L[1], zz) + pk(10, [0] * L[2])))
    for a in range(3):
        for n in (0, 1, 60):
            L = [3, 3, 3]; L[a] = n
            block("dense arrays %s" % L, fb(2, pk(1, [1] * L[0], zz) + pk(8, [1] * L[1], zz) + pk(9, [1] * L[2], zz)))
    for a in range(6):
        for n in (0, 1, 2, 50):
            L = [3] * 6; L[a] = n
            for hist in (0, 1):
                di = pk(1, [1] * L[0]) + pk(2, [1] * L[1], zz) + pk(3, [1] * L[2], zz) + pk(4, [1] * L[3], zz) + pk(5, [0] * L[4], zz) + (pk(6, [1] * L[5]) if hist else b"")
                block("denseinfo %s %d" % (L, hist), fb(2, pk(1, [1] * 3, zz) + pk(8, [1] * 3, zz) + pk(9, [1] * 3, zz) + fb(5, di)))
    for kv in ([1], [1, 2, 0, 1], [1, 2], [1, 2, 0, 0, 0, 0], [0], [1, 2, 3], [1, 0, 0], [1, 2, 1, 2, 1]):
        block("keys_vals %s" % kv, fb(2, pk(1, [1] * 3, zz) + pk(8, [1] * 3, zz) + pk(9, [1] * 3, zz) + pk(10, kv)))
    for f in (17, 18, 19, 20):
        for v in (0, 1, 2**31 - 1, 2**32 - 1, 2**63, 2**64 - 1):
            block("block field %d=%d" % (f, v), fb(2, pk(1, [1], zz) + pk(8, [10**9], zz) + pk(9, [10**9], zz)), fv(f, v))
    res.append(("no strings", fb(1, b"") + fb(2, fb(3, fv(1, 1) + pk(2, [0]) + pk(3, [0])))))
    res.append(("no string table", fb(2, fb(3, fv(1, 1) + info(0)))))
    res.append(("dense no strings", fb(1, b"") + fb(2, fb(2, pk(1, [1], zz) + pk(8, [1], zz) + pk(9, [1], zz) + fb(5, pk(1, [1]) + pk(2, [1], zz) + pk(3, [1], zz) + pk(4, [1], zz) + pk(5, [0], zz))))))
    res.append(("empty block", b"")); res.append(("empty group", st + fb(2, b"")))
    return res

def envelopes():
    """Blob and header sizes at and around every limit."""
    hb = pbf.header_block(model.Header("g"), False)
    H = pbf.blob("OSMHeader", hb, False)
    data = pbf.enc_block([[model.Gen(vp.random.Random(1)).obj("w")]], pbf.Opts())
    z = zlib.compress(data)
    r = []
    def bl(b, ds=None):
        h = fb(1, "OSMData") + fv(3, len(b) if ds is None else ds)
        return struct.pack(">I", len(h)) + h + b
    for rs in (0, 1, len(data) - 1, len(data) + 1, 2**25 - 1, 2**25, 2**25 + 1, 2**31 - 1, 2**31, 2**32 - 1, 2**32 + len(data), 2**63, 2**64 - 1):
        r.append(("raw_size %d" % rs, H + bl(fv(2, rs) + fb(3, z))))
        r.append(("raw raw_size %d" % rs, H + bl(fv(2, rs) + fb(1, data))))
    r.append(("zlib without raw_size", H + bl(fb(3, z))))
    bomb = zlib.compress(b"\0" * 2**26, 9)
    for rs in (100, 2**25, 2**26): r.append(("zlib bomb %d" % rs, H + bl(fv(2, rs) + fb(3, bomb))))
    for cut in (0, 1, len(z) // 2, len(z) - 1): r.append(("zlib cut %d" % cut, H + bl(fv(2, len(data)) + fb(3, z[:cut]))))
    for f in (4, 5): r.append(("blob field %d" % f, H + bl(fv(2, 10) + fb(f, b"xxxx"))))
    r.append(("blob empty", H + bl(b"")))
    for ds in (2**25, 2**25 + 1, 2**31 - 1, 2**31, 2**32 - 1): r.append(("datasize %d" % ds, H + bl(fb(1, data), ds)))
    for hl in (0, 65535, 65536, 65537, 2**25, 2**25 + 1, 2**31 - 1, 2**31, 2**32 - 1): r.append(("header length %d" % hl, struct.pack(">I", hl) + b"\0" * 70000))
    big = fb(1, "OSMData") + fb(2, b"x" * 65500) + fv(3, 0)
    r.append(("big index", struct.pack(">I", len(big)) + big))
    r.append(("only length", b"\0\0")); r.append(("nothing", b""))
    return r

def oversize():
    """(name, start, size, must be refused): sizes beyond the limits of the format with all the bytes really there (zeros, a sparse file)"""
    r = []
    hb = pbf.header_block(model.Header("g"), False); H = pbf.blob("OSMHeader", hb, False)
    block = pbf.enc_block([[model.Gen(vp.random.Random(1)).obj("w")]], pbf.Opts())
    for n in (65537, 2**20, 2**25, 2**25 + 1, 2**26 + 2**20, 10**8):
        r.append(("header length %d" % n, struct.pack(">I", n), n, True))
        # a valid header made that long by its index data
        def head(k): return fb(1, "OSMData") + fv(3, len(block) + 2) + key(2, 2) + uv(k)
        k = n
        while len(head(k)) + k > n: k -= 1
        if len(head(k)) + k == n: r.append(("header with index of %d bytes" % k, H + struct.pack(">I", n) + head(k), n + 100, True))
    for n in (2**25 - 2**10, 2**25 + 1, 2**25 + 2**12, 2**26 + 2**20, 10**8):
        def blobh(ds): h = fb(1, "OSMData") + fv(3, ds); return struct.pack(">I", len(h)) + h
        r.append(("datasize %d" % n, H + blobh(n), n, n > 2**25))
        # a block with an unknown field of zeros in a raw blob
        a = block + key(100, 2) + uv(n); b = key(1, 2) + uv(len(a) + n) + a
        r.append(("raw blob of %d" % n, H + blobh(len(b) + n) + b, n, len(b) + n > 2**25))
    for n in (2**25 - 2**10, 2**25 + 1, 2**25 + 2**12, 2**26 + 2**20):
        a = block + key(100, 2) + uv(n) + b"\0" * n; b = fv(2, len(a)) + fb(3, zlib.compress(a, 9))
        r.append(("zlib blob of %d" % n, H + blobh(len(b)) + b, 0, len(a) > 2**25))
    return r

# ---------------------------------------------------------------- XML
NAMES = ["osm", "osmChange", "node", "way", "relation", "nd", "member", "tag", "bounds", "create", "modify", "delete", "note", "changeset", "x", "bound", "user"]
ATTRS = ["id", "version", "timestamp", "uid", "user", "changeset", "visible", "lat", "lon", "k", "v", "ref", "type", "role",
         "minlon", "minlat", "maxlon", "maxlat", "generator", "x"]
VALUES = ["", "0", "1", "-1", "5", "true", "false", "0.6", "node", "way", "2012-01-01T00:00:00Z", "2012-01-01T00:00:00", "2012-13-45T99:99:99Z",
          "0000-00-00T00:00:00Z", "9999-12-31T23:59:59Z", "-999-01-01T00:00:00Z", "99999999999999999999", "-99999999999999999999", "nan", "inf", "-inf", "1e400", "-1e400", "1e-400", "214.7483647",
          "214.7483648", "-214.7483648", "-214.7483649", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "4294967295", "2147483648", " 1", "1 ", "0x10", "1,5", "abc", "&#0;", "&#1;", "&lt;", "\u20ac" * 300,
          "x" * 300, "x" * 255, "x" * 256, "x" * 70000, "T", "2012", "2012-01-01", "2012-01-01T00:00:00Zjunk"]
def rand_xml(rng):
    out = ["<?xml version='1.0' encoding='UTF-8'?>\n"] if rng.random() < .9 else []
    if rng.random() < .05:
        out.append('<!DOCTYPE osm [<!ENTITY a "aaaaaaaaaa"><!ENTITY b "&a;&a;&a;&a;&a;&a;&a;&a;"><!ENTITY c "&b;&b;&b;&b;&b;&b;&b;&b;"><!ENTITY d "&c;&c;&c;&c;&c;&c;"><!ENTITY e SYSTEM "/etc/hostname"><!ATTLIST tag v CDATA "dflt">]>')
    def attrs():
        n = rng.choice([0, 1, 2, 3, 6]); a = rng.sample(ATTRS, n)
        if rng.random() < .02 and a: a.append(a[0])
        v = []
        for k in a:
            x = rng.choice(VALUES)
            if k == "timestamp" and rng.random() < .7: x = "2012-01-01T00:00:00Z"
            if k == "version" and rng.random() < .5: x = "0.6"
            if rng.random() < .01: x = "&d;"
            x = x.replace('"', "&quot;").replace("<", "&lt;") if not x.startswith("&") else x
            if x in ("&#0;", "&#1;") and rng.random() < .9: x = "z"
            v.append(' %s="%s"' % (k, x))
        return "".join(v)
    def el(depth):
        name = rng.choice(NAMES)
        k = 0 if depth > 6 else rng.choice([0, 0, 1, 2, 4])
        if rng.random() < .05: out.append("text & " if rng.random() < .05 else "text")
        if rng.random() < .03: out.append("<!-- c --><![CDATA[ <node> ]]><?pi x?>")
        if not k: out.append("<%s%s/>" % (name, attrs())); return
        out.append("<%s%s>" % (name, attrs()))
        for _ in range(k): el(depth + 1)
        if rng.random() < .01: name += "x"
        if rng.random() > .01: out.append("</%s>" % name)
    root = rng.choice(["osm", "osm", "osmChange", "foo", "node"])
    out.append("<%s%s>" % (root, rng.choice([' version="0.6"', "", ' version="0.6" generator="x"', ' version="0.5"'])))
    for _ in range(rng.randint(0, 10)): el(1)
    out.append("</%s>" % root)
    s = "".join(out)
    r = rng.random()
    b = s.encode("utf-8", "replace")
    if r < .1: b = bytemut(rng, b)
    elif r < .13: b = b.replace(b"UTF-8", rng.choice([b"UTF-16", b"ISO-8859-1", b"US-ASCII", b"KOI8-R", b"UTF-7"]))
    return b

def xml_special():
    n = b"<node id='1' version='1' lat='1' lon='1'>"
    W = lambda s: b"<osm version='0.6'>" + s + b"</osm>"
    r = []
    for inner in (b"tag", b"nd", b"member", b"x"):
        for outer in (b"node", b"way", b"relation"):
            for deep in (1, 2, 5, 3000):
                s = b"<" + outer + b" id='1'>" + (b"<" + inner + b" k='a' v='b' ref='1' type='node' role='r'>") * deep + (b"</" + inner + b">") * deep + b"<tag k='c' v='d'/></" + outer + b">"
                r.append(("%s in %s x%d" % (inner.decode(), outer.decode(), deep), W(s + n + b"</node>")))
    for a in (b"node", b"way", b"relation"):
        for b in (b"node", b"way", b"relation", b"osm", b"bounds", b"delete"):
            r.append(("%s in %s" % (b.decode(), a.decode()), W(b"<" + a + b" id='1'><" + b + b" id='2'><tag k='a' v='b'/></" + b + b"></" + a + b">" + n + b"</node>")))
    r.append(("osm in osm", W(W(n + b"</node>") + n + b"</node>") )); r.append(("osm in foo", b"<foo>" + W(n + b"</node>") + b"</foo>"))
    r.append(("root node", n + b"<tag k='a' v='b'/></node>")); r.append(("root way", b"<way id='1'><nd ref='1'/></way>"))
    r.append(("deep", W(b"<a>" * 100000 + b"</a>" * 100000)))
    r.append(("many attributes", W(b"<node " + b" ".join(b"a%d='x'" % i for i in range(5000)) + b"/>")))
    r.append(("one token of 5 MB", W(b"<node id='1' user='" + b"u" * 5 * 10**6 + b"'/>")))
    r.append(("20000 nodes in way", W(b"<way id='1'>" + b"<nd ref='9223372036854775807'/>" * 20000 + b"</way>")))
    r.append(("lat on way first", W(b"<way id='1' lat='1' lon='2'/><relation id='1' lat='1' lon='2'/>" + n + b"</node><way id='1' lat='1' lon='2'/>")))
    r.append(("tag at top", W(b"<tag k='a' v='b'/><nd ref='1'/><member type='node' ref='1' role=''/>")))
    r.append(("empty", b"")); r.append(("space", b" \n")); r.append(("bom", b"\xef\xbb\xbf")); r.append(("nul", b"\0" * 100))
    r.append(("two roots", W(b"") + W(n + b"</node>"))); r.append(("after root", W(b"") + b"junk"))
    r.append(("delete unclosed use", b"<osmChange version='0.6'><delete><delete>" + n + b"</node></delete>" + n + b"</node></delete></osmChange>"))
    lol = b"<!DOCTYPE lolz [<!ENTITY l0 'lol'>" + b"".join(b"<!ENTITY l%d '%s'>" % (i + 1, b"&l%d;" % i * 10) for i in range(9)) + b"]>"
    r.append(("billion laughs attr", lol + W(b"<node id='1' user='&l9;'/>"))); r.append(("billion laughs text", lol + W(b"&l9;")))
    for f in VALUES:
        x = f.encode().replace(b"<", b"&lt;")
        r.append(("value " + f[:20], W(b"<bounds minlon='%s' minlat='%s' maxlon='%s' maxlat='%s'/><node id='%s' version='%s' changeset='%s' uid='%s' user='%s' visible='%s' lat='%s' lon='%s'/><way id='1'><nd ref='%s'/></way><relation id='1'><member type='%s' ref='%s' role='%s'/></relation>" % ((x,) * 16))))
        r.append(("timestamp " + f[:20], W(b"<node id='1' timestamp='%s'/>" % x)))
    return r

def check(ctx):
    exe, nd, plain = vp.build_many([dict(src="harness/io.cpp", flags=["-fno-sanitize=signed-integer-overflow"]), dict(src="harness/io.cpp", flags=["-fno-sanitize=signed-integer-overflow", "-DNDEBUG"]),
                                    dict(src="harness/io.cpp", variant="plain")])
    rng = ctx.rng
    ctx.rule = ("valid PBF files with mutated protobuf fields, array lengths, indexes, envelope sizes; a systematic list of every array one "
                "shorter/longer and every index out of range; random and systematic XML structures, values and bytes; each read under "
                "ASan+UBSan, a part under valgrind. Non-trivial: every input (distinct bytes).")
    ctx.assumptions = ["signed integer overflow while summing hostile deltas is not counted as a violation"]
    inputs = []     # (name, type, enc, bytes)
    systematic = 0
    for name, b in targeted():
        for z in (False, True) if not ctx.quick else (rng.random() < .5,):
            hb = pbf.header_block(model.Header("g"), False)
            inputs.append(("pbf " + name, "osm", "pbf", pbf.blob("OSMHeader", hb, False) + pbf.blob("OSMData", b, z)))
    for name, b in envelopes(): inputs.append(("envelope " + name, "osm", "pbf", b))
    for name, b in xml_special(): inputs.append(("xml " + name, "osm", "xml", b))
    systematic = len(inputs)
    for i in range(ctx.n(1300, 40000)):
        t = rng.choice(["osm", "osm", "osh", "osc"])
        inputs.append(("pbf mutation", t, "pbf", mut_pbf(rng, t)))
    for i in range(ctx.n(3000, 100000)):
        t = rng.choice(["osm", "osm", "osh", "osc"])
        if rng.random() < .6: inputs.append(("xml random", t, "xml", rand_xml(rng)))
        else:
            g = model.Gen(rng, history=t != "osm")
            d, _ = xmlio.XmlWriter(rng, "random").document(cases.rand_header(rng, t), g.objs(rng.randint(1, 10)), t)
            d = bytemut(rng, d)
            inputs.append(("xml bytes", t, "xml", d))
    for i in range(ctx.n(60, 1000)):
        g = model.Gen(rng)
        d, _ = xmlio.XmlWriter(rng, "random").document(cases.rand_header(rng, "osm"), g.objs(rng.randint(1, 10)), "osm")
        e = rng.choice(["gz", "bz2"])
        inputs.append(("compressed bytes", "osm", e, bytemut(rng, cases.compress(rng, d, e))))
    jobs = []
    for i, (name, t, e, b) in enumerate(inputs):
        p = os.path.join(ctx.tmp, "i%d" % i)
        cases.write(p, b); jobs.append("read %s %s -1 0 %s" % (t, e, p))
        ctx.case(b); ctx.count("inputs " + name.split(" ")[0])
    ctx.samples = [{"name": n, "type": t, "enc": e, "bytes": len(b)} for n, t, e, b in inputs[::max(1, len(inputs) // 6)]][:6]
    ctx.count("systematic inputs", systematic)
    res = server.parallel(exe, jobs, batch=100, timeout=120)
    for (name, t, e, b), j, r in zip(inputs, jobs, res):
        if r.crash:
            ctx.violation(r.crash, "%s (%s): %s\n%s" % (name, j, r.crash, r.run.err[-2500:].decode("utf-8", "replace")), {"input." + e: b, "job.txt": j})
        elif r.end == "ok": ctx.count("accepted")
        else: ctx.count("rejected: " + r.end.split(" ")[1])
        ctx.count("callbacks", len(r.lines))
    if any(r.hang for r in res): return
    # sizes beyond the limits with all bytes there
    big = oversize(); bj = []
    for i, (name, b, n, refuse) in enumerate(big):
        p = os.path.join(ctx.tmp, "big%d" % i); cases.write(p, b); os.truncate(p, len(b) + n); bj.append("read osm pbf -1 0 " + p); ctx.case(name); ctx.count("oversized inputs")
    for which, x in (("", exe), ("NDEBUG:", nd)):
        for (name, b, n, refuse), r in zip(big, server.parallel(x, bj, batch=6, timeout=120)):
            f = {"start.pbf": b[:100000], "job.txt": "%s, followed by %d zero bytes" % (name, n)}
            if r.crash: ctx.violation(which + r.crash, "%s: %s\n%s" % (name, r.crash, r.run.err[-2500:].decode("utf-8", "replace")), f)
            elif refuse and r.end == "ok": ctx.violation("oversized", "%s is accepted" % name, f)
            elif not refuse and r.end == "ok": ctx.count("inputs just below the limits accepted")
    if ctx.violations: return
    # without assertions (neither the library's nor protobuf's): systematic inputs and some others
    sel = list(range(systematic)) + rng.sample(range(systematic, len(inputs)), ctx.n(400, 10000))
    for i, r in zip(sel, server.parallel(nd, [jobs[i] for i in sel], batch=100, timeout=120)):
        name, t, e, b = inputs[i]
        ctx.count("inputs with NDEBUG")
        if r.crash:
            ctx.violation("NDEBUG:" + r.crash, "%s (%s): %s\n%s" % (name, jobs[i], r.crash, r.run.err[-2500:].decode("utf-8", "replace")), {"input." + e: b, "job.txt": jobs[i]})
    # uninitialised values: a part under memcheck
    sel = [i for i in range(len(inputs)) if inputs[i][2] == "xml"]
    seln = rng.sample(sel, min(len(sel), ctx.n(250, 5000))) + rng.sample([i for i in range(len(inputs)) if inputs[i][2] == "pbf"], ctx.n(24, 400))
    from concurrent.futures import ThreadPoolExecutor
    def vg(part):
        return part, vp.run(["valgrind", "-q", "--error-exitcode=99", "--child-silent-after-fork=yes", "--max-stackframe=100000000", plain], stdin=("\n".join(jobs[i] for i in part) + "\n").encode(), timeout=1500)
    with ThreadPoolExecutor(8) as ex:
        for part, r in ex.map(vg, [seln[i::8] for i in range(8)]):
            ctx.count("inputs under valgrind", len(part))
            if r.timed_out: ctx.count("valgrind timeouts"); continue
            if r.rc == 99 or b"uninitialised" in r.err or b"Invalid read" in r.err or b"Invalid write" in r.err:
                import re
                m = re.search(rb"==\d+== (\w[^\n]*)\n(?:==\d+==\s+(?:at|by)[^\n]*\n)*?==\d+==\s+(?:at|by) 0x[0-9A-F]+: [^\n]*\((\w+\.hpp:\d+)\)", r.err)
                k = "valgrind:" + (m.group(1).decode()[:60] + "@" + m.group(2).decode().split(":")[0] if m else "error")
                ctx.violation(k, r.err[:3000].decode("utf-8", "replace"), {"jobs.txt": "\n".join(jobs[i] for i in part)})
