"""OSM PBF: independent encoder (all encoding choices) and independent strict decoder, working on wire bytes."""
import struct, zlib
from model import Obj, Header, UNDEF

# ---------------------------------------------------------------- wire
def uv(n):
    n &= (1 << 64) - 1
    o = bytearray()
    while n > 127:
        o.append(n & 127 | 128); n >>= 7
    o.append(n)
    return bytes(o)
def zz(n):
    return uv((n << 1) if n >= 0 else ((-n) << 1) - 1)
def zz32(n):     # sint32: deltas wrap to 32 bits
    n &= (1 << 32) - 1
    return zz(n - (1 << 32) if n >> 31 else n)
def key(f, w): return uv(f << 3 | w)
def fv(f, n): return key(f, 0) + uv(n)
def fz(f, n): return key(f, 0) + zz(n)
def fb(f, b):
    if isinstance(b, str): b = b.encode()
    return key(f, 2) + uv(len(b)) + b
def packed(f, vals, enc): return fb(f, b"".join(enc(v) for v in vals)) if vals else b""

class WireError(Exception): pass
def rd(b, i):
    n = s = 0
    while True:
        if i >= len(b): raise WireError("truncated varint")
        c = b[i]; i += 1
        n |= (c & 127) << s; s += 7
        if not c & 128: return n & ((1 << 64) - 1), i
        if s > 63: raise WireError("varint too long")
def unzz(n): return (n >> 1) ^ -(n & 1)
def s64(n): return n - (1 << 64) if n >> 63 else n
def s32(n): n &= (1 << 32) - 1; return n - (1 << 32) if n >> 31 else n
def fields(b):
    i = 0
    while i < len(b):
        k, i = rd(b, i)
        f, w = k >> 3, k & 7
        if w == 0: v, i = rd(b, i)
        elif w == 2:
            n, i = rd(b, i)
            if i + n > len(b): raise WireError("truncated field")
            v = bytes(b[i:i + n]); i += n
        elif w == 5: v = b[i:i + 4]; i += 4
        elif w == 1: v = b[i:i + 8]; i += 8
        else: raise WireError("wire type %d" % w)
        yield f, w, v
def unpack(b):
    o = []; i = 0
    n = len(b)
    while i < n:
        v = b[i]
        if v < 128: i += 1
        else: v, i = rd(b, i)
        o.append(v)
    return o

# ---------------------------------------------------------------- encoder
class Strings:
    def __init__(self, rng=None, pad=0):
        self.l = [b""]; self.d = {}
        if rng:
            for i in range(pad):
                self.l.append(b"unused%d" % i)
    def __call__(self, s):
        b = s.encode() if isinstance(s, str) else s
        if b not in self.d:
            self.d[b] = len(self.l); self.l.append(b)
        return self.d[b]

class Opts:
    def __init__(self, **k):
        self.gran = 100; self.lat_off = 0; self.lon_off = 0; self.dgran = 1000
        self.dense = True; self.zlib = True; self.info = True; self.visible = False
        self.strings_first = True; self.write_defaults = False; self.rng = None; self.shuffle_strings = False
        self.unpacked = False; self.extra_fields = False; self.level = 6; self.pad = 0; self.omit = ()
        self.__dict__.update(k)

def enc_info(o, S, op, dense=False):
    b = b"" if "version" in op.omit else fv(1, o.version)
    if "ts" not in op.omit: b += fv(2, o.ts * 1000 // op.dgran)
    if "changeset" not in op.omit: b += fv(3, o.changeset)
    if "uid" not in op.omit: b += fv(4, o.uid)
    if "user" not in op.omit: b += fv(5, S(o.user))
    if op.visible: b += fv(6, 1 if o.visible else 0)
    return b

def pk(f, vals, enc, op):
    if op.unpacked: return b"".join(key(f, 0) + enc(v) for v in vals)
    return packed(f, vals, enc)

def enc_coord(v, off, gran):
    """fixed-point 1e-7 -> units of gran nanodegrees from off"""
    n = v * 100 - off
    return n // gran if n % gran == 0 else int(round(n / gran))
def dec_coord_nano(u, off, gran):
    return u * gran + off

def enc_group(objs, S, op):
    """one PrimitiveGroup: all objs of one type"""
    t = objs[0].t
    out = b""
    def hasinfo(o): return op.info if not callable(op.info) else op.info(o)
    if t == "n" and op.dense:
        ids = []; lats = []; lons = []; kv = []; li = la = lo = 0
        ver = []; ts = []; cs = []; uid = []; us = []; vis = []; lt = lc = lu = ls = 0
        for o in objs:
            ids.append(o.id - li); li = o.id
            a, c = enc_coord(o.y, op.lat_off, op.gran), enc_coord(o.x, op.lon_off, op.gran)
            lats.append(a - la); la = a; lons.append(c - lo); lo = c
            for k, v in o.tags: kv += [S(k), S(v)]
            kv.append(0)
            if op.info:
                ver.append(o.version); T = o.ts * 1000 // op.dgran
                ts.append(T - lt); lt = T; cs.append(o.changeset - lc); lc = o.changeset
                uid.append(o.uid - lu); lu = o.uid; s = S(o.user); us.append(s - ls); ls = s
                vis.append(1 if o.visible else 0)
        if not any(o.tags for o in objs) and op.rng and op.rng.random() < 0.7: kv = []
        d = pk(1, ids, zz, op)
        if op.info:
            di = b"".join(pk(n, v, e, op) for n, c, v, e in ((1, "version", ver, uv), (2, "ts", ts, zz), (3, "changeset", cs, zz), (4, "uid", uid, zz32), (5, "user", us, zz32)) if c not in op.omit)
            if op.visible: di += pk(6, vis, uv, op)
            d += fb(5, di)
        d += pk(8, lats, zz, op) + pk(9, lons, zz, op) + pk(10, kv, uv, op)
        return fb(2, d)
    for o in objs:
        b = fz(1, o.id) if t == "n" else fv(1, o.id)
        b += pk(2, [S(k) for k, v in o.tags], uv, op) + pk(3, [S(v) for k, v in o.tags], uv, op)
        if hasinfo(o): b += fb(4, enc_info(o, S, op))
        if op.extra_fields and op.rng.random() < 0.2: b += fb(50, b"future")
        if t == "n":
            b += fz(8, enc_coord(o.y, op.lat_off, op.gran)) + fz(9, enc_coord(o.x, op.lon_off, op.gran))
            out += fb(1, b)
        elif t == "w":
            l = 0; d = []
            for r in o.refs: d.append(r - l); l = r
            b += pk(8, d, zz, op)
            out += fb(3, b)
        else:
            l = 0; d = []
            for _, r, _2 in o.members: d.append(r - l); l = r
            b += pk(8, [S(x[2]) for x in o.members], uv, op) + pk(9, d, zz, op)
            b += pk(10, ["nwr".index(x[0]) for x in o.members], uv, op)
            out += fb(4, b)
    return out

def enc_block(groups, op):
    S = Strings(op.rng, op.pad)
    if op.shuffle_strings and op.rng:   # record strings in random order first
        ss = set()
        for g in groups:
            for o in g:
                for k, v in o.tags: ss.add(k); ss.add(v)
                ss.add(o.user)
                for m in o.members: ss.add(m[2])
        ss = sorted(ss); op.rng.shuffle(ss)
        for s in ss: S(s)
    gs = b"".join(fb(2, enc_group(g, S, op)) for g in groups)
    st = fb(1, b"".join(fb(1, s) for s in S.l))
    par = b""
    if op.gran != 100 or op.write_defaults: par += fv(17, op.gran)
    if op.dgran != 1000 or op.write_defaults: par += fv(18, op.dgran)
    if op.lat_off or op.write_defaults: par += fv(19, op.lat_off)
    if op.lon_off or op.write_defaults: par += fv(20, op.lon_off)
    return st + gs + par if op.strings_first else par + gs + st

def blob(typ, data, zl=True, level=6, indexdata=None, hextra=b"", raw_size=True):
    if zl:
        b = (fv(2, len(data)) if raw_size else b"") + fb(3, zlib.compress(data, level))
    else:
        b = fb(1, data)
        if raw_size: b += fv(2, len(data))
    h = fb(1, typ)
    if indexdata is not None: h += fb(2, indexdata)
    h += fv(3, len(b)) + hextra
    return struct.pack(">I", len(h)) + h + b

def header_block(header, history=False, dense=True, features=(), optional=(), extra=b""):
    b = b""
    if header.bounds:
        x1, y1, x2, y2 = header.bounds
        b += fb(1, fz(1, x1 * 100) + fz(2, x2 * 100) + fz(3, y2 * 100) + fz(4, y1 * 100))
    fs = ["OsmSchema-V0.6"] + (["DenseNodes"] if dense else []) + (["HistoricalInformation"] if history else []) + list(features)
    for f in fs: b += fb(4, f)
    for f in optional: b += fb(5, f)
    if header.generator: b += fb(16, header.generator)
    return b + extra

# ---------------------------------------------------------------- strict decoder
class Decoded:
    def __init__(self):
        self.features = None; self.optional = []; self.generator = ""; self.bbox = None; self.objs = []; self.blocks = []
        self.problems = []; self.blobs = []
MAXH = 64 * 1024; MAXB = 32 * 1024 * 1024

def decode(data, strict=True):
    r = Decoded()
    i = 0
    n = 0
    P = r.problems.append
    while i < len(data):
        if i + 4 > len(data): P("truncated length"); break
        hl = struct.unpack(">I", data[i:i + 4])[0]; i += 4
        if hl >= MAXH: P("blob header length %d" % hl)
        if i + hl > len(data): P("truncated blob header"); break
        typ = None; ds = None
        for f, w, v in fields(data[i:i + hl]):
            if f == 1: typ = v.decode()
            elif f == 3: ds = v
        i += hl
        if typ is None or ds is None: P("blob header incomplete"); break
        if ds >= MAXB: P("blob size %d" % ds)
        if i + ds > len(data): P("truncated blob"); break
        raw = None; rs = None; z = None
        for f, w, v in fields(data[i:i + ds]):
            if f == 1: raw = v
            elif f == 2: rs = v
            elif f == 3: z = v
        i += ds
        if (raw is None) == (z is None): P("blob with neither or both of raw and zlib data"); break
        if z is not None:
            d = zlib.decompressobj()
            raw = d.decompress(z)
            if not d.eof or d.unused_data: P("zlib stream incomplete or with trailing data")
            if rs is None: P("raw_size missing")
        if rs is not None and rs != len(raw): P("raw_size %s but %d bytes" % (rs, len(raw)))
        if len(raw) > MAXB: P("uncompressed size %d" % len(raw))
        r.blobs.append((typ, ds, len(raw), z is not None))
        if n == 0 and typ != "OSMHeader": P("first blob is " + typ)
        if n > 0 and typ != "OSMData": P("later blob is " + typ)
        n += 1
        if typ == "OSMHeader": dec_header(raw, r)
        elif typ == "OSMData": dec_block(raw, r)
    return r

def dec_header(raw, r):
    r.features = []
    for f, w, v in fields(raw):
        if f == 1:
            bb = {}
            for g, _, x in fields(v): bb[g] = unzz(x)
            if set(bb) != {1, 2, 3, 4}: r.problems.append("bbox incomplete")
            r.bbox = (bb.get(1), bb.get(4), bb.get(2), bb.get(3))   # left bottom right top, nanodegrees
        elif f == 4: r.features.append(v.decode())
        elif f == 5: r.optional.append(v.decode())
        elif f == 16: r.generator = v.decode()

def dec_block(raw, r):
    P = r.problems.append
    strings = None; groups = []; gran = 100; dgran = 1000; lato = lono = 0
    for f, w, v in fields(raw):
        if f == 1: strings = [x for g, _, x in fields(v) if g == 1]
        elif f == 2: groups.append(v)
        elif f == 17: gran = s32(v)
        elif f == 18: dgran = s32(v)
        elif f == 19: lato = s64(v)
        elif f == 20: lono = s64(v)
    if strings is None: P("no string table"); strings = []
    if not strings or strings[0] != b"": P("string table entry 0 not empty")
    def S(i, what):
        if i >= len(strings):
            P("string index %d out of range (%d) in %s" % (i, len(strings), what)); return "\ufffdBAD"
        uses[i] += 1
        return strings[i].decode("utf-8", "surrogateescape")
    uses = [0] * len(strings)
    cnt = 0
    r.blocks.append({"strings": len(strings), "gran": gran, "dgran": dgran, "size": len(raw), "groups": [], "stringlist": strings, "uses": uses})
    def ts_of(v): return v * dgran / 1000 if (v * dgran) % 1000 else v * dgran // 1000
    def coord(v, off): return v * gran + off     # nanodegrees
    def info(v, o):
        iv = {}
        for f, w, x in fields(v): iv[f] = x
        o.version = s32(iv.get(1, (1 << 64) - 1)); o.ts = ts_of(s64(iv.get(2, 0))); o.changeset = s64(iv.get(3, 0))
        o.uid = s32(iv.get(4, 0)); o.user = S(iv.get(5, 0), "user")
        if 6 in iv: o.visible = bool(iv[6]); o.visible_written = bool(iv[6])
        o.endtime = "info"
    for g in groups:
        kinds = set()
        k0 = cnt
        for f, w, v in fields(g):
            kinds.add(f)
            if f == 2:
                d = {}
                for ff, ww, x in fields(v):
                    d.setdefault(ff, []).append((ww, x))
                def arr(ff, dec, src=None):
                    o = []
                    for ww, x in (src if src is not None else d).get(ff, []):
                        o += [dec(y) for y in (unpack(x) if ww == 2 else [x])]
                    return o
                ids = arr(1, unzz); lat = arr(8, unzz); lon = arr(9, unzz); kv = arr(10, lambda x: x)
                if not (len(ids) == len(lat) == len(lon)): P("dense array lengths differ")
                di = None
                if 5 in d:
                    di = {}
                    for ff, ww, x in fields(d[5][0][1]): di.setdefault(ff, []).append((ww, x))
                    ver = arr(1, s32, di); ts = arr(2, unzz, di); cs = arr(3, unzz, di); uid = arr(4, unzz, di)
                    us = arr(5, unzz, di); vis = arr(6, lambda x: bool(x), di)
                    for a in (ver, ts, cs, uid, us):
                        if len(a) != len(ids): P("denseinfo array lengths differ")
                    if vis and len(vis) != len(ids): P("denseinfo visible length")
                I = LA = LO = T = C = U = US = 0; p = 0
                for j in range(len(ids)):
                    I += ids[j]; LA += lat[j]; LO += lon[j]
                    o = Obj("n", s64(I & (1 << 64) - 1)); o.x, o.y = coord(LO, lono), coord(LA, lato)
                    if kv:
                        while p < len(kv) and kv[p]:
                            if p + 1 >= len(kv): P("keys_vals ends inside a tag"); break
                            if kv[p + 1] == 0 and False: pass
                            o.tags.append((S(kv[p], "key"), S(kv[p + 1], "value"))); p += 2
                        if p >= len(kv): P("keys_vals lacks a delimiter")
                        p += 1
                    if di is not None and j < len(ver):
                        T += ts[j]; C += cs[j]; U += uid[j]; US += us[j]
                        o.version, o.ts, o.changeset, o.uid, o.user = ver[j], ts_of(T), C, s32(U), S(US, "user") if US >= 0 else P("negative user sid") or ""
                        if vis: o.visible = vis[j]; o.visible_written = vis[j]
                        o.endtime = "info"
                    r.objs.append(o); cnt += 1
                if kv and p != len(kv): P("keys_vals has trailing entries")
            elif f in (1, 3, 4):
                o = Obj({1: "n", 3: "w", 4: "r"}[f], 0)
                ks = []; vs = []; roles = []; mem = []; types = []; refs = []; lat = lon = None; idseen = False
                for ff, ww, x in fields(v):
                    L = lambda: unpack(x) if ww == 2 else [x]
                    if ff == 1: o.id = unzz(x) if f == 1 else s64(x); idseen = True
                    elif ff == 2: ks += L()
                    elif ff == 3: vs += L()
                    elif ff == 4: info(x, o)
                    elif ff == 8:
                        if f == 1: lat = unzz(x)
                        elif f == 3: refs += [unzz(y) for y in L()]
                        else: roles += L()
                    elif ff == 9:
                        if f == 1: lon = unzz(x)
                        else: mem += [unzz(y) for y in L()]
                    elif ff == 10: types += L()
                if not idseen: P("object without id")
                if len(ks) != len(vs): P("keys and vals differ in length")
                o.tags = [(S(a, "key"), S(b, "value")) for a, b in zip(ks, vs)]
                if f == 1:
                    if lat is None or lon is None: P("node without lat/lon"); lat = lon = 0
                    o.x, o.y = coord(lon, lono), coord(lat, lato)
                a = 0
                for x in refs: a += x; o.refs.append(s64(a & (1 << 64) - 1))
                if not (len(roles) == len(mem) == len(types)): P("member array lengths differ")
                a = 0
                for ro, m, t in zip(roles, mem, types):
                    a += m
                    if t > 2: P("member type %d" % t); t = 0
                    o.members.append(("nwr"[t], s64(a & (1 << 64) - 1), S(ro, "role")))
                r.objs.append(o); cnt += 1
            else: P("unknown field %d in group" % f)
        if len(kinds) > 1: P("group mixes kinds %s" % kinds)
        if not kinds: P("empty group")
        r.blocks[-1]["groups"].append((sorted(kinds), cnt - k0))
    r.blocks[-1]["count"] = cnt
