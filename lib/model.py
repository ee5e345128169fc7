"""OSM data model used by generators and oracles, and its canonical line form (see harness/rec.hpp)."""
UNDEF = 2147483647

def esc(s):
    b = s.encode("utf-8") if isinstance(s, str) else s
    return "".join(chr(c) if 0x20 < c < 0x7f and c != 0x25 else "%%%02X" % c for c in b)

class Obj:
    __slots__ = ("t", "id", "version", "changeset", "ts", "uid", "user", "visible", "tags", "x", "y",
                 "refs", "members", "endtime", "refpos", "visible_written", "section")
    def __init__(self, t, id):
        self.t, self.id = t, id
        self.version = 0; self.changeset = 0; self.ts = 0; self.uid = -1; self.user = ""
        self.visible = True; self.tags = []; self.x = self.y = UNDEF; self.refs = []; self.members = []
        self.endtime = 0; self.refpos = None; self.visible_written = None; self.section = None
    def copy(self):
        o = Obj(self.t, self.id)
        for a in self.__slots__:
            v = getattr(self, a)
            setattr(o, a, list(v) if isinstance(v, list) else v)
        return o
    def line(self):
        f = [self.t.upper(), self.id, self.version, self.changeset, self.ts, self.uid, 1 if self.visible else 0,
             esc(self.user), self.endtime]
        if self.t == "n":
            f += [self.x, self.y]
        elif self.t == "w":
            f.append(len(self.refs))
            if self.refpos is None:
                f += self.refs
            else:
                f += [r if p is None or p == (UNDEF, UNDEF) else "%d:%d:%d" % (r, p[0], p[1]) for r, p in zip(self.refs, self.refpos)]
        else:
            f.append(len(self.members))
            for t, r, role in self.members:
                f += [t, r, esc(role)]
        f.append(len(self.tags))
        for k, v in self.tags:
            f += [esc(k), esc(v)]
        return "\t".join(map(str, f))

class Header:
    def __init__(self, generator="", bounds=None, multi=False):
        self.generator, self.bounds, self.multi = generator, bounds, multi
    def line(self):
        f = ["I", esc(self.generator), 1 if self.multi else 0]
        if self.bounds: f += list(self.bounds)
        return "\t".join(map(str, f))

AFTER = {"n": "AN", "w": "AW", "r": "AR"}
BEFORE = {"n": "BN", "w": "BW", "r": "BR"}
def trace(header, objs, final=True, empties=()):
    """The callback trace expected for a file with these objects."""
    out = [header.line()]
    last = None
    for o in objs:
        if o.t != last:
            if last: out.append(AFTER[last])
            out.append(BEFORE[o.t]); last = o.t
        out.append(o.line())
    if last: out.append(AFTER[last])
    if final: out.append("F")
    return out

# ---------------------------------------------------------------- generation
POOLS = [
    "abcdefghijklmnopqrstuvwxyz_:0123456789",
    "ABC xyz.,;-+*/=|~^`!@#$()[]{}?",
    "<>&\"'%\\",
    "\t\n\r ",
    "äöüßéèñøåçŁőžЖдыαβγאבגعربي",
    "日本語中文字한국어ทดสอบ",
    "😀🚀🏳️‍🌈𝔘𝕏𠜎𐍈",
    "\u0300\u200b\u200f\u2028\u00a0\u007f\u0085\ufffd\ue000\U0010fffd",
]
def text(rng, maxlen=40, minlen=0, plain=False):
    r = rng.random()
    if r < 0.1: n = minlen
    elif r < 0.8: n = rng.randint(minlen, max(minlen, min(12, maxlen)))
    elif r < 0.96: n = rng.randint(minlen, max(minlen, min(40, maxlen)))
    else: n = maxlen
    if plain or rng.random() < 0.4:
        pool = POOLS[0]
    elif rng.random() < 0.5:
        pool = rng.choice(POOLS)
    else:
        pool = "".join(rng.sample(POOLS, 3))
    return "".join(rng.choice(pool) for _ in range(n))

def any_id(rng, neg=True):
    r = rng.random()
    if r < 0.4: v = rng.randint(1, 1000)
    elif r < 0.7: v = rng.randint(1, 10 ** 10)
    elif r < 0.8: v = rng.choice([1, 2, 127, 128, 2**31 - 1, 2**31, 2**31 + 1, 2**32 - 1, 2**32, 2**32 + 1, 2**33, 2**40, 2**53 + 1])
    elif r < 0.85: v = 0
    elif r < 0.9: v = rng.randint(1, 2**60)
    else: v = rng.randint(2**31 - 5, 2**31 + 5)
    if neg and rng.random() < 0.15: v = -v
    return v

def coord(rng, lim):
    r = rng.random()
    if r < 0.5: return rng.randint(-lim * 10**7, lim * 10**7)
    if r < 0.6: return rng.choice([0, 1, -1, lim * 10**7, -lim * 10**7, lim * 10**7 - 1, 5, -5, 10, 99, 100, 101, -99, -101, 12345678, 1799999999 if lim == 180 else 899999999])
    if r < 0.8: return rng.randint(-1000, 1000)
    return rng.randint(-lim, lim) * 10**7 + rng.choice([0, 1, -1, 5000000]) if lim > 0 else 0

def clampc(v, lim):
    m = lim * 10**7
    return max(-m, min(m, v))

class Gen:
    """Random object generator. opts: history (several versions, visible flags), metadata on/off, sorted."""
    def __init__(self, rng, history=False, meta=1.0, plain_text=False, undef_pos=True, anon_user=True, maxtags=6,
                 maxrefs=12, neg=True, tsmax=4102444800, roles_long=True, empty_keys=True, bigversions=False):
        self.rng, self.history, self.meta, self.plain = rng, history, meta, plain_text
        self.undef_pos, self.anon_user = undef_pos, anon_user
        self.bigversions = bigversions
        self.maxtags, self.maxrefs, self.neg, self.tsmax = maxtags, maxrefs, neg, tsmax
        self.empty_keys = empty_keys
        self.users = [(rng.choice([1, 2, 1000, 123456, 2**31 - 1]) if i < 3 else rng.randint(1, 2**31 - 1),
                       text(rng, 255, 1, plain_text)) for i in range(8)]
        self.users.append((7777, "😀" * 255)); self.users.append((7778, ""))
    def huge(self, t):
        """an object with more than 65536 node references, members or tags"""
        rng = self.rng; n = rng.randint(65537, 66000); o = self.obj(t); i = rng.choice([1, 2**31 - 30000, 2**40])
        if t == "w": o.refs = [i + j * 3 for j in range(n)]
        elif t == "r": o.members = [(rng.choice("nwr"), i + j, ("", "r", "s%d" % (j % 99))[j % 3]) for j in range(n)]
        else: o.tags = [("k%d" % (j % 500), "v%d" % (j // 500)) for j in range(n)]
        return o
    def string(self, maxlen=255, minlen=0):
        return text(self.rng, maxlen, minlen, self.plain)
    def obj(self, t, id=None):
        rng = self.rng
        o = Obj(t, any_id(rng, self.neg) if id is None else id)
        if rng.random() < self.meta:
            o.version = rng.choice([1, 1, 1, 2, 3, rng.randint(1, 3000), 65535, 65536, 2**31 - 1]) if rng.random() < 0.95 else 0
            if self.bigversions and rng.random() < .03: o.version = rng.choice([2**31, 2**32 - 1, rng.randint(2**31, 2**32 - 1)])
            o.changeset = rng.choice([0, 1, 2, rng.randint(1, 10**8), 2**31 - 1])
            r = rng.random()
            if r < 0.85: o.ts = rng.randint(1, min(self.tsmax, 1700000000))
            elif r < 0.9: o.ts = rng.choice([1, 2**31 - 1, 2**31, 951782399, 951782400, 4102444799, 68169599, 1078012800, 1000000000])
            elif r < 0.95: o.ts = rng.randint(1, self.tsmax)
            if o.ts > self.tsmax: o.ts = self.tsmax
            if not self.anon_user or rng.random() < 0.8:
                o.uid, o.user = rng.choice(self.users)
            elif rng.random() < 0.3:
                o.uid = 0
        if self.history:
            o.visible = rng.random() < 0.75
        if t == "n":
            if not (self.undef_pos and rng.random() < (0.3 if not o.visible else 0.04)):
                o.x, o.y = clampc(coord(rng, 180), 180), clampc(coord(rng, 90), 90)
        elif t == "w":
            n = rng.choice([0, 1, 2, rng.randint(2, self.maxrefs), rng.randint(2, self.maxrefs)])
            r = any_id(rng, self.neg)
            for _ in range(n):
                r = r + rng.randint(-3, 3) if rng.random() < 0.6 else any_id(rng, self.neg)
                o.refs.append(r)
        else:
            n = rng.choice([0, 1, 2, rng.randint(2, self.maxrefs)])
            for _ in range(n):
                o.members.append((rng.choice("nwr"), any_id(rng, self.neg),
                                  rng.choice(["", "inner", "outer", self.string(255)])))
        nt = rng.choice([0, 0, 1, 2, rng.randint(0, self.maxtags)])
        for _ in range(nt):
            if rng.random() < 0.4:
                k, v = rng.choice([("highway", "primary"), ("name", self.string(255)), ("building", "yes"), ("created_by", "JOSM")])
            else:
                k, v = self.string(255), self.string(255)
            if not self.empty_keys and not k: k = "k"
            o.tags.append((k, v))
        return o
    def objs(self, n, order="sorted"):
        rng = self.rng
        if order == "sorted":
            a = sorted(rng.randint(0, n) for _ in range(2))
            ts = ["n"] * a[0] + ["w"] * (a[1] - a[0]) + ["r"] * (n - a[1])
        elif order == "mixed":
            ts = [rng.choice("nwr") for _ in range(n)]
        elif order == "reverse":
            a = sorted(rng.randint(0, n) for _ in range(2))
            ts = ["r"] * a[0] + ["w"] * (a[1] - a[0]) + ["n"] * (n - a[1])
        else:
            ts = [order] * n
        return [self.obj(t) for t in ts]

def diff(exp, got):
    """First difference of two line lists, as text, or None."""
    for i, (a, b) in enumerate(zip(exp, got)):
        if a != b:
            return "line %d: expected %r got %r" % (i, a[:600], b[:600])
    if len(exp) != len(got):
        i = min(len(exp), len(got))
        return "length: expected %d lines got %d; next expected %r got %r" % (len(exp), len(got),
               (exp[i:i+1] or ["-"])[0][:400], (got[i:i+1] or ["-"])[0][:400])
    return None
def diff_key(exp, got):
    """Coarse stable key of the first difference: which kind of line/field differs."""
    names = ["kind", "id", "version", "changeset", "timestamp", "uid", "visible", "user", "endtime"]
    for a, b in zip(exp, got):
        if a != b:
            fa, fb = a.split("\t"), b.split("\t")
            if fa[0] != fb[0]: return "kind:%s/%s" % (fa[0], fb[0])
            if fa[0] == "I": return "header"
            for i, (p, q) in enumerate(zip(fa, fb)):
                if p != q: return "%s.%s" % (fa[0], names[i] if i < len(names) else "content")
            return fa[0] + ".length"
    return "count"
