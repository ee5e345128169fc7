"""OSM XML: independent generator (many spellings of the same data) and independent reader."""
import calendar, time, datetime
from xml.parsers import expat
from decimal import Decimal
from model import Obj, Header, UNDEF

def iso(ts):
    d = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=ts)
    return "%04d-%02d-%02dT%02d:%02d:%02dZ" % (d.year, d.month, d.day, d.hour, d.minute, d.second)
def parse_iso(s):
    d = datetime.datetime.strptime(s, "%Y-%m-%dT%H:%M:%SZ")
    return int((d - datetime.datetime(1970, 1, 1)).total_seconds())

def dec(x):
    """Exact decimal text of a fixed point coordinate."""
    s = "-" if x < 0 else ""
    a = abs(x)
    return "%s%d.%07d" % (s, a // 10**7, a % 10**7)

def spell_coord(rng, x):
    s = dec(x)
    r = rng.random()
    if r < 0.35: return s
    if r < 0.6:
        t = s.rstrip("0")
        return t[:-1] if t.endswith(".") else t
    if r < 0.7:      # digits beyond the seventh that round back (never a tie)
        extra = rng.choice(["0", "1", "49", "3999", "000000001", "4899"])
        return s + extra
    if r < 0.8:      # rounds up in magnitude to the value
        a = abs(x)
        if a == 0: return "0.0"
        a2 = a * 1000 - rng.choice([1, 100, 489])
        return ("-" if x < 0 else "") + "%d.%010d" % (a2 // 10**10, a2 % 10**10)
    if r < 0.9:
        return ("%sE-7" % x) if rng.random() < 0.5 else ("%de-7" % x)
    if s.startswith("0."): return s[1:]
    if s.startswith("-0."): return "-" + s[2:]
    return s

class XmlWriter:
    def __init__(self, rng, style="random", encoding=None):
        self.rng = rng
        self.style = style
        self.encoding = encoding or "utf-8"
    def q(self, s):
        rng = self.rng
        quote = '"' if self.style == "plain" or rng.random() < 0.7 else "'"
        out = []
        for c in s:
            o = ord(c)
            if c in "<&" or c == quote:
                out.append({"<": "&lt;", "&": "&amp;", '"': "&quot;", "'": "&apos;"}[c] if rng.random() < 0.6 else "&#%d;" % o)
            elif c == ">" and rng.random() < 0.5: out.append("&gt;")
            elif c in "\t\n\r": out.append("&#%d;" % o if rng.random() < 0.5 else "&#x%X;" % o)
            elif o > 126 and (not self.enc_ok(c) or (self.style != "plain" and rng.random() < 0.1)):
                out.append("&#%d;" % o if rng.random() < 0.5 else "&#x%x;" % o)
            else: out.append(c)
        return quote + "".join(out) + quote
    def enc_ok(self, c):
        try: c.encode(self.encoding); return True
        except UnicodeEncodeError: return False
    def sp(self):
        if self.style == "plain": return " "
        return self.rng.choice([" ", " ", " ", "  ", "\n", "\t", "\r\n ", " \n\t"])
    def attrs(self, a, shuffle=True):
        a = list(a)
        if shuffle and self.style != "plain" and self.rng.random() < 0.6: self.rng.shuffle(a)
        eq = "=" if self.style == "plain" or self.rng.random() < 0.9 else " = "
        return "".join(self.sp() + k + eq + self.q(v) for k, v in a)
    def nl(self):
        if self.style == "plain": return "\n"
        return self.rng.choice(["\n", "\n  ", "", "\r\n", "\n<!-- c <node id='1'> -->\n", "\n\n", " "])
    def elem(self, name, a, children=()):
        s = "<" + name + self.attrs(a)
        if not children:
            return s + (self.rng.choice(["/>", " />", "></%s>" % name]) if self.style != "plain" else "/>")
        return s + ">" + "".join(self.nl() + c for c in children) + self.nl() + "</" + name + ">"
    def obj(self, o, visible=None):
        rng = self.rng
        a = [("id", str(o.id))] if o.id or rng.random() < 0.5 else []
        if o.version or rng.random() < 0.2: a.append(("version", str(o.version)))
        if o.ts: a.append(("timestamp", iso(o.ts)))
        if o.changeset or rng.random() < 0.2: a.append(("changeset", str(o.changeset)))
        if o.uid != -1 or rng.random() < 0.05: a.append(("uid", str(o.uid)))
        if o.user or rng.random() < 0.05: a.append(("user", o.user))
        if visible is not None: a.append(("visible", visible))
        name = {"n": "node", "w": "way", "r": "relation"}[o.t]
        ch = []
        if o.t == "n" and (o.x, o.y) != (UNDEF, UNDEF):
            a.append(("lat", spell_coord(rng, o.y))); a.append(("lon", spell_coord(rng, o.x)))
        if self.style != "plain" and rng.random() < 0.05: a.append(("action", "modify"))
        odd = self.style != "plain" and rng.random() < 0.12     # things which have to be ignored
        pos = lambda: [("lat", "%.4f" % rng.uniform(-90, 90)), ("lon", "%.4f" % rng.uniform(-180, 180))]
        def x(*more): return rng.choice(more) if odd and rng.random() < 0.4 else []
        a += x([("ids", "17")], [("versions", "9")], [("username", "nobody")], [("uids", "8"), ("num_changes", "4")], [("visibl", "false"), ("VISIBLE", "false")], [("xlat", "1"), ("lon2", "2")])
        def junk():
            return rng.choice([self.elem("center", pos()), self.elem("bounds", [("minlat", "1"), ("minlon", "2"), ("maxlat", "3"), ("maxlon", "4")]),
                               self.elem("discussion", [], [self.elem("comment", [("uid", "1"), ("user", "x")], [self.elem("text", [])])]), "text",
                               self.elem("tags", [("k", "a"), ("v", "b")]), self.elem("geom", [], [self.elem("nd", pos() + [("ref", "5")]), self.elem("tag", [("k", "q"), ("v", "w")])]),
                               self.elem("node", [("id", "3")], [self.elem("tag", [("k", "a"), ("v", "b")])]), self.elem("delete", [])])
        body = [self.elem("nd", [("ref", str(r))] + x(pos(), [("reference", "4")]), x([junk()])) for r in o.refs]
        body += [self.elem("member", [("type", {"n": "node", "w": "way", "r": "relation"}[t]), ("ref", str(r)), ("role", role)] + x(pos(), [("types", "way")], [("roles", "")]),
                           x([junk()], [self.elem("nd", pos()), self.elem("nd", pos() + [("ref", "7")]), self.elem("tag", [("k", "q"), ("v", "w")])]))
                 for t, r, role in o.members]
        tg = [self.elem("tag", [("k", k), ("v", v)] + x([("key", "z")], [("value", "z"), ("kv", "")]), x([junk()])) for k, v in o.tags]
        while odd and rng.random() < 0.3: body.insert(rng.randint(0, len(body)), junk())
        if self.style != "plain" and rng.random() < 0.15:   # interleave keeping relative order
            ch = []
            i = j = 0
            while i < len(body) or j < len(tg):
                if j >= len(tg) or (i < len(body) and rng.random() < 0.5): ch.append(body[i]); i += 1
                else: ch.append(tg[j]); j += 1
        else: ch = body + tg
        return self.elem(name, a, ch)
    def document(self, header, objs, ftype="osm"):
        """Returns (bytes, objs as a reader has to report them)."""
        rng = self.rng
        root = "osmChange" if ftype == "osc" else "osm"
        out = []
        if self.encoding != "utf-8" or rng.random() < 0.8:
            q = rng.choice("'\"")
            out.append("<?xml version=%s1.0%s encoding=%s%s%s?>" % (q, q, q, {"utf-16": "UTF-16", "utf-8": "UTF-8", "iso-8859-1": "ISO-8859-1", "us-ascii": "US-ASCII"}[self.encoding], q))
            out.append(self.nl())
        a = [("version", "0.6")]
        if header.generator is not None and header.generator != "": a.append(("generator", header.generator))
        if self.style != "plain" and rng.random() < 0.2: a.append(("copyright", "OpenStreetMap & contributors"))
        out.append("<" + root + self.attrs(a) + ">")
        if header.bounds:
            x1, y1, x2, y2 = header.bounds
            if self.style != "plain" and rng.random() < 0.25:     # several bounds elements: together they make up the bounds
                a = (x1, rng.randint(y1, y2), rng.randint(x1, x2), y2); b = (rng.randint(x1, x2), y1, x2, rng.randint(y1, y2))
                for q in rng.sample([a, b], 2): out.append(self.nl() + self.elem("bounds", [(k, spell_coord(rng, v)) for k, v in zip(("minlon", "minlat", "maxlon", "maxlat"), q)]))
            else:
                out.append(self.nl() + self.elem("bounds", [("minlon", spell_coord(rng, x1)), ("minlat", spell_coord(rng, y1)), ("maxlon", spell_coord(rng, x2)), ("maxlat", spell_coord(rng, y2))]))
        if self.style != "plain" and rng.random() < 0.1:
            out.append(self.nl() + "<note>The data included is from www.openstreetmap.org</note>")
        exp = []
        sect = None
        for o in objs:
            e = o.copy()
            vis = None
            if ftype == "osc":
                if o.section is not None: want = o.section
                else: want = ("create" if o.version == 1 else "modify") if o.visible else "delete"
                if want != sect or rng.random() < 0.05:
                    if sect: out.append(self.nl() + "</" + sect + ">")
                    sect = want
                    out.append(self.nl() + "<" + sect + (' if-unused="true"' if sect == "delete" and rng.random() < .2 else "") + ">")
                r = rng.random()
                e.visible = sect != "delete"
                if r < 0.15: vis = "true"; e.visible = True
                elif r < 0.3: vis = "false"; e.visible = False
            elif ftype == "osh":
                if not o.visible: vis = "false"
                elif rng.random() < 0.8: vis = "true"
            else:
                if not o.visible: vis = "false"
                elif rng.random() < 0.2: vis = "true"
            if self.style != "plain" and rng.random() < 0.04:
                out.append(self.nl() + rng.choice([self.elem("note", [], ["text"]), self.elem("changeset", [("id", "4"), ("visible", "false")], [self.elem("tag", [("k", "a"), ("v", "b")])]),
                                                   self.elem("nodes", [("id", "3")]), self.elem("remark", []), "text", self.elem("nd", [("ref", "3")]), self.elem("deleted", [])]))
            out.append(self.nl() + self.obj(o, vis))
            exp.append(e)
        if sect: out.append(self.nl() + "</" + sect + ">")
        out.append(self.nl() + "</" + root + ">" + self.nl())
        s = "".join(out)
        if self.encoding == "utf-16":
            b = s.encode("utf-16")
        else:
            b = s.encode(self.encoding)
            if self.encoding == "utf-8" and self.style != "plain" and rng.random() < 0.03: b = b"\xef\xbb\xbf" + b
        return b, exp

class ParsedXml:
    def __init__(self): self.root = None; self.rootattrs = {}; self.bounds = None; self.objs = []; self.problems = []

def fixed(s):
    d = Decimal(s) * 10**7
    if d != d.to_integral_value(): raise ValueError("more than 7 decimals: " + s)
    return int(d)

def parse(data):
    """Strict reader of the documents the library is documented to write. Raises on malformed XML."""
    r = ParsedXml()
    p = expat.ParserCreate()
    stack = []
    cur = [None]
    sect = [None]
    def start(name, at):
        depth = len(stack)
        stack.append(name)
        if depth == 0:
            r.root, r.rootattrs = name, dict(at)
            return
        par = stack[-2]
        if name == "bounds":
            if r.objs or r.bounds is not None or depth != 1: r.problems.append("misplaced bounds")
            r.bounds = tuple(fixed(at[k]) for k in ("minlon", "minlat", "maxlon", "maxlat"))
            if set(at) != {"minlon", "minlat", "maxlon", "maxlat"}: r.problems.append("bounds attributes")
        elif name in ("create", "modify", "delete"):
            if r.root != "osmChange" or depth != 1: r.problems.append("section outside of osmChange")
            sect[0] = name
        elif name in ("node", "way", "relation"):
            if r.root == "osmChange" and (depth != 2 or sect[0] is None): r.problems.append("object outside of section")
            if r.root == "osm" and depth != 1: r.problems.append("object at depth %d" % depth)
            o = Obj(name[0], int(at["id"]))
            o.section = sect[0]
            known = {"id", "version", "timestamp", "uid", "user", "changeset", "visible", "lat", "lon"}
            if set(at) - known: r.problems.append("unknown attributes %s" % (set(at) - known))
            o.version = int(at.get("version", 0)); o.changeset = int(at.get("changeset", 0))
            o.ts = parse_iso(at["timestamp"]) if "timestamp" in at else 0
            o.uid = int(at["uid"]) if "uid" in at else -1
            o.user = at.get("user", "")
            if ("uid" in at) != ("user" in at): r.problems.append("uid without user or reverse")
            o.visible_written = at.get("visible")
            if ("lat" in at) != ("lon" in at): r.problems.append("lat without lon")
            if "lat" in at:
                if name != "node": r.problems.append("lat on non-node")
                o.x, o.y = fixed(at["lon"]), fixed(at["lat"])
            cur[0] = o; r.objs.append(o)
        elif name == "nd":
            if par != "way" or set(at) != {"ref"}: r.problems.append("nd")
            cur[0].refs.append(int(at["ref"]))
        elif name == "member":
            if par != "relation" or set(at) != {"type", "ref", "role"}: r.problems.append("member")
            cur[0].members.append(({"node": "n", "way": "w", "relation": "r"}[at["type"]], int(at["ref"]), at["role"]))
        elif name == "tag":
            if par not in ("node", "way", "relation") or set(at) != {"k", "v"}: r.problems.append("tag")
            cur[0].tags.append((at["k"], at["v"]))
        else: r.problems.append("unknown element " + name)
    def end(name):
        stack.pop()
        if name in ("create", "modify", "delete"): sect[0] = None
    p.StartElementHandler, p.EndElementHandler = start, end
    p.Parse(data, True)
    return r
