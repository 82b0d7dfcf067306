"""Stimuli: abstract values, legal encodings of them, and faults in those encodings.

Everything here is driven by the schema that TLC exports from the specification; nothing here
decides whether an outcome is right.
"""
import copy, json, random, struct

SCALARS = ["bool", "ubyte", "ushort", "uint", "ulong", "byte", "short", "int", "long", "float", "double",
           "char", "timestamp", "uuid"]
WIDTH = dict(bool=1, ubyte=1, ushort=2, uint=4, ulong=8, byte=1, short=2, int=4, long=8, float=4, double=8,
             char=4, timestamp=8, uuid=16)
NULL = ["null", []]
COMPS = ["Error", "Open", "Begin", "Attach", "Flow", "Transfer", "Disposition", "Detach", "End", "Close",
         "SaslMechanisms", "SaslInit", "SaslChallenge", "SaslResponse", "SaslOutcome", "Source", "Target",
         "Header", "Properties", "Received", "Accepted", "Rejected", "Released", "Modified"]
CHOICES = ["Role", "SenderSettleMode", "ReceiverSettleMode", "SaslCode", "TerminusDurability",
           "TerminusExpiryPolicy", "AmqpError", "ConnectionError", "SessionError", "LinkError"]
BASIC = [[k] for k in SCALARS + ["binary", "string", "symbol"]]
MAPS = [["map", ["symbol"], ["variant"]], ["map", ["string"], ["variant"]], ["map", ["variant"], ["variant"]],
        ["map", ["symbol"], ["opt", ["string"]]], ["map", ["uint"], ["string"]], ["map", ["ulong"], ["binary"]],
        ["vecmap"]]
ARRAYS = [["array", [k]] for k in SCALARS + ["binary", "string", "symbol"]] + [["array", ["map", ["symbol"], ["variant"]]]]
RESTRICTED = [["choice", c] for c in CHOICES] + [["messageid"], ["cond"], ["distmode"]]
MULTI = [["multiple", ["symbol"]]]
UNIONS = [["union", u] for u in ("DeliveryState", "Outcome", "SaslFrameBody", "Section")]
COMPTYPES = [["comp", c] for c in COMPS if c != "Transfer"]
FRAMES = [["amqpframe"], ["saslframe"], ["transfer"]]
MESSAGES = [["message", "in"], ["message", "out"]]
OPTS = [["opt", t] for t in BASIC + [["choice", "Role"], ["cond"], ["comp", "Error"], ["comp", "Source"], ["list"],
                                    ["multiple", ["symbol"]], ["map", ["symbol"], ["variant"]]]]
VALUE_TYPES = [["variant"], ["list"]] + BASIC + MAPS + ARRAYS + RESTRICTED + MULTI
DEC_TYPES = VALUE_TYPES + [["descriptor"]] + OPTS + COMPTYPES + UNIONS + [["performative"]] + FRAMES + MESSAGES


def be(n, w):
    return list((n % (1 << (8 * w))).to_bytes(w, "big"))


# ------------------------------------------------------------------ encodings as trees
class N:
    """Part of an encoding. kind: leaf | list | map | array | desc | raw"""
    __slots__ = ("kind", "T", "ctor", "body", "kids", "want", "dsize", "dcount", "mand")

    def __init__(self, kind, T=None, ctor=0, body=b"", kids=(), want=1):
        self.kind, self.T, self.ctor, self.body, self.kids, self.want = kind, T, ctor, body, list(kids), want
        self.dsize = self.dcount = 0
        self.mand = False

    def nodes(self):
        out = [self]
        for k in self.kids:
            out += k.nodes()
        return out

    def bytes(self):
        if self.kind == "raw":
            return self.body + b"".join(k.bytes() for k in self.kids)
        if self.kind == "desc":
            return bytes([self.ctor]) + b"".join(k.bytes() for k in self.kids)
        c, b = self.parts()
        return bytes([c]) + b

    def parts(self):
        """constructor, body"""
        if self.kind == "leaf":
            return self.ctor, self.body
        if self.kind in ("raw", "desc"):
            b = self.bytes()
            return b[0], b[1:]
        if self.kind == "array":
            ps = [k.parts() for k in self.kids]
            el = self.ctor
            if ps:
                el = ps[0][0]
                assert all(p[0] == el for p in ps)
            body = bytes([el]) + b"".join(p[1] for p in ps)
        else:
            body = b"".join(k.bytes() for k in self.kids)
        count = len(self.kids)
        base = {"list": 0xc0, "map": 0xc1, "array": 0xe0}[self.kind]
        if self.want == 0 and not self.kids and self.kind == "list":
            return 0x45, b""
        if self.want == 1 and len(body) + 1 <= 255 and count <= 255:
            size = (len(body) + 1 + self.dsize) % 256
            return base, bytes([size, (count + self.dcount) % 256]) + body
        size = (len(body) + 4 + self.dsize) % (1 << 32)
        return base + 16, struct.pack(">II", size, (count + self.dcount) % (1 << 32)) + body


class Gen:
    def __init__(self, schema, seed):
        self.s = schema
        self.r = random.Random(seed)
        self.fields = {n: c["fields"] for n, c in schema["composites"].items()}
        self.fixed = {}
        for code, (kind, w, c) in schema["fixed"]:
            self.fixed.setdefault(kind, []).append((code, w, c))
        self.choice = {n: {v: bytes(k) for k, v in t[1]} for n, t in schema["choices"].items()}
        self.choice_base = {n: t[0] for n, t in schema["choices"].items()}
        self.conds = {tuple(v): bytes(k) for k, v in schema["conditions"]}
        self.modes = {v: bytes(k) for k, v in schema["distmodes"]}
        self.codes = sorted([c for c, _ in schema["fixed"]] + [c for c, _ in schema["var"]]
                            + [c for c, _ in schema["compound"]] + [0])
        self.words = sorted({b for b in list(self.conds.values()) + list(self.modes.values())
                             + [b for n, t in self.choice.items() for b in t.values() if self.choice_base[n] == "symbol"]
                             + [bytes(c["sym"]) for c in schema["composites"].values() if c.get("sym")]})
        self.big = 0.02       # how often a length is beyond the 8-bit limits
        self.huge = 0.0       # ... beyond 16 bits
        self.ssym = True

    # ---------------------------------------------------------------- values
    def pick(self, xs):
        return self.r.choice(xs)

    def chance(self, p):
        return self.r.random() < p

    def length(self):
        x = self.r.random()
        if x < self.huge:
            return self.pick([4096, 32767, 32768, 65534, 65535, 65536, 65537])
        if x < self.huge + self.big:
            return self.pick([126, 127, 128, 250, 251, 252, 253, 254, 255, 256, 257, 300, 512])
        return self.pick([0, 0, 1, 1, 2, 2, 3, 4, 4, 5, 7, 8, 8, 12, 16, 16, 20, 32])

    def word(self):
        w = self.pick(self.words)
        x = self.r.random()
        if x < 0.7:
            return w
        if x < 0.8:
            return w[:-1]
        if x < 0.9:
            return w + b"x"
        return w.upper()

    def text(self, ascii=False):
        if self.chance(0.12):
            return self.word()
        n = self.length()
        if ascii or self.chance(0.7):
            b = bytes(self.r.randrange(32, 127) for _ in range(min(n, 40)))
            return (b * (n // 40 + 1))[:n] if n > 40 else b
        out = b""
        while len(out) < n:
            out += self.pick(["a", "\0", "\x7f", "\u0080", "é", "\u07ff", "\u0800", "\u20ac", "\ud7ff", "\ue000",
                              "\uffff", "\U00010000", "\U0001f4af", "\U0010ffff"]).encode()
            if len(out) > 60:
                out = (out * (n // len(out) + 1))[:n]
                while True:
                    try:
                        out.decode()
                        return out
                    except UnicodeDecodeError:
                        out = out[:-1]
        return out

    def integer(self, w, signed):
        top = 1 << (8 * w)
        if self.chance(0.7):
            n = self.pick([0, 0, 1, 2, 3, 4, 64, 127, 128, 129, 254, 255, 256, 257, -1, -2, -127, -128, -129, -255, -256,
                           32767, 32768, 65535, 65536, top // 2 - 1, top // 2, top - 1, -(top // 2)])
        else:
            n = self.r.randrange(top) >> self.r.randrange(8 * w)
        return be(n, w)

    def millis(self):
        lo, hi = -62135596800000, 253402300799999
        n = self.pick([0, 1, -1, 999, 1000, -999, -1000, -1001, 1500, -1500, lo, hi, self.r.randrange(lo, hi),
                       self.r.randrange(-5000, 5000), self.r.randrange(0, 2**41)])
        return be(n, 8)

    def scalar(self, k):
        if k == "bool":
            return [k, [self.r.randrange(2)]]
        if k in ("ubyte", "ushort", "uint", "ulong"):
            return [k, self.integer(WIDTH[k], False)]
        if k in ("byte", "short", "int", "long"):
            return [k, self.integer(WIDTH[k], True)]
        if k == "float":
            f = self.pick([0, 0x80000000, 0x3f800000, 0x7f800000, 0xff800000, 0x7fc00000, 0x7f800001, 1,
                           self.r.randrange(1 << 32)])
            return [k, be(f, 4)]
        if k == "double":
            f = self.pick([0, 1 << 63, 0x3ff0000000000000, 0x7ff0000000000000, 0xfff0000000000000,
                           0x7ff8000000000000, 1, self.r.randrange(1 << 64)])
            return [k, be(f, 8)]
        if k == "char":
            c = self.pick([0, 65, 0x7f, 0x80, 0x7ff, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x1f4af, 0x10ffff])
            return [k, be(c, 4)]
        if k == "timestamp":
            return [k, self.millis()]
        if k == "uuid":
            return [k, [self.r.randrange(256) for _ in range(16)]]
        raise KeyError(k)

    def telling(self):
        """A blob that looks like something: counted bytes, a value, a section, a frame, a header."""
        body = [self.r.randrange(256) for _ in range(self.pick([0, 1, 2, 4, 7]))]
        n = len(body)
        return self.pick([be(n, 4) + body, be(n + 4, 4) + body, [n] + body, be(n, 2) + body, [0xa0, n] + body, [0xb0] + be(n, 4) + body, [0x40], [0x45], [0, 0x53, 0x75, 0xa0, n] + body,
                          be(n + 8, 4) + [2, 0, 0, 0] + body, [0, 0x53, 0x14, 0xc0, 3, 1, 0x52, 7] + body, list(b"AMQP\0\1\0\0") + body, [0] * n, [255] * n, [0, 0x53, 0x77, 0x40]])

    def binary(self):
        if self.chance(0.08):
            return ["binary", self.telling()]
        n = self.length()
        b = [self.r.randrange(256) for _ in range(min(n, 32))]
        return ["binary", (b * (n // 32 + 1))[:n] if n > 32 else b]

    def count(self, depth):
        if depth == 0 and self.chance(self.big):
            return self.pick([126, 127, 128, 254, 255, 256, 257])
        return self.pick([0, 1, 1, 2, 2, 3, 4]) if depth < 3 else self.pick([0, 1, 1, 2])

    def small(self):
        return self.pick([NULL, ["bool", [1]], ["uint", be(0, 4)], ["uint", be(7, 4)], ["ubyte", [9]], ["int", be(-3, 4)]])

    def pad(self, kids, over):
        """Fill a compound so that its 8-bit size is on the edge."""
        return kids

    def key(self, v):
        if v[0] in ("float", "double"):
            nan = struct.unpack(">f" if v[0] == "float" else ">d", bytes(v[1]))[0]
            if nan != nan:
                return (v[0], "nan")
            if nan == 0:
                return (v[0], "zero")
        if v[0] in ("ssymbol", "symbol"):
            return json.dumps(["symbol", v[1]])
        return json.dumps(v)

    def pairs(self, K, V, n, depth):
        seen, out = set(), []
        for _ in range(n):
            k = self.value(K, depth + 1)
            if n > 40 and K[0] != "uint" and K[0] != "ulong":
                k = [["string", "symbol"][K[0] == "symbol"], list(b"%d" % len(out))]
            elif n > 40:
                k = [K[0], be(len(out), WIDTH[K[0]])]
            if not self.mapkey(k):
                continue
            kk = self.key(k)
            if kk in seen:
                continue
            seen.add(kk)
            out.append([k, self.small() if n > 40 and V[0] == "variant" else self.value(V, depth + 1)])
        return out

    def mapkey(self, k):
        # keys that contain floats or maps make the comparison of keys subtle; leaves are enough
        return k[0] not in ("map", "list", "desc") or not any(x in json.dumps(k) for x in ('"float"', '"double"', '"ssymbol"'))

    def variant(self, depth):
        if depth >= 4 or self.chance(0.62):
            k = self.pick(SCALARS + ["null", "binary", "string", "symbol", "ssymbol"] + ["binary", "string"])
            if k == "null":
                return NULL
            if k == "binary":
                return self.binary()
            if k == "string":
                return ["string", list(self.text())]
            if k == "symbol":
                return ["symbol", list(self.text(True))]
            if k == "ssymbol":
                return ["ssymbol" if self.ssym else "symbol", list(self.text(True))]
            return self.scalar(k)
        k = self.pick(["list", "list", "map", "desc"])
        if k == "list":
            return self.value(["list"], depth)
        if k == "map":
            return ["map", self.pairs(["variant"], ["variant"], self.count(depth), depth)]
        d = ["ulong", self.integer(8, False)] if self.chance(0.6) else ["symbol", list(self.text(True))]
        return ["desc", [d, self.variant(depth + 1)]]

    def edge(self, used):
        """A binary that brings a compound body of `used` bytes to about 254."""
        room = self.pick([246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256]) - used
        if 2 <= room <= 257:
            return ["binary", [self.r.randrange(256)] * (room - 2)]
        return None

    def fill(self, items):
        if self.chance(self.big):
            used = len(b"".join(self.encode(["variant"], v, "compact").bytes() for v in items))
            p = self.edge(used)
            if p:
                items.append(p)
        return items

    def value(self, T, depth=0):
        t = T[0]
        if t in WIDTH:
            return self.scalar(t)
        if t == "binary":
            return self.binary()
        if t == "string":
            return ["string", list(self.text())]
        if t == "symbol":
            return ["symbol", list(self.text(True))]
        if t == "variant":
            return self.variant(depth)
        if t == "opt":
            return NULL if self.chance(0.3) else self.value(T[1], depth)
        if t == "list":
            n = self.count(depth)
            items = [self.small() for _ in range(n)] if n > 40 else [self.variant(depth + 1) for _ in range(n)]
            return ["list", self.fill(items)]
        if t == "map":
            ps = self.pairs(T[1], T[2], self.count(depth), depth)
            if T[2][0] in ("variant", "binary") and self.chance(self.big) and len(ps) < 40:
                used = sum(len(self.encode(T[1], k, "compact").bytes()) + len(self.encode(T[2], v, "compact").bytes())
                           for k, v in ps)
                k = self.value(T[1], 3)
                if self.mapkey(k) and self.key(k) not in [self.key(p[0]) for p in ps]:
                    p = self.edge(used + len(self.encode(T[1], k, "compact").bytes()))
                    if p:
                        ps.append([k, p])
            return ["map", ps]
        if t == "vecmap":
            return ["vecmap", self.pairs(["string"], ["variant"], self.count(depth), depth)]
        if t == "array":
            n = self.count(depth)
            if self.chance(self.big):
                n = self.pick([30, 31, 32, 61, 62, 63, 64, 124, 125, 126, 127, 249, 250, 251, 252, 253, 254, 255, 256])
            vs = [self.value(T[1], depth + 1) for _ in range(min(n, 12))]
            return ["array", (vs * (n // 12 + 1))[:n] if n > 12 else vs]
        if t == "multiple":
            n = self.pick([0, 1, 1, 2, 3, 4])
            vs = [self.value(T[1], depth + 1) for _ in range(n)]
            if self.chance(self.big) and len(vs) > 1:
                room = self.pick([248, 249, 250, 251, 252, 253, 254, 255, 256]) - sum(4 + len(v[1]) for v in vs)
                if room >= 4:
                    vs.append(["symbol", [self.r.randrange(97, 123)] * (room - 4)])
            return ["multiple", vs]
        if t == "messageid":
            k = self.pick(["ulong", "uuid", "binary", "string"])
            return self.value([k], depth)
        if t == "cond":
            if self.chance(0.7):
                return ["cond", list(self.pick(sorted(self.conds)))]
            return ["custom-cond", list(self.pick([b"", b"amqp:", b"amqp:not-foun", b"amqp:not-found ", b"Amqp:not-found",
                                                   b"amqp:link:redirect", b"x", self.text(True)]))]
        if t == "distmode":
            if self.chance(0.6):
                return ["distmode", [self.pick(sorted(self.modes))]]
            return ["custom-distmode", list(self.pick([b"", b"mov", b"moves", b"Copy", b"copy", self.text(True)]))]
        if t == "choice":
            return ["choice", [T[1], self.pick(sorted(self.choice[T[1]]))]]
        if t == "comp":
            return self.comp(T[1], depth)
        if t == "union":
            n = self.pick(self.s["unions"][T[1]])
            return self.member(n, depth)
        if t == "performative":
            if self.chance(0.08):
                return ["Empty", []]
            return self.member(self.pick(self.s["unions"]["Performative"]), depth)
        if t == "transfer":
            return self.member("Transfer", depth)
        if t == "amqpframe":
            return ["frame", [["ushort", self.integer(2, False)], self.value(["performative"], depth)]]
        if t == "saslframe":
            return ["saslframe", [self.value(["union", "SaslFrameBody"], depth)]]
        if t == "descriptor":
            return ["ulong", self.integer(8, False)] if self.chance(0.6) else ["symbol", list(self.text(True))]
        raise KeyError(T)

    def member(self, n, depth):
        if n == "Transfer":
            v = self.comp(n, depth)
            return [n, v[1] + [NULL if self.chance(0.3) else self.binary()]]
        if n in self.s["composites"]:
            return self.comp(n, depth)
        return [n, [self.value(self.s["sections"][n]["type"], depth + 1)]]

    def comp(self, name, depth=0):
        style = self.pick(["few", "few", "half", "all", "defaults"])
        p = {"few": 0.15, "half": 0.5, "all": 1.0, "defaults": 0.0}[style]
        fs = self.fields[name]
        last = self.r.randrange(len(fs) + 1) if fs and self.chance(0.3) else len(fs)
        out = []
        for i, f in enumerate(fs):
            if f[2] == "req":
                out.append(self.value(f[1], depth + 1))
            elif i < last and self.chance(p):
                out.append(self.value(f[1], depth + 1))
            else:
                out.append(f[3] if f[2] == "def" else NULL)
        if self.chance(self.big) and depth < 2:
            # bring the field list to the edge of the 8-bit form
            for i, f in enumerate(fs):
                if f[1][0] in ("binary", "string", "symbol"):
                    rest = out[:i] + out[i + 1:]
                    used = sum(len(self.encode(g[1], v, "compact").bytes()) if v != NULL else 1
                               for g, v in zip(fs[:i] + fs[i + 1:], rest))
                    room = self.pick([246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256]) - used - 2
                    if 0 <= room <= 255:
                        out[i] = [f[1][0], [self.r.randrange(97, 123)] * room]
                    break
        return [name, out]

    def message(self):
        """Sections of a message in order."""
        out = []
        sec = lambda n: [n, [self.value(self.s["sections"][n]["type"], 1)]]
        for n in ("Header", "DeliveryAnnotations", "MessageAnnotations", "Properties", "ApplicationProperties"):
            if self.chance(0.4):
                out.append(self.comp(n, 1) if n in self.s["composites"] else sec(n))
        for n in ("Data", "AmqpSequence", "AmqpValue"):
            if self.chance(0.45):
                for _ in range(1 if n == "AmqpValue" else self.pick([1, 1, 2, 3])):
                    out.append(sec(n))
        if self.chance(0.3):
            out.append(sec("Footer"))
        if not out:
            out.append(sec("Data"))
        return out

    # ---------------------------------------------------------------- encodings
    def fits(self, code, w, c, b):
        if code == 65:
            return b == [1]
        if code == 66:
            return b == [0]
        if w == c:
            return True
        if w == 0:
            return not any(b)
        return True

    def leaf(self, T, v, style, ctor=None):
        k, b = v
        if k == "ssymbol":
            k = "symbol"
        if k == "null":
            return N("leaf", T, 0x40, b"")
        if k in ("binary", "string", "symbol"):
            c8 = {"binary": 0xa0, "string": 0xa1, "symbol": 0xa3}[k]
            wide = len(b) > 255 or style == "wide" or (style == "any" and self.chance(0.35))
            if ctor is not None:
                wide = ctor == c8 + 16
            if wide:
                return N("leaf", T, c8 + 16, struct.pack(">I", len(b)) + bytes(b))
            return N("leaf", T, c8, bytes([len(b)]) + bytes(b))
        forms = []
        for code, w, c in self.fixed[k]:
            if code in (65, 66):
                if b == [1 if code == 65 else 0]:
                    forms.append((code, b""))
            elif w == c:
                forms.append((code, bytes(b)))
            elif w == 0:
                if not any(b):
                    forms.append((code, b""))
            else:
                fill = (255 if b[-1] >= 128 else 0) if k in ("int", "long") else 0
                if all(x == fill for x in b[:-1]):
                    forms.append((code, bytes(b[-1:])))
        forms.sort(key=lambda f: (len(f[1]), f[0]))
        if ctor is not None:
            f = [f for f in forms if f[0] == ctor][0]
        elif style == "compact":
            f = forms[0]
        elif style == "wide":
            f = forms[-1]
        else:
            f = self.pick(forms)
        return N("leaf", T, f[0], f[1])

    def width(self, style):
        return {"compact": 1, "wide": 4}.get(style) or self.pick([1, 1, 4])

    def descriptor(self, n, style):
        d = self.s["composites"].get(n) or self.s["sections"][n]
        if style == "any" and self.chance(0.25):
            node = self.leaf(["descriptor"], ["symbol", d["sym"]], "any")
        else:
            node = self.leaf(["descriptor"], ["ulong", be(d["code"], 8)], style)
        return node

    def encode(self, T, v, style="any"):
        k = v[0]
        if T[0] == "opt":
            if v == NULL:
                return N("leaf", T, 0x40)
            n = self.encode(T[1], v, style)
            n.T = T
            return n
        if k == "choice":
            base = self.choice_base[v[1][0]]
            return self.leaf(T, [base, list(self.choice[v[1][0]][v[1][1]])], style)
        if k == "cond":
            return self.leaf(T, ["symbol", list(self.conds[tuple(v[1])])], style)
        if k == "distmode":
            return self.leaf(T, ["symbol", list(self.modes[v[1][0]])], style)
        if k in ("custom-cond", "custom-distmode"):
            return self.leaf(T, ["symbol", v[1]], style)
        if k == "list":
            kids = [self.encode(["variant"], x, style) for x in v[1]]
            w = self.width(style)
            if not kids and (style == "compact" or (style == "any" and self.chance(0.5))):
                w = 0
            return N("list", T, kids=kids, want=w)
        if k in ("map", "vecmap"):
            K, V = (T[1], T[2]) if T[0] == "map" else (["variant"], ["variant"])
            if T[0] == "vecmap":
                K = ["string"]
            kids = []
            for a, b in v[1]:
                kids += [self.encode(K, a, style), self.encode(V, b, style)]
            return N("map", T, kids=kids, want=self.width(style))
        if k in ("array", "multiple"):
            if k == "multiple" and len(v[1]) == 1 and (style == "compact" or (style == "any" and self.chance(0.5))):
                return self.encode(T[1], v[1][0], style)
            kids = [self.encode(T[1], x, "wide" if T[1][0] != "bool" else "any") for x in v[1]]
            want = self.width(style)
            if kids and kids[0].kind == "leaf":
                # one constructor for all: any that fits them all
                forms = [set(self.forms(x)) for x in v[1]]
                ok = sorted(set.intersection(*forms))
                c = self.pick(ok) if style == "any" else ok[-1]
                kids = [self.leaf(T[1], x, "any", c) for x in v[1]]
            n = N("array", T, kids=kids, want=want)
            if not kids:
                n.ctor = self.ctor_of(T[1][0])
            return n
        if k == "desc":
            return N("desc", T, 0, kids=[self.leaf(["descriptor"], v[1][0], style), self.encode(["variant"], v[1][1], style)])
        if k == "Empty":
            return N("raw", T)
        if k == "frame":
            body = self.encode(["performative"], v[1][1], style)
            ext = self.pick([0, 0, 0, 1, 2]) if style == "any" else 0
            head = bytes([2 + ext, 0] + v[1][0][1]) + bytes(self.r.randrange(256) for _ in range(4 * ext))
            return N("raw", T, body=head, kids=[body])
        if k == "saslframe":
            body = self.encode(["union", "SaslFrameBody"], v[1][0], style)
            ext = self.pick([0, 0, 0, 1]) if style == "any" else 0
            ch = [self.r.randrange(256) for _ in range(2)] if style == "any" else [0, 0]
            head = bytes([2 + ext, 1] + ch) + bytes(self.r.randrange(256) for _ in range(4 * ext))
            return N("raw", T, body=head, kids=[body])
        if k in self.s["composites"]:
            return self.enc_comp(T, v, style)
        if k in self.s["sections"]:
            return N("desc", T, 0, kids=[self.descriptor(k, style), self.encode(self.s["sections"][k]["type"], v[1][0], style)])
        return self.leaf(T, v, style)

    def ctor_of(self, k):
        return {"binary": 0xb0, "string": 0xb1, "symbol": 0xb3, "map": 0xd1, "list": 0xd0}.get(k) or \
            [c for c, w, cc in self.fixed[k] if w == cc][0]

    def forms(self, v):
        k, b = v
        if k in ("binary", "string", "symbol"):
            c8 = {"binary": 0xa0, "string": 0xa1, "symbol": 0xa3}[k]
            return [c8 + 16] + ([c8] if len(b) <= 255 else [])
        out = []
        for code, w, c in self.fixed[k]:
            fill = (255 if b[-1] >= 128 else 0) if k in ("int", "long") else 0
            if code in (65, 66):
                if b == [1 if code == 65 else 0]:
                    out.append(code)
            elif w == c or (w == 0 and not any(b)) or (w == 1 and c > 1 and all(x == fill for x in b[:-1])):
                out.append(code)
        return out

    def enc_comp(self, T, v, style):
        name, vals = v
        fs = self.fields[name]
        payload = None
        if name == "Transfer" and len(vals) == len(fs) + 1:
            payload, vals = vals[-1], vals[:-1]
        n = len(fs)
        while n and style != "wide" and (style == "compact" or self.chance(0.7)) \
                and ((fs[n - 1][2] == "opt" and vals[n - 1] == NULL) or (fs[n - 1][2] == "def" and vals[n - 1] == fs[n - 1][3])):
            n -= 1
        kids = []
        for f, x in list(zip(fs, vals))[:n]:
            if f[2] == "opt" and x == NULL:
                kid = N("leaf", ["opt", f[1]], 0x40)
            elif f[2] == "def" and x == f[3] and style == "any" and self.chance(0.5):
                kid = N("leaf", ["opt", f[1]], 0x40)
            else:
                kid = self.encode(f[1], x, style)
                if f[2] != "req":
                    kid.T = ["opt", f[1]]
            kid.mand = f[2] == "req"
            kids.append(kid)
        w = self.width(style)
        if not kids and (style == "compact" or self.chance(0.5)):
            w = 0
        lst = N("list", ["fields", name], kids=kids, want=w)
        node = N("desc", T, 0, kids=[self.descriptor(name, style), lst])
        if payload is not None and payload != NULL:
            node = N("raw", T, kids=[node, N("raw", None, body=bytes(payload[1]))])
        return node

    def enc_message(self, secs, style="any"):
        return N("raw", ["message"], kids=[self.encode(["union", "Section"], x, style) for x in secs])

    def legal(self, T, style="any"):
        """value and tree of a legal encoding"""
        if T[0] == "message":
            v = self.message()
            return v, self.enc_message(v, style)
        v = self.value(T)
        return v, self.encode(T, v, style)

    # ---------------------------------------------------------------- faults
    def admits(self, T):
        """Kinds of constructor a type admits."""
        t = T[0]
        if t == "opt":
            return self.admits(T[1]) | {"null"}
        if t in ("multiple",):
            return self.admits(T[1]) | {"array"}
        if t == "messageid":
            return {"ulong", "uuid", "binary", "string"}
        if t in ("cond", "distmode"):
            return {"symbol"}
        if t == "choice":
            return {self.choice_base[T[1]]}
        if t in ("comp", "union", "performative", "transfer"):
            return {"desc"}
        if t == "fields":
            return {"list"}
        if t == "vecmap":
            return {"map"}
        if t == "descriptor":
            return {"ulong", "symbol"}
        if t == "variant":
            return {"*"}
        return {t}

    def foreign(self, T):
        """A complete value of a kind that T does not admit."""
        ok = self.admits(T)
        if "*" in ok:
            return self.pick([bytes([c]) for c in (1, 0x3f, 0x46, 0x57, 0x74, 0x84, 0x94, 0x99, 0xa2, 0xb2, 0xc2, 0xe1, 0xff)]
                             + [b"\xe0\x02\x00\x40", b"\xf0\0\0\0\5\0\0\0\0\x43"])
        while True:
            k = self.pick(SCALARS + ["null", "binary", "string", "symbol", "list", "map", "array", "desc", "none"])
            if k in ok:
                continue
            if k == "none":
                return self.pick([bytes([c]) for c in (1, 0x3f, 0x46, 0x57, 0x74, 0x99, 0xa2, 0xb2, 0xc2, 0xff)])
            if k == "null":
                return b"\x40"
            if k == "array":
                return self.encode(["array", ["uint"]], ["array", [["uint", be(5, 4)]]], "any").bytes()
            if k == "desc":
                return b"\0\x53\x24\x45"
            if k in ("list", "map"):
                return self.pick([b"\x45", b"\xc0\x01\0"]) if k == "list" else self.pick([b"\xc1\1\0", b"\xd1\0\0\0\4\0\0\0\0"])
            return self.encode([k], self.value([k], 3), "any").bytes()

    BADTEXT = [b"\x80", b"\xc0\x80", b"\xc1\xbf", b"\xe0\x9f\xbf", b"\xed\xa0\x80", b"\xf0\x8f\xbf\xbf", b"\xf4\x90\x80\x80",
               b"\xf5\x80\x80\x80", b"\xff", b"ab\xc3", b"\xe2\x82", b"\xf0\x9f\x92", b"a\xe2\x28\xa1"]

    def fault(self, node):
        """One fault of meaning in a legal encoding, lengths kept right. None if there is no place for it."""
        t = copy.deepcopy(node)
        kind = self.pick(["kind", "kind", "option", "text", "char", "descriptor", "short", "null", "desckind"])
        ns = [n for n in t.nodes() if n.kind != "raw" and n.T]
        def inarray(n):
            return any(n in a.kids for a in t.nodes() if a.kind == "array")
        if kind == "kind":
            cs = [n for n in ns if n.T[0] != "descriptor" and not inarray(n)]
            if not cs:
                return None
            n = self.pick(cs)
            b = self.foreign(n.T)
            self.become(n, b)
        elif kind == "option":
            cs = [n for n in ns if self.strip(n.T)[0] == "choice" and n.kind == "leaf" and n.ctor != 0x40]
            if not cs:
                return None
            n = self.pick(cs)
            name = self.strip(n.T)[1]
            base = self.choice_base[name]
            if base == "bool":
                return None
            while True:
                if base == "symbol":
                    v = ["symbol", list(self.pick([b"", b"nevr", b"never ", b"Session-End", b"link-detached"]))]
                else:
                    v = [base, self.integer(WIDTH[base], False)]
                if bytes(v[1]) not in self.choice[name].values():
                    break
            self.become(n, self.leaf(n.T, v, "any").bytes())
        elif kind == "text":
            cs = [n for n in ns if n.kind == "leaf" and n.ctor in (0xa1, 0xb1, 0xa3, 0xb3)]
            if not cs:
                return None
            n = self.pick(cs)
            b = self.pick([b"", b"x", b"some"]) + self.pick(self.BADTEXT) + self.pick([b"", b"y"])
            n.body = (bytes([len(b)]) if n.ctor < 0xb0 else struct.pack(">I", len(b))) + b
        elif kind == "char":
            cs = [n for n in ns if n.kind == "leaf" and n.ctor == 0x73]
            if not cs:
                return None
            self.pick(cs).body = struct.pack(">I", self.pick([0xd800, 0xdbff, 0xdfff, 0x110000, 0xffffffff, 0x1000041]))
        elif kind in ("descriptor", "desckind"):
            cs = [n for n in t.nodes() if n.kind == "desc" and n.T and n.T[0] != "variant"]
            if not cs:
                return None
            n = self.pick(cs)
            if kind == "descriptor":
                b = self.pick([b"\x44", b"\x53\0", b"\x53\x0f", b"\x53\x19", b"\x53\x80", b"\xa3\0", b"\xa3\x0eamqp:open:list2",
                               b"\x80\0\0\0\1\0\0\0\x24", b"\xa3\x10amqp:Open:list!!", b"\x80\1\0\0\0\0\0\0\x10", b"\x80\0\0\0\0\0\0\1\x75"])
            else:
                b = self.pick([b"\x52\x24", b"\x40", b"\xa1\x0famqp:close:list", b"\x45", b"\0\x53\x24\x45", b"\x55\x10", b"\x99"])
            self.become(n.kids[0], b)
        elif kind == "short":
            cs = [n for n in t.nodes() if n.kind == "list" and n.T[0] == "fields" and any(k.mand for k in n.kids)]
            if not cs:
                return None
            n = self.pick(cs)
            last = max(i for i, k in enumerate(n.kids) if k.mand)
            n.kids = n.kids[:self.r.randrange(last + 1)]
        elif kind == "null":
            cs = [n for n in t.nodes() if n.mand]
            if not cs:
                return None
            self.become(self.pick(cs), b"\x40")
        return t

    def strip(self, T):
        return T[1] if T[0] == "opt" else T

    def become(self, n, b):
        n.kind, n.ctor, n.body, n.kids = "leaf", b[0], b[1:], []

    def misfit(self, node):
        """A declared size or count that is not the real one."""
        t = copy.deepcopy(node)
        cs = [n for n in t.nodes() if n.kind in ("list", "map", "array")]
        if not cs:
            return None
        n = self.pick(cs)
        n.want = max(n.want, 1)
        d = self.pick([-1, 1, -2, 2, 3, -3, 5, 100, 250, -1000000])
        if self.chance(0.5):
            n.dsize = d
        else:
            n.dcount = self.pick([1, 1, 2, -1, 3, 200, 255, 1 << 31])
        if self.chance(0.25):
            n.dsize, n.dcount = self.pick([1, 2, 3, 4]), self.pick([1, 2])
        return t

    def mangle(self, b):
        b = bytearray(b)
        for _ in range(self.pick([1, 1, 1, 2, 3])):
            x = self.r.random()
            if not b:
                b += bytes([self.pick(self.codes)])
            p = self.r.randrange(len(b))
            if x < 0.35:
                b[p] = self.pick(self.codes + [0, 1, 255, 127, 128])
            elif x < 0.6:
                b[p] = (b[p] + self.pick([1, -1, 2, 16, -16])) % 256
            elif x < 0.75:
                b[p] = self.r.randrange(256)
            elif x < 0.85:
                del b[p]
            else:
                b.insert(p, self.pick(self.codes + [0, 255]))
        return bytes(b)

    def noise(self):
        out = b""
        for _ in range(self.r.randrange(1, 8)):
            out += bytes([self.pick(self.codes)]) + bytes(self.pick([0, 1, 2, 5, 255, self.r.randrange(256)])
                                                          for _ in range(self.pick([0, 0, 1, 2, 4, 8])))
        return out
