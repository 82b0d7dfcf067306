"""Random stimuli, by family. Each family is a function (gen, n) -> list of commands without "i"."""
import json
import struct
from gen import *


def dec(T, b, **kw):
    c = {"op": "dec", "ty": T, "in": list(b)}
    c.update(kw)
    return c


def rep(g, T):
    if T == ["string"] and g.chance(0.5):
        return {"rep": "str"}
    return {}


TRAILING = {"message", "performative", "transfer", "amqpframe", "saslframe"}


def with_tail(g, T, b):
    if T[0] in TRAILING or g.chance(0.5):
        return b
    return b + bytes(g.pick([[0], [0x40], [0xff], [0x45, 0], [0x53, 0x10], [1, 2, 3, 4, 5]]))


def decodes_legal(types):
    def f(g, n):
        out = []
        for k in range(n):
            T = types[k % len(types)]
            v, t = g.legal(T, g.pick(["any", "any", "any", "compact", "wide"]))
            out.append(dec(T, with_tail(g, T, t.bytes()), want="ok", **rep(g, T)))
        return out
    return f


def decodes_cut(types):
    def f(g, n):
        out = []
        while len(out) < n:
            for T in types:
                v, t = g.legal(T, g.pick(["any", "any", "compact", "wide"]))
                b = t.bytes()
                if T[0] in ("amqpframe", "performative", "transfer"):
                    p = v[1][1] if T[0] == "amqpframe" else v
                    if p[0] == "Transfer" and p[1][-1] != NULL or (T[0] == "performative" and p[0] == "Empty"):
                        continue
                if not b:
                    continue
                cuts = range(len(b)) if len(b) <= 12 else \
                    sorted({0, 1, 2, len(b) - 1, len(b) - 2} | {g.r.randrange(len(b)) for _ in range(4)})
                for c in cuts:
                    out.append(dec(T, b[:c], **rep(g, T)))
        return out[:n]
    return f


def decodes_fault(types):
    def f(g, n):
        out, miss = [], 0
        while len(out) < n and miss < 20 * n:
            T = types[len(out) % len(types)] if miss % 3 == 0 else g.pick(types)
            v, t = g.legal(T, g.pick(["any", "any", "compact"]))
            t2 = g.fault(t)
            if t2 is None:
                miss += 1
                continue
            out.append(dec(T, with_tail(g, T, t2.bytes()), single=True, **rep(g, T)))
        return out
    return f


BROKEN = [[0xff], [0x80], [0xc3], [0xe2, 0x82], [0xf0, 0x9f, 0x98], [0xed, 0xa0, 0x80], [0xc0, 0x80], [0xf5, 0x80, 0x80, 0x80], [0xfe, 0xff]]


def decodes_broken_texts(g, n):
    """Long texts that are text but for a few bytes at some place."""
    out = []
    for k in range(n):
        m = g.pick([100, 255, 256, 300, 600, 1000, 1023, 1024, 1025, 1100, 2048, 3000, 4096, 4100, 9000] + ([33000, 70000] if g.chance(0.2) else []))
        fill = g.pick([b"a", b"a", b"ab c", "é".encode(), "€".encode(), "😀".encode()])
        b = bytearray((fill * (m // len(fill) + 1))[: m // len(fill) * len(fill)])
        broken = bytes(g.pick(BROKEN))
        at = g.pick([0, len(b), len(b), g.r.randrange(len(b) + 1), max(0, len(b) - 1), len(b) // 2])
        b[at:at] = broken
        b = bytes(b)
        sym = fill < b"\x80" and g.chance(0.4)
        text = bytes([0xb3 if sym else 0xb1]) + struct.pack(">I", len(b)) + b
        hosts = [(["symbol"] if sym else ["string"], text), (["variant"], text), (["list"], b"\xd0" + lens(1, text)),
                 (["variant"], b"\xd1" + lens(2, text + b"\x40"))]
        if sym:
            hosts += [(["cond"], text), (["distmode"], text), (["descriptor"], text), (["map", ["symbol"], ["variant"]], b"\xd1" + lens(2, text + b"\x40")),
                      (["multiple", ["symbol"]], text), (["multiple", ["symbol"]], b"\xf0" + lens(1, b"\xb3" + text[1:]))]
        else:
            hosts += [(["messageid"], text), (["vecmap"], b"\xd1" + lens(2, text + b"\x40")), (["map", ["string"], ["variant"]], b"\xd1" + lens(2, text + b"\x40")),
                      (["comp", "Properties"], b"\0\x53\x73\xd0" + lens(3, b"\x40\x40" + text)),
                      (["amqpframe"], b"\2\0\0\0\0\x53\x10\xd0" + lens(1, text)),
                      (["message", g.pick(["in", "out"])], b"\0\x53\x77" + text)]
        T, w = g.pick(hosts)
        out.append(dec(T, w, single=True))
    return out


def decodes_misfit(types):
    def f(g, n):
        out, miss = [], 0
        while len(out) < n and miss < 20 * n:
            T = g.pick(types)
            v, t = g.legal(T, g.pick(["any", "any", "compact"]))
            t2 = g.misfit(t)
            if t2 is None:
                miss += 1
                continue
            b = t2.bytes()
            if T[0] not in TRAILING and g.chance(0.7):
                b += bytes(g.pick([[0x40, 0x40, 0x40], [0x53, 1, 0x53, 2], [0xa1, 1, 65, 0x41], [0x43] * 12]))
            out.append(dec(T, b))
        return out
    return f


def decodes_mangled(types):
    def f(g, n):
        out = []
        for k in range(n):
            T = types[k % len(types)]
            x = g.r.random()
            if x < 0.8:
                v, t = g.legal(T, g.pick(["any", "any", "compact"]))
                b = g.mangle(t.bytes())
            elif x < 0.9:
                b = g.noise()
            else:
                b = bytes(g.r.randrange(256) for _ in range(g.r.randrange(0, 24)))
            out.append(dec(T, b, **rep(g, T)))
        return out
    return f


def decodes_hostile(g, n):
    """Counts, sizes and nesting far beyond what the input can hold."""
    out = []
    big = [0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffb, 0x01000000, 0x00ffffff, 5, 4, 3, 0]
    for T in [["variant"], ["list"], ["map", ["symbol"], ["variant"]], ["map", ["variant"], ["variant"]], ["vecmap"],
              ["map", ["uint"], ["string"]], ["multiple", ["symbol"]]] + ARRAYS:
        codes = {"list": [0xc0, 0xd0], "map": [0xc1, 0xd1], "vecmap": [0xc1, 0xd1], "multiple": [0xe0, 0xf0],
                 "array": [0xe0, 0xf0], "variant": [0xc0, 0xd0, 0xc1, 0xd1]}[T[0]]
        for c in codes:
            for size in big:
                for count in (g.pick(big), 0xffffffff):
                    body = b"" if g.chance(0.3) else bytes(g.pick([[0x40], [0x43], [0x50, 1], [0xa3, 1, 65, 0x40], [0xb3, 0, 0, 0, 1, 65], [0x41], [0x44], [0x45]]))
                    if c >= 0xf0 or 0xd0 <= c < 0xe0:
                        h = struct.pack(">II", size, count)
                    else:
                        h = bytes([size % 256, count % 256])
                    real = struct.pack(">II", len(body) + 4, count) if len(h) == 8 else bytes([len(body) + 1, count % 256])
                    out.append(dec(T, bytes([c]) + h + body))
                    out.append(dec(T, bytes([c]) + real + body))
    for d in (10, 60, 63, 64, 65, 66, 100, 127, 128, 129, 200, 500, 2000):
        for T in (["variant"], ["list"], ["map", ["variant"], ["variant"]]):
            out.append(dec(T, nest(d, "list32")))
            if d <= 80:
                out.append(dec(T, nest(d, "list8")))
                out.append(dec(T, nest(d, "map8")))
            out.append(dec(T, nest(d, "map32")))
            out.append(dec(T, nest(d, "mapkey")))
        out.append(dec(["variant"], b"\0\x53\x01" * d + b"\x40"))
        out.append(dec(["union", "Section"], b"\0\x53\x77" + nest(d, "list32")))
        out.append(dec(["message", "in"], b"\0\x53\x77" + b"\0\x44" * d + b"\x45"))
        out.append(dec(["amqpframe"], b"\2\0\0\0\0\x53\x18\xd0" + lens(1, b"\0\x53\x1d\xd0" + lens(3, b"\xa3\0\x40\xd1" + lens(2, b"\xa3\0" + nest(d, "list32"))))))
    for d in (20000, 100000):
        out.append(dec(["variant"], b"\0\x53\x01" * d + b"\x40"))
        out.append(dec(["message", "out"], b"\0\x53\x77" + b"\0\x53\x01" * d + b"\x40"))
        out.append(dec(["variant"], nest(d // 10, "list32")))
    for m in (1000, 30000):
        out.append(dec(["variant"], b"\xd0" + lens(m, b"\x40" * m)))
        out.append(dec(["list"], b"\xd0" + lens(m, b"\x45" * m)))
        out.append(dec(["variant"], b"\xd1" + lens(2 * (m // 3), b"".join(b"\x60" + struct.pack(">H", k % 65536) + b"\x40" for k in range(m // 3)))))
        for c in (0x40, 0x41, 0x43, 0x44, 0x45):
            out.append(dec(["array", ["uint"]], b"\xf0" + struct.pack(">II", 5, m * 100) + bytes([c])))
            out.append(dec(["array", ["bool"]], b"\xf0" + struct.pack(">II", 5, m * 100) + bytes([c])))
            out.append(dec(["array", ["ulong"]], b"\xf0" + struct.pack(">II", 5, 0xffffffff) + bytes([c])))
    g.r.shuffle(out)
    return out[:n] if n < len(out) else out


def lens(n, b):
    return struct.pack(">II", len(b) + 4, n) + b


def nest(d, kind):
    b = b"\x40"
    if kind == "list8":
        for _ in range(d):
            b = (b"\xc0" + bytes([len(b) + 1, 1]) + b) if len(b) < 250 else b"\xd0" + lens(1, b)
        return b
    if kind == "map8":
        for _ in range(d):
            b = (b"\xc1" + bytes([len(b) + 2, 2]) + b"\x43" + b) if len(b) < 250 else b"\xd1" + lens(2, b"\x43" + b)
        return b
    # built from the inside: constant-time per level
    n = 1
    heads = []
    for _ in range(d):
        if kind == "list32":
            h, t = b"\xd0" + struct.pack(">II", n + 4, 1), b""
        elif kind == "map32":
            h, t = b"\xd1" + struct.pack(">II", n + 5, 2) + b"\x43", b""
        else:
            h, t = b"\xd1" + struct.pack(">II", n + 5, 2), b"\x43"
        heads.append((h, t))
        n += len(h) + len(t)
    pre = b"".join(h for h, _ in reversed(heads))
    post = b"".join(t for _, t in heads)
    return pre + b + post


# ---------------------------------------------------------------- encoding
def enc(g, T, v, **kw):
    c = {"op": "enc", "ty": T, "val": v, "pre": [g.r.randrange(256) for _ in range(g.pick([0, 0, 1, 3, 9]))],
         "tail": g.pick([[], [], [0x40], [0], [255, 1, 2]])}
    if T[0] in TRAILING:
        c["tail"] = []
    c.update(kw)
    return c


ENC_VALUES = [["variant"]] * 6 + [["list"]] * 2 + BASIC + MAPS + ARRAYS + RESTRICTED + MULTI
ENC_COMPS = COMPTYPES + UNIONS
ENC_FRAMES = [["performative"]] + FRAMES


def encodes(types, reps=True):
    def f(g, n):
        out = []
        for k in range(n):
            T = types[k % len(types)]
            v = g.value(T)
            kw = {}
            if T == ["string"] and reps:
                kw = g.pick([{}, {"rep": "str"}, {"rep": "strslice"}])
            if T == ["symbol"] and reps and g.chance(0.4):
                kw, v = {"rep": "ssymbol"}, ["ssymbol", v[1]]
            out.append(enc(g, T, v, **kw))
        return out
    return f


def huge_values(g):
    """Values with lengths and counts about and beyond 16 bits."""
    N = lambda: g.pick([65534, 65535, 65536, 65537, 65540, 66000, 70001])
    num = lambda k: list(struct.pack(">I", k))
    x = g.r.randrange(26)
    text = lambda n: [97 + (k + x) % 26 for k in range(n)]
    out = []
    for k in ("binary", "string", "symbol"):
        out += [([k], [k, text(N())]), (["variant"], [k, text(N())])]
    out += [(["list"], ["list", [g.small()] * N()]),
            (["variant"], ["list", [NULL] * 65535 + [["bool", [1]]]]),
            (["list"], ["list", [["binary", text(N())], ["ubyte", [9]]]]),
            (["variant"], ["desc", [["ulong", be(5, 8)], ["list", [["string", text(N())], ["bool", [0]], ["symbol", text(300)]]]]]),
            (["map", ["uint"], ["string"]], ["map", [[["uint", num(k)], ["string", []]] for k in range(32768 + g.pick([0, 1, 5]))]]),
            (["map", ["symbol"], ["variant"]], ["map", [[["symbol", text(g.pick([1, 300]))], ["binary", text(N())]], [["symbol", [65]], NULL]]]),
            (["vecmap"], ["vecmap", [[["string", list(b"%d" % k)], g.small()] for k in range(32768)]]),
            (["vecmap"], ["vecmap", [[["string", text(N())], ["uint", num(7)]], [["string", [65]], NULL]]]),
            (["array", ["uint"]], ["array", [["uint", num(k)] for k in range(N())]]),
            (["array", ["ubyte"]], ["array", [["ubyte", [k % 256]] for k in range(N())]]),
            (["array", ["symbol"]], ["array", [["symbol", text(N())], ["symbol", [66]]]]),
            (["multiple", ["symbol"]], ["multiple", [["symbol", []]] * N()]),
            (["multiple", ["symbol"]], ["multiple", [["symbol", text(N())], ["symbol", [67]]]]),
            (["comp", "Error"], ["Error", [["custom-cond", text(300)], ["string", text(N())], ["map", [[["symbol", [97]], ["string", text(N())]]]]]])]
    f = g.comp("Transfer")[1]
    fields = {x[0]: i for i, x in enumerate(g.fields["Transfer"])}
    for n in (65536 - 40, N(), 3 * 65536):
        out.append((["amqpframe"], ["frame", [["ushort", [1, 2]], ["Transfer", f + [["binary", text(n)]]]]]))
    out.append((["union", "Section"], ["Data", [["binary", text(N())]]]))
    out.append((["union", "Section"], ["ApplicationProperties", [["map", [[["string", list(b"%d" % k)], ["uint", num(k)]] for k in range(33000)]]]]))
    return out


HUGE_SECTIONS = [["Data", [["binary", [7] * 66000]]], ["AmqpValue", [["string", [98] * 65537]]],
                 ["AmqpSequence", [["list", [["uint", [0, 0, 1, 0]]] * 65537]]],
                 ["Footer", [["map", [[["symbol", [97]], ["binary", [3] * 65600]]]]]],
                 ["MessageAnnotations", [["map", [[["symbol", [97]], ["binary", [3] * 65600]]]]]]]


def encodes_huge(g, n):
    out = []
    while len(out) < n:
        out += [enc(g, T, v) for T, v in huge_values(g) if T != ["union", "Section"]]
    return g.r.sample(out, n)


def encodes_huge_of(*tops):
    def f(g, n):
        out = []
        while len(out) < n:
            out += [enc(g, T, v) for T, v in huge_values(g) if T[0] in tops]
        return g.r.sample(out, n)
    return f


def decodes_huge(g, n):
    out = []
    while len(out) < n:
        out += [dec(T, with_tail(g, T, g.encode(T, v, g.pick(["any", "compact"])).bytes()), want="ok") for T, v in huge_values(g)]
        for s in HUGE_SECTIONS:
            for m in MESSAGES:
                out.append(dec(m, g.enc_message([s], "any").bytes(), want="ok"))
    return g.r.sample(out, n)


def huge_edits(g):
    n = g.pick([65500, 65531, 65536, 70000])
    big = ["binary", [g.r.randrange(256)] * n]
    text = ["string", [97 + g.r.randrange(26)] * n]
    sym = ["symbol", [97]]
    return g.pick([
        [{"do": "set_data", "val": big}], [{"do": "push_data", "val": big}, {"do": "push_data", "val": ["binary", [1, 2]]}],
        [{"do": "push_data", "val": ["binary", [4] * 40000]}, {"do": "push_data", "val": ["binary", [5] * 30000]}],
        [{"do": "push_seq", "val": ["list", [["uint", [0, 0, 0, 9]]] * n]}], [{"do": "push_seq", "val": ["list", [text, NULL]]}],
        [{"do": "set_value", "val": text}], [{"do": "body_value", "vals": [["list", [big, sym]]]}],
        [{"do": "set_app", "k": ["string", [97]], "val": text}], [{"do": "set_app", "k": text, "val": NULL}],
        [{"do": "set_prop", "f": "message_id", "val": big}], [{"do": "set_prop", "f": "subject", "val": text}],
        [{"do": "push_msg", "p": big}]])


def histories_huge(g, n):
    out = []
    for k in range(n):
        kind = ["in", "out"][k % 2]
        seq = [{"do": "new", "slot": 0, "kind": kind}] + [{"do": "edit", "slot": 0, "e": e} for e in huge_edits(g)]
        seq += [{"do": "size", "slot": 0}, {"do": "enc", "slot": 0}, {"do": "decode", "slot": 1, "kind": g.pick(["in", "out"]), "from": 0},
                {"do": "edit", "slot": 1, "e": {"do": "set_prop", "f": "group_id", "val": ["string", [103]]}},
                {"do": "size", "slot": 1}, {"do": "enc", "slot": 1}]
        out.append({"op": "msg", "keys": [[97]], "steps": seq})
    return out


def transfers_huge(g, n):
    out = []
    for k in range(n):
        p = g.comp("Transfer")[1]
        pl = ["binary", [7] * g.pick([65300, 65520, 65536, 131072, 200000])] if k % 2 else ["built", [g.pick(["in", "out"]), huge_edits(g)]]
        out.append(enc(g, ["amqpframe"], ["frame", [["ushort", [0, 1]], ["Transfer", p + [pl]]]]))
    return out


def encodes_opt(g, n):
    out = []
    for k in range(n):
        T = OPTS[k % len(OPTS)]
        out.append(enc(g, T, g.value(T)))
    return out


def encodes_each(g, n):
    """Every composite: every field alone, and pairs of neighbours."""
    out = []
    while len(out) < n:
        for name in COMPS:
            fs = g.fields[name]
            base = [g.value(f[1], 2) if f[2] == "req" else (f[3] if f[2] == "def" else NULL) for f in fs]
            for i in range(len(fs)):
                for span in (1, 2):
                    v = list(base)
                    for j in range(i, min(len(fs), i + span)):
                        v[j] = g.value(fs[j][1], 2)
                    T = ["comp", name]
                    v = [name, v]
                    if name == "Transfer":
                        T, v = ["performative"], [name, v[1] + [NULL]]
                    out.append(enc(g, T, v))
    return out[:n]


def encodes_sizes(g, n):
    """Values on both sides of every width limit."""
    out = []
    for m in list(range(244, 262)):
        out.append(enc(g, ["variant"], ["list", [["ubyte", [i % 256]] for i in range(m // 2)]]))
        out.append(enc(g, ["variant"], ["list", [["bool", [1]]] * m]))
        out.append(enc(g, ["variant"], ["list", [NULL] * (m - 2)]))
        out.append(enc(g, ["variant"], ["list", [["binary", [7] * (m - 4)]]]))
        out.append(enc(g, ["list"], ["list", [["binary", [7] * (m - 4)]]]))
        out.append(enc(g, ["array", ["ubyte"]], ["array", [["ubyte", [i % 256]] for i in range(m)]]))
        out.append(enc(g, ["array", ["byte"]], ["array", [["byte", [i % 256]] for i in range(m)]]))
        out.append(enc(g, ["array", ["bool"]], ["array", [["bool", [i % 2]] for i in range(m)]]))
        out.append(enc(g, ["array", ["symbol"]], ["array", [["symbol", [97] * (m - 6)]]]))
        out.append(enc(g, ["array", ["binary"]], ["array", [["binary", [9] * (m - 6)]]]))
        out.append(enc(g, ["multiple", ["symbol"]], ["multiple", [["symbol", [97] * 3], ["symbol", [98] * (m - 15)]]]))
        out.append(enc(g, ["multiple", ["symbol"]], ["multiple", [["symbol", [98] * (m - 6)]]]))
        out.append(enc(g, ["variant"], ["map", [[["ubyte", [1]], ["binary", [7] * (m - 6)]]]]))
        out.append(enc(g, ["map", ["symbol"], ["variant"]], ["map", [[["symbol", [97]], ["binary", [7] * (m - 6)]]]]))
        out.append(enc(g, ["map", ["string"], ["variant"]], ["map", [[["string", [97]], ["string", [65] * (m - 6)]]]]))
        out.append(enc(g, ["vecmap"], ["vecmap", [[["string", [97]], ["binary", [7] * (m - 6)]]]]))
        for k in ("binary", "string", "symbol"):
            out.append(enc(g, [k], [k, [97] * m]))
            out.append(enc(g, ["variant"], [k, [97] * m]))
        out.append(enc(g, ["string"], ["string", [97] * m], rep="str"))
        out.append(enc(g, ["string"], ["string", [97] * m], rep="strslice"))
        out.append(enc(g, ["symbol"], ["ssymbol", [97] * m], rep="ssymbol"))
        out.append(enc(g, ["variant"], ["ssymbol", [97] * m]))
        for name in COMPS:
            fs = g.fields[name]
            idx = [i for i, f in enumerate(fs) if f[1][0] in ("binary", "string", "symbol")]
            if not idx:
                continue
            i = g.pick(idx)
            v = [g.value(f[1], 3) if f[2] == "req" and j != i else (f[3] if f[2] == "def" else NULL) for j, f in enumerate(fs)]
            used = sum(len(g.encode(f[1], x, "compact").bytes()) if x != NULL else 1
                       for j, (f, x) in enumerate(zip(fs, v)) if j != i)
            room = m - used - 2
            if not 0 <= room <= 260:
                continue
            v[i] = [fs[i][1][0], [98] * room]
            if name == "Transfer":
                out.append(enc(g, ["performative"], [name, v + [["binary", [1, 2]]]]))
            else:
                out.append(enc(g, ["comp", name], [name, v]))
    for m in (65535, 65536, 65537, 70000):
        out.append(enc(g, ["binary"], ["binary", [5] * m]))
        out.append(enc(g, ["variant"], ["list", [["binary", [5] * m], ["uint", be(1, 4)]]]))
    for m in (4085, 4090, 4096, 32760, 32768, 65530):
        out.append(enc(g, ["amqpframe"], ["frame", [["ushort", [1, 2]], ["Transfer", g.comp("Transfer")[1] + [["binary", [6] * m]]]]]))
    g.r.shuffle(out)
    return out if n >= len(out) else out[:n]


def edits(g, depth=0):
    """A short history for a message built as a payload."""
    out = []
    for _ in range(g.pick([0, 1, 2, 3])):
        out.append(edit(g, depth))
    return out


PROPS = ["message_id", "user_id", "to", "subject", "reply_to", "correlation_id", "content_type", "content_encoding",
         "absolute_expiry_time", "creation_time", "group_id", "group_sequence", "reply_to_group_id"]


def payload(g, depth, slots=None):
    x = g.r.random()
    if slots and x < 0.5:
        return ["slot", [g.pick(slots)]]
    return g.binary()


def plain_variant(g):
    """A value for message histories, where equality is also asked for."""
    while True:
        v = g.variant(2)
        t = json.dumps(v)
        if "ssymbol" in t or '"float"' in t or '"double"' in t:
            continue
        return v


def _prop_edit(g, d):
    if d == "raise":
        return {"do": d, "f": "group_sequence"}
    if d == "lengthen":
        return {"do": d, "f": "subject", "val": ["string", list(g.text())]}
    e = {"do": d, "f": g.pick(PROPS)}
    T = [f[1] for f in g.fields["Properties"] if f[0] == e["f"]][0]
    e["val"] = NULL if g.chance(0.15) else g.value(T, 2)
    return e


def edit(g, depth, slots=None, keys=None):
    d = g.pick(["set_header", "set_prop", "set_prop", "set_prop", "set_app", "set_app", "set_value", "set_data",
                "push_data", "push_seq", "body_value", "push_msg", "clear_body", "format", "look", "update", "if_some",
                "raise", "lengthen", "set_props", "pop_data", "turn_data", "body"])
    e = {"do": d}
    if d == "set_header":
        e["val"] = g.comp("Header")
    elif d == "set_prop":
        e = _prop_edit(g, d)
    elif d in ("raise", "lengthen"):
        e.update(_prop_edit(g, d))
    elif d == "set_props":
        e["es"] = [_prop_edit(g, g.pick(["set_prop", "raise", "lengthen"])) for _ in range(g.pick([0, 1, 2, 3]))]
    elif d == "body":
        e["es"] = []
        for _ in range(g.pick([0, 1, 2, 3])):
            while True:
                one = edit(g, 2, slots, keys)
                if one["do"] in ("set_data", "push_data", "push_seq", "body_value", "push_msg", "clear_body", "pop_data", "turn_data"):
                    break
            e["es"].append(one)
    elif d == "set_app":
        e["k"] = ["string", list(g.pick(keys or [b"k1", b"k2", b"a", "é".encode(), b"", b"longer-key"]))]
        e["val"] = plain_variant(g)
    elif d == "set_value":
        e["val"] = plain_variant(g)
    elif d in ("set_data", "push_data"):
        e["val"] = g.binary()
    elif d == "push_seq":
        e["val"] = ["list", [plain_variant(g) for _ in range(g.pick([0, 1, 2]))]]
    elif d == "body_value":
        e["vals"] = [plain_variant(g)] if g.chance(0.6) else []
    elif d == "push_msg":
        e["p"] = payload(g, depth, slots)
    elif d == "format":
        e["vals"] = [["uint", g.integer(4, False)]] if g.chance(0.7) else []
    elif d == "update":
        e["es"] = [edit(g, depth + 1, slots, keys) for _ in range(g.pick([0, 1, 2]))] if depth < 2 else []
    elif d == "if_some":
        e["on"] = g.chance(0.5)
        e["es"] = [edit(g, depth + 1, slots, keys) for _ in range(g.pick([0, 1, 2]))] if depth < 2 else []
    return e


def transfers(g, n):
    """Frames whose payload is raw bytes or a message."""
    out = []
    for k in range(n):
        p = g.comp("Transfer")[1]
        x = k % 4
        if x == 0:
            pl = g.binary()
        elif x == 1:
            pl = NULL if g.chance(0.5) else ["binary", []]
        else:
            keys = [b"k%d" % i for i in range(50)]
            es = [edit(g, 0, None, [keys.pop()]) for _ in range(g.pick([0, 1, 2, 3, 4]))]
            pl = ["built", [g.pick(["in", "out"]), distinct_keys(es)]]
        out.append(enc(g, ["amqpframe"], ["frame", [["ushort", g.integer(2, False)], ["Transfer", p + [pl]]]]))
    return out


def distinct_keys(es, seen=None):
    seen = set() if seen is None else seen
    out = []
    for e in es:
        if e["do"] == "set_app":
            k = tuple(e["k"][1])
            if k in seen:
                continue
            seen.add(k)
        if "es" in e:
            e = dict(e, es=distinct_keys(e["es"], seen))
        out.append(e)
    return out


# ---------------------------------------------------------------- time
def times(g, n):
    out = []
    lo, hi = -62135596800000, 253402300799999
    pts = [0, 1, -1, 999, 1000, 1001, -999, -1000, -1001, -1999, -2000, lo, lo + 1, hi, hi - 1, lo - 1, hi + 1,
           (1 << 63) - 1, -(1 << 63), -(1 << 63) + 999, 8334632851200000, 8334632851199999, -8334632851200000,
           8210298412799999, 8210298412800000, 8210266876799999, 8210266876800000, -8334601228800000, -8334601228800001,
           -8334632851200001, 1 << 31, 1 << 32, -(1 << 31), (1 << 53), 9007199254740993]
    for p in pts:
        for poly in (False, True):
            out.append({"op": "time", "dir": "dec", "poly": poly, "ms": be(p, 8)})
    nanos = [0, 1, 999999, 1000000, 1000001, 999999999, 999000000, 500000000, 123456789]
    for s in (0, 1, -1, -2, 59, -59, lo // 1000, hi // 1000, 1 << 31, -(1 << 31)):
        for x in nanos:
            out.append({"op": "time", "dir": "enc", "poly": g.chance(0.5), "at": be(s, 8) + be(x, 4)})
    leap = [10**9, 10**9 + 1, 10**9 + 999999, 15 * 10**8, 2 * 10**9 - 1]        # the 61st second of a minute
    for s in (59, -1, 1483228799, -61, 78796799, 119):
        for x in leap:
            out.append({"op": "time", "dir": "enc", "poly": g.chance(0.5), "at": be(s, 8) + be(x, 4)})
    while len(out) < n:
        x = g.r.random()
        if x < 0.5:
            ms = g.pick([g.r.randrange(-10**5, 10**5), g.r.randrange(lo, hi), g.r.randrange(-(1 << 63), 1 << 63)])
            out.append({"op": "time", "dir": "dec", "poly": g.chance(0.5), "ms": be(ms, 8)})
        else:
            s = g.pick([g.r.randrange(-100, 100), g.r.randrange(lo // 1000, hi // 1000)])
            x = g.pick(nanos + [g.r.randrange(10**9)])
            if g.chance(0.1):
                s, x = s // 60 * 60 + 59, g.pick(leap + [10**9 + g.r.randrange(10**9)])
            c = {"op": "time", "dir": "enc", "poly": g.chance(0.4), "at": be(s, 8) + be(x, 4)}
            if not c["poly"] and g.chance(0.3):
                c["arr"] = True
            out.append(c)
    return out[:n] if n > len(pts) * 2 + 100 else out


# ---------------------------------------------------------------- texts
def texts(g, n):
    out = []
    reps = ["static", "dyn", "shared"]
    pool = [b"", b"a", b"b", b"ab", b"aa", b"B", "é".encode(), "\uffff".encode(), "\U00010000".encode(), b"abc", b"a\0", b"\0",
            b"a" * 31, b"a" * 32, b"a" * 33, b"x" * 300, b"x" * 299 + b"y", b"y" + b"x" * 299, b"x" * 5000, b"x" * 4999 + b"y"]
    for k in range(n):
        m = g.pick(["hash", "sym", "variant", "btree"])
        few = [g.pick(pool) for _ in range(g.pick([2, 3, 4]))]
        steps = []
        for _ in range(g.r.randrange(3, 14)):
            d = g.pick(["cmp", "ins", "ins", "get", "gets", "del", "keys"])
            t = list(g.pick(few))
            if d == "cmp":
                steps.append({"do": "cmp", "of": g.pick(["str", "sym"]), "ra": g.pick(reps), "rb": g.pick(reps),
                              "a": t, "b": list(g.pick(few + pool))})
            elif d == "ins":
                steps.append({"do": d, "rep": g.pick(reps), "t": t, "v": g.r.randrange(1000)})
            elif d in ("get", "del"):
                steps.append({"do": d, "rep": g.pick(reps), "t": t})
            elif d == "gets":
                steps.append({"do": d, "t": t})
            else:
                steps.append({"do": "keys"})
        out.append({"op": "text", "map": m, "steps": steps})
    return out


# ---------------------------------------------------------------- equality
def _dynamic(v):
    if isinstance(v, list) and len(v) == 2 and v[0] == "ssymbol":
        return ["symbol", v[1]]
    return [_dynamic(x) for x in v] if isinstance(v, list) else v


def _spots(v, path=()):
    """The places of byte contents that can be changed without leaving the type."""
    if isinstance(v, list) and len(v) == 2 and v[0] in ("uint", "ulong", "ushort", "ubyte", "int", "long", "short", "byte", "binary",
                                                        "uuid", "float", "double"):
        if v[1]:
            yield path + (1,)
    elif isinstance(v, list):
        for k, x in enumerate(v):
            yield from _spots(x, path + (k,))


KIN = {"uint": "int", "int": "uint", "ulong": "long", "long": "ulong", "ushort": "short", "short": "ushort", "ubyte": "byte", "byte": "ubyte",
       "string": "symbol", "symbol": "string"}
TYPED_MAPS = [["map", ["symbol"], ["opt", ["string"]]], ["map", ["uint"], ["string"]], ["map", ["ulong"], ["binary"]]]


def _places(v, T, path=()):
    """The places where any value may stand: items of lists, values of maps (filters apart), described values."""
    if not isinstance(v, list):
        return
    if len(v) == 2 and isinstance(v[0], str) and isinstance(v[1], list):
        if v[0] == "Source":
            return
        if v[0] == "list":
            for k in range(len(v[1])):
                yield path + (1, k)
        elif v[0] in ("map", "vecmap"):
            for k in range(len(v[1])):
                yield path + (1, k, 1)
        elif v[0] == "desc":
            yield path + (1, 1)
    for k, x in enumerate(v):
        yield from _places(x, T, path + (k,))


def _dups(v):
    """Whether a map within has two keys that might count as one."""
    if not isinstance(v, list):
        return False
    if len(v) == 2 and v[0] == "map":
        ks = [json.dumps(p[0]) for p in v[1]]
        if len(set(ks)) < len(ks) or any("float" in k or "double" in k or '"map"' in k for k in ks):
            return True
    return any(_dups(x) for x in v)


def likes(g, n):
    out = []
    types = VALUE_TYPES + COMPTYPES + [["union", "DeliveryState"], ["union", "Outcome"], ["performative"]] + FRAMES + [["variant"]] * 20
    for k in range(n):
        T = types[k % len(types)]
        a = _dynamic(g.value(T))
        b = json.loads(json.dumps(a))
        x = g.r.random()
        if x < 0.15:
            b = _dynamic(g.value(T))
        elif x < 0.35:
            places = list(_places(b, T)) if T not in TYPED_MAPS else []
            if places:
                at = g.pick(places)
                y = b
                for s in at[:-1]:
                    y = y[s]
                was = y[at[-1]]
                y[at[-1]] = (NULL if was[0] != "null" and g.chance(0.5) else
                             [KIN[was[0]], was[1]] if was[0] in KIN and g.chance(0.7) else _dynamic(g.variant(2)))
        elif x < 0.65:
            spots = list(_spots(b))
            if spots:
                at = g.pick(spots)
                y = b
                for s in at:
                    y = y[s]
                z = g.r.randrange(len(y))
                y[z] = (y[z] + g.pick([1, 32, 128, 224, 255])) % 256
        if _dups(b):
            continue
        out.append({"op": "same", "ty": T, "a": a, "b": b})
    return out


# ---------------------------------------------------------------- conversions
def makes(g, n):
    out = []
    groups = ["AmqpError", "ConnectionError", "SessionError", "LinkError"]
    frames = ["Open", "Begin", "Attach", "Flow", "Transfer", "Disposition", "Detach", "End", "Close"]

    def text():
        return ["string", list(g.text())]

    def near(b):
        b = bytes(b)
        x = g.r.randrange(5)
        if x == 0 and b:
            b = b[:-1]
        elif x == 1:
            b += g.pick([b"s", b" ", b"\0", b"-"])
        elif x == 2:
            b = b.upper()
        return ["symbol", list(b)]
    for k in range(n):
        way = ["variant", "messageid", "cond", "frame", "saslframe", "amqpframe", "payload", "response", "seq", "choice", "group", "reading", "worded"][k % 13]
        if way == "variant":
            v = g.value(["variant"]) if g.chance(0.4) else g.pick([g.scalar(g.pick(list(SCALARS))), text(), ["binary", list(g.text())]])
            if v == NULL:
                v = text()
            args = [v]
        elif way == "messageid":
            args = [g.value(["messageid"])]
        elif way == "cond":
            args = [g.value(["cond"]) if g.chance(0.5) else near(g.pick(sorted(g.conds.values())))]
            if args[0][0] == "custom-cond":
                args = [["symbol", args[0][1]]]
        elif way in ("frame", "amqpframe"):
            v = g.value(["amqpframe"])[1]
            args = v if way == "amqpframe" else [v[1]]
        elif way == "saslframe":
            args = g.value(["saslframe"])[1]
        elif way == "payload":
            args = [payload(g, 0)] if g.chance(0.5) else [["built", [g.pick(["in", "out"]), distinct_keys(edits(g))]]]
        elif way == "reading":
            args = [[g.pick(["string", "symbol"]), list(g.text())]]
        elif way == "worded":
            v = text() if g.chance(0.6) else g.value(["variant"])
            if v[0] == "ssymbol":
                v = ["symbol", v[1]]
            args = [v, ["string", list(v[1])] if v[0] in ("string", "symbol") and g.chance(0.5) else ["string", list(g.text())]]
        elif way == "response":
            args = [text(), text(), text()]
        elif way == "seq":
            args = [g.value(g.pick([["list"], ["multiple", ["symbol"]]]))]
        elif way == "choice":
            way = g.pick(sorted(set(g.choice) - set(groups)))
            base = g.choice_base[way]
            if base == "symbol":
                args = [near(g.pick(sorted(g.choice[way].values())))]
            else:
                args = [g.scalar(base)]
        else:
            way = g.pick(groups)
            args = [near(g.pick(sorted(g.conds.values())))]
        out.append({"op": "make", "way": way, "args": args})
    return out


# ---------------------------------------------------------------- messages
def histories(g, n, clean=False):
    """clean: keys distinct, so that encodings are well-formed."""
    out = []
    keys = [b"k1", b"k2", "é".encode()]
    for _ in range(n):
        steps = []
        filled = {}
        used = {}
        slots = [0, 1, 2, 3]
        for _ in range(g.r.randrange(3, 12)):
            x = g.r.random()
            free = [s for s in slots if s not in filled]
            if not filled or (x < 0.16 and free):
                s = g.pick(free)
                kind = g.pick(["in", "out"])
                y = g.r.random()
                if y < 0.6:
                    steps.append({"do": "new", "slot": s, "kind": kind})
                elif y < 0.75:
                    steps.append({"do": "with_body", "slot": s, "kind": kind, "val": g.binary()})
                elif y < 0.87:
                    steps.append({"do": "with_messages", "slot": s, "kind": kind,
                                  "ps": [payload(g, 0, sorted(filled)) for _ in range(g.pick([0, 1, 2]))]})
                else:
                    style = g.pick(["any", "compact"])
                    g.ssym = False
                    secs = g.message()
                    steps.append({"do": "decode", "slot": s, "kind": kind, "in": list(g.enc_message(secs, style).bytes())})
                    used[s] = None
                filled[s] = kind
                used.setdefault(s, set())
                continue
            s = g.pick(sorted(filled))
            if x < 0.55:
                e = edit(g, 0, sorted(filled), keys)
                if clean:
                    if used.get(s) is None and "set_app" in json.dumps(e):
                        continue
                    es = distinct_keys([e], used[s]) if used.get(s) is not None else [e]
                    if not es:
                        continue
                    e = es[0]
                steps.append({"do": "edit", "slot": s, "e": e})
            elif x < 0.66:
                steps.append({"do": "size", "slot": s})
            elif x < 0.76:
                steps.append({"do": "enc", "slot": s})
            elif x < 0.82:
                t = g.pick(slots)
                steps.append({"do": "clone", "slot": t, "from": s})
                filled[t] = filled[s]
                used[t] = set(used[s]) if used.get(s) is not None else None
            elif x < 0.9:
                steps.append({"do": "eq", "slot": s, "from": g.pick(sorted(filled))})
            elif x < 0.95:
                t = g.pick(slots)
                kind = g.pick(["in", "out"])
                steps.append({"do": "decode", "slot": t, "kind": kind, "from": s})
                filled[t] = kind
                used[t] = None
            else:
                t = g.pick(slots)
                steps.append({"do": "reply", "slot": t, "from": s})
                filled[t] = "out"
                used[t] = set()
        out.append({"op": "msg", "keys": [list(k) for k in keys + [b"zz"]], "steps": steps})
    g.ssym = True
    return out


def histories_long(g, n):
    """One message, and many steps of a sort: as many as eight, sixteen or more parts of one kind."""
    out = []
    for k in range(n):
        kind = ("in", "out")[k % 2]
        sort = g.pick(["app", "app", "app", "data", "seq", "msgs", "raise", "mixed", "reset"])
        steps = [{"do": "new", "slot": 0, "kind": kind}]
        m = g.pick([7, 8, 9, 10, 15, 16, 17, 18, 24, 31, 32, 33, 40])
        names = [b"k%d" % i for i in range(50)]
        g.r.shuffle(names)
        for i in range(m):
            how = g.pick(["app", "data", "seq", "raise"]) if sort == "mixed" else sort
            if how in ("app", "reset"):
                key = names[i % (3 if how == "reset" else 50)]
                e = {"do": "set_app", "k": ["string", list(key)], "val": g.small()}
            elif how == "data":
                e = {"do": "push_data", "val": ["binary", [i] * g.pick([0, 1, 2])]}
            elif how == "seq":
                e = {"do": "push_seq", "val": ["list", [["ubyte", [i]]] * g.pick([0, 1, 2])]}
            elif how == "msgs":
                e = {"do": "push_msg", "p": ["binary", [i] * g.pick([0, 1, 2])]}
            else:
                e = {"do": "raise", "f": "group_sequence"}
            if g.chance(0.1):
                e = {"do": g.pick(["update", "if_some"]), "es": [e], "on": True}
            steps.append({"do": "edit", "slot": 0, "e": e})
            if g.chance(0.06):
                steps.append(g.pick([{"do": "size", "slot": 0}, {"do": "enc", "slot": 0}, {"do": "clone", "slot": 0, "from": 0}]))
        other = ("out", "in")[k % 2]
        steps += [{"do": "size", "slot": 0}, {"do": "enc", "slot": 0}, {"do": "clone", "slot": 1, "from": 0},
                  {"do": "eq", "slot": 0, "from": 1}]
        if sort != "reset":
            steps += [{"do": "decode", "slot": 2, "kind": g.pick([kind, other]), "from": 0}, {"do": "enc", "slot": 2}]
        out.append({"op": "msg", "keys": [list(k) for k in names[:3] + [b"zz"]], "steps": steps})
    return out


def histories_clean(g, n):
    return histories(g, n, True)


# ---------------------------------------------------------------- connections
def framed(b):
    return struct.pack(">I", len(b) + 4) + b


def frame_bytes(g, codec):
    v, t = g.legal(["amqpframe"] if codec == "amqp" else ["saslframe"], g.pick(["any", "any", "compact"]))
    return framed(t.bytes())


def bad_frame(g, codec):
    T = ["amqpframe"] if codec == "amqp" else ["saslframe"]
    x = g.r.random()
    v, t = g.legal(T, "any")
    b = t.bytes()
    if x < 0.25:
        b2 = g.mangle(b)
        return framed(b2)
    if x < 0.45:
        t2 = g.fault(t)
        return framed((t2 or t).bytes())
    if x < 0.6:
        return framed(b + bytes([0x40] * g.pick([1, 2, 5])))      # bytes left over (or payload)
    if x < 0.72:
        return framed(b[:g.r.randrange(4, len(b))]) if len(b) > 4 else framed(b)
    if x < 0.8:
        return framed(bytes([g.pick([0, 1])]) + b[1:])            # data offset too small
    if x < 0.88:
        return framed(b[:1] + bytes([g.pick([1 if codec == "amqp" else 0, 2, 255])]) + b[2:])
    if x < 0.94:
        return framed(bytes([g.pick([3, 4, 200, 255])]) + b[1:])
    return framed(g.pick([b"\2\0\0\0", b"\2\1\0\0"]))


def chunking(g, total, polls):
    """Deliver `total` bytes in pieces, polling in between."""
    steps = []
    mode = g.pick(["one", "small", "halves", "all", "mixed", "mixed"])
    left = total
    while left > 0:
        k = {"one": 1, "small": g.pick([1, 2, 3, 4, 5, 7, 8]), "halves": max(1, left // 2), "all": left,
             "mixed": g.pick([1, 3, 4, 5, 8, 9, 16, 64, left])}[mode]
        if total > 300 and k < 5 and g.chance(0.9):
            k = g.pick([64, 200, 1000])
        k = min(k, left)
        steps.append({"do": "d", "k": k})
        left -= k
        if g.chance(polls):
            steps.append({"do": "p", "n": g.pick([1, 1, 2])})
    return steps


def connections(mix, size=6):
    """mix: weights of item kinds, (legal written, legal injected, bad, tiny length)"""
    def f(g, n):
        out = []
        for _ in range(n):
            codec = g.pick(["amqp", "amqp", "sasl"])
            steps, total, items = [], 0, 0
            for _ in range(g.r.randrange(1, size)):
                x = g.r.random() * sum(mix)
                if x < mix[0]:
                    g.ssym = True
                    steps.append({"do": "w", "codec": codec, "val": g.value(["amqpframe"] if codec == "amqp" else ["saslframe"], 1)})
                    continue_total = None
                elif x < mix[0] + mix[1]:
                    steps.append({"do": "i", "in": list(frame_bytes(g, codec))})
                elif x < mix[0] + mix[1] + mix[2]:
                    steps.append({"do": "i", "in": list(bad_frame(g, codec))})
                else:
                    steps.append({"do": "i", "in": list(struct.pack(">I", g.pick([0, 1, 3, 4, 5, 7])) + bytes(g.r.randrange(256) for _ in range(g.pick([0, 3, 4, 12]))))})
                items += 1
            # what is written is known only when it has been: cut by generous guesses
            guess = sum(len(s["in"]) if s["do"] == "i" else len(json.dumps(s["val"])) // 3 for s in steps)
            sched = chunking(g, guess, g.pick([0.3, 0.7, 1.0]))
            # writes spread over the schedule
            spread = g.chance(0.5)
            seq, late = [], list(steps)
            if not spread:
                seq, late = late, []
            for c in sched:
                if late and g.chance(0.3):
                    seq.append(late.pop(0))
                if c["do"] == "p":
                    seq += [{"do": "p", "codec": codec}] * c["n"]
                else:
                    seq.append(c)
            seq += late
            if g.chance(0.4):      # the reader writes back now and then
                for _ in range(g.pick([1, 2, 3])):
                    back = ["proto", [g.pick([0, 2, 3])]] if codec == "proto" else g.value(["amqpframe"] if codec == "amqp" else ["saslframe"], 2)
                    seq.insert(g.r.randrange(len(seq) + 1), {"do": "b", "codec": codec, "val": back})
            if g.chance(0.8):
                seq.append({"do": "d", "k": 1 << 24})
            seq += [{"do": "p", "codec": codec}] * (items + 1)
            if g.chance(0.4):
                seq += [{"do": "e", "codec": codec}] * (2 if g.chance(0.3) else 1)
            out.append({"op": "pipe", "txcap": g.pick([0, 0, 8, 64, 4095, 4096, 40000]), "rxcap": g.pick([0, 0, 8, 4096, 40000]),
                        "prefill": [], "steps": seq})
        return out
    return f


def connections_large(g, n):
    out = []
    for k in range(n):
        codec = "amqp"
        seq = []
        cnt = g.pick([2, 3, 4])
        for _ in range(cnt):
            m = g.pick([0, 10, 4000, 4050, 4085, 4086, 4087, 4088, 4096, 5000, 32700, 32760, 32768, 33000])
            p = g.comp("Transfer")[1]
            seq.append({"do": "w", "codec": codec, "val": ["frame", [["ushort", g.integer(2, False)], ["Transfer", p + [["binary", [g.r.randrange(256)] * m if m else []]]]]]})
            if g.chance(0.4):
                seq.append({"do": "d", "k": g.pick([1, 100, 4096, 8192, 32768, 70000])})
                if g.chance(0.6):
                    seq.append({"do": "p", "codec": codec})
        for _ in range(g.pick([1, 3, 6])):
            seq.append({"do": "d", "k": g.pick([4, 100, 4096, 8192, 20000, 32768, 70000])})
            seq.append({"do": "p", "codec": codec})
        seq.append({"do": "d", "k": 1 << 24})
        seq += [{"do": "p", "codec": codec}] * (cnt + 1)
        out.append({"op": "pipe", "txcap": g.pick([0, 1, 4096, 8192, 40000]), "rxcap": g.pick([0, 4096, 40000]),
                    "prefill": [], "steps": seq})
    return out


def handshakes(g, n):
    """Protocol header, SASL, protocol header, AMQP; with wrong headers now and then."""
    out = []
    for _ in range(n):
        stages = []
        if g.chance(0.7):
            stages = [("proto", 3), ("sasl", g.r.randrange(0, 3)), ("proto", 0), ("amqp", g.r.randrange(0, 3))]
        else:
            stages = [("proto", g.pick([0, 2, 3])) for _ in range(g.pick([1, 2]))] + [("amqp", g.r.randrange(0, 3))]
        seq, reads, guess = [], [], 0
        for codec, x in stages:
            if codec == "proto":
                y = g.r.random()
                if y < 0.55:
                    seq.append({"do": "w", "codec": "proto", "val": ["proto", [x]]})
                else:
                    h = [65, 77, 81, 80, x, 1, 0, 0]
                    for _ in range(g.pick([0, 1, 1, 2])):
                        h[g.r.randrange(8)] = g.pick([0, 1, 2, 3, 4, 65, 80, 97, 255])
                    seq.append({"do": "i", "in": h})
                guess += 8
                reads.append("proto")
            else:
                for _ in range(x):
                    v = g.value(["amqpframe"] if codec == "amqp" else ["saslframe"], 2)
                    seq.append({"do": "w", "codec": codec, "val": v})
                    guess += len(json.dumps(v)) // 3
                    reads.append(codec)
        if g.chance(0.3):
            seq.append({"do": "i", "in": [65, 77, 81][:g.pick([1, 2, 3])]})
        cut = chunking(g, guess, 1.0)
        for c in cut:
            if c["do"] == "d":
                seq.append(c)
            else:
                seq.append({"do": "t"})
        seq.append({"do": "d", "k": 1 << 20})
        seq += [{"do": "t"}] * (len(reads) + 1)
        if g.chance(0.3):
            seq.append({"do": "e", "codec": reads[-1] if reads else "proto"})
        out.append({"op": "pipe", "txcap": g.pick([0, 3, 8, 16, 4096]), "rxcap": g.pick([0, 8, 100]),
                    "prefill": [], "turns": reads or ["proto"], "steps": seq})
    return out


def protos(g, n):
    """Protocol headers alone: every byte off by something."""
    out = []
    base = [65, 77, 81, 80, 0, 1, 0, 0]
    todo = []
    for p in range(8):
        for v in (0, 1, 2, 3, 4, 5, 64, 65, 66, 77, 80, 81, 128, 255, base[p] ^ 32, base[p] + 1):
            h = list(base)
            h[p] = v % 256
            todo.append(h)
    for x in range(256):
        todo.append([65, 77, 81, 80, x, 1, 0, 0])
    for _ in range(60):
        todo.append([g.pick([65, 77, 81, 80, 0, 1, 2, 3]) for _ in range(8)])
    g.r.shuffle(todo)
    while todo and len(out) < n:
        few, todo = todo[:4], todo[4:]
        seq = [{"do": "i", "in": h} for h in few] + [{"do": "i", "in": [65, 77][:g.pick([0, 1, 2])]}]
        for c in chunking(g, 33, 1.0):
            seq += [c] if c["do"] == "d" else [{"do": "p", "codec": "proto"}]
        seq += [{"do": "d", "k": 1000}] + [{"do": "p", "codec": "proto"}] * 5
        out.append({"op": "pipe", "txcap": 0, "rxcap": g.pick([0, 8, 64]), "prefill": [], "steps": seq})
    return out


def prefilled(g, n):
    """Writing into a buffer that already holds something."""
    out = []
    for _ in range(n):
        pre = [g.r.randrange(256) for _ in range(g.pick([1, 3, 8, 100, 4090, 4096, 5000]))]
        seq = []
        for _ in range(g.pick([1, 2, 3])):
            codec = g.pick(["amqp", "sasl", "proto"])
            v = ["proto", [g.pick([0, 2, 3])]] if codec == "proto" else g.value(["amqpframe"] if codec == "amqp" else ["saslframe"], 1)
            seq.append({"do": "w", "codec": codec, "val": v})
            if g.chance(0.5):
                seq.append({"do": "d", "k": g.pick([1, 10, len(pre), 5000])})
        out.append({"op": "pipe", "txcap": g.pick([0, 0, 1, 8, 100, 4096, 9000]), "rxcap": 0, "prefill": pre, "steps": seq})
    return out


def raw_streams(g, n):
    """Arbitrary bytes into the stream decoders."""
    out = []
    for _ in range(n):
        codec = g.pick(["amqp", "sasl", "proto"])
        b = b""
        for _ in range(g.pick([1, 2, 3])):
            x = g.r.random()
            if x < 0.3:
                b += g.noise()
            elif x < 0.6 and codec != "proto":
                b += bad_frame(g, codec)
            elif x < 0.8 and codec != "proto":
                b += framed(g.noise())
            else:
                b += bytes(g.pick([0, 0, 1, 4, 8, 9, 255, g.r.randrange(256)]) for _ in range(g.r.randrange(0, 20)))
        seq = [{"do": "i", "in": list(b)}]
        for c in chunking(g, len(b), 1.0):
            seq += [c] if c["do"] == "d" else [{"do": "p", "codec": codec}] * c["n"]
        seq += [{"do": "p", "codec": codec}] * 3 + [{"do": "e", "codec": codec}]
        out.append({"op": "pipe", "txcap": 0, "rxcap": 0, "prefill": [], "steps": seq})
    return out
