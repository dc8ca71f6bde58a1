"""Generators of documents, JSON texts and version fields."""
import struct, json, re


# ------------------------------------------------------------------------------- tagged documents
def bs(x):
    return list(x.encode() if isinstance(x, str) else x)


def S(x):
    return {"t": "s", "v": bs(x)}


def I(n, via=None):
    d = {"t": "i", "v": bs(str(n))}
    if via:
        d["via"] = via
    return d


def F(t):
    return {"t": "f", "v": bs(t)}


def B(b):
    return {"t": "b", "v": b}


NULL = {"t": "n"}


def A(xs):
    return {"t": "a", "v": list(xs)}


def O(*pairs, **kw):
    ps = list(pairs) + list(kw.items())
    return {"t": "o", "k": [bs(k) for k, _ in ps], "v": [v for _, v in ps]}


def key(k):
    return bytes(k).decode()


def fields(o):
    return [(key(k), v) for k, v in zip(o["k"], o["v"])]


def get(o, k):
    return dict(fields(o)).get(k)


def put(o, k, v):
    ps = fields(o)
    if any(a == k for a, _ in ps):
        return O(*[(a, v if a == k else x) for a, x in ps])
    return O(*(ps + [(k, v)]))


def drop(o, k):
    return O(*[(a, x) for a, x in fields(o) if a != k])


def ser(d):
    """compact JSON text of a tagged document"""
    t = d["t"]
    if t == "s":
        return json.dumps(bytes(d["v"]).decode(), ensure_ascii=False).replace("\x7f", "\x7f")
    if t in "if":
        return bytes(d["v"]).decode()
    if t == "b":
        return "true" if d["v"] else "false"
    if t == "n":
        return "null"
    if t == "a":
        return "[" + ",".join(ser(x) for x in d["v"]) + "]"
    return "{" + ",".join(json.dumps(key(k), ensure_ascii=False) + ":" + ser(x) for k, x in zip(d["k"], d["v"])) + "}"


STRINGS = ["", "a", "A", "abc", "\"", "\\", "/", "\b\f\n\r\t", "\x00", "\x01\x1f", "\x7f", "\u00e9", "\u2028\u2029",
           "\u20ac", "\U0001f600", "\ud7ff\ue000", "\ufffd", "\uffff", "null", "true", "1", "0", "-1", "{}", "[]",
           "a b", "#" * 44, "KERI10JSON000000_", "ACDC10JSON0000ff_", "x" * 70, "\\u0041", "a/b", "<>&'", "#",
           "\u0080", "\u07ff", "\u0800", "\U00010000", "\U0010ffff", "key", "d", "v", "i"]
INTS = [0, 1, -1, 2, 9, 10, 127, 128, 255, 256, -128, -129, 32767, 65535, 65536, 2147483647, 2147483648, -2147483648,
        4294967295, 4294967296, 9007199254740993, 9223372036854775807, -9223372036854775808, 9223372036854775808,
        18446744073709551615, 1234567890123456789, -1000000000000]
FRACS = ["0.0", "1.0", "-1.0", "0.5", "-0.5", "1.5", "1.666", "3.14159", "100.25", "123456789.5", "0.1", "0.001",
         "99999.99999", "-2.75", "2.0", "10.0", "1234567.0"]
KEYS = ["v", "d", "i", "s", "t", "a", "b", "k", "n", "e", "", "0", "1", "x", "yy", "zed", "\u00fc", "\"", "a b", "A",
        "label", "nested", "list", "$id", "@id", "kt", "nt", "p", "r"]


def fits(n):
    return [v for v, lo, hi in [("i8", -128, 127), ("i16", -32768, 32767), ("i32", -2 ** 31, 2 ** 31 - 1),
                                ("i64", -2 ** 63, 2 ** 63 - 1), ("u8", 0, 255), ("u16", 0, 65535),
                                ("u32", 0, 2 ** 32 - 1)] if lo <= n <= hi]


def rand_text(rng):
    k = rng.random()
    if k < 0.6:
        return rng.choice(STRINGS)
    n = rng.choice([1, 2, 3, 8, 20])
    pool = ["abcXYZ019-_", " \t\n\"\\/{}[],:", "\u00e9\u20ac\U0001f600\u0416", "".join(map(chr, range(32)))]
    return "".join(rng.choice(rng.choice(pool)) for _ in range(n))


def rand_int(rng):
    if rng.random() < 0.6:
        return rng.choice(INTS)
    return rng.randrange(-2 ** 63, 2 ** 64) >> rng.choice([0, 8, 32, 48, 60])


def exact32(f):
    try:
        return struct.unpack("f", struct.pack("f", float(f)))[0] == float(f)
    except OverflowError:
        return False


def rand_doc(rng, depth=3, width=4, built=False):
    k = rng.random()
    if depth == 0 or k < 0.45:
        j = rng.randrange(6)
        if j <= 1:
            d = S(rand_text(rng))
            return {**d, "via": "string"} if built and rng.random() < 0.5 else d
        if j == 2:
            n = rand_int(rng)
            return I(n, rng.choice(fits(n)) if built and fits(n) else None)
        if j == 3:
            f = rng.choice(FRACS)
            return {**F(f), "via": "f32"} if built and exact32(f) else F(f)
        if j == 4:
            return B(rng.random() < 0.5)
        return dict(NULL)
    if k < 0.68:
        d = A(rand_doc(rng, depth - 1, width, built) for _ in range(rng.randrange(width)))
        if built and rng.random() < 0.5:
            d["via"] = "slice"
        return d
    return rand_obj(rng, depth, width, built)


def rand_obj(rng, depth=3, width=5, built=False, keys=KEYS):
    ks = []
    for _ in range(rng.randrange(width + 1)):
        k = rng.choice(keys) if rng.random() < 0.8 else rand_text(rng)
        if k not in ks:
            ks.append(k)
    o = O(*[(k, rand_doc(rng, depth - 1, width, built)) for k in ks])
    if built and rng.random() < 0.5:
        o["via"] = "map"
    return o


# ------------------------------------------------------------------------------------ JSON texts
def ws(rng, loose):
    return "" if not loose or rng.random() < 0.7 else rng.choice([" ", "\n", "\t", "\r", "  \n "])


def loose_str(rng, s, loose):
    out = '"'
    for ch in s:
        c = ord(ch)
        r = rng.random()
        if ch in '"\\' or c < 32:
            short = {'"': '\\"', "\\": "\\\\", "\b": "\\b", "\f": "\\f", "\n": "\\n", "\r": "\\r", "\t": "\\t"}
            out += short[ch] if ch in short and (not loose or r < 0.5) else "\\u%04x" % c
        elif loose and ch == "/" and r < 0.5:
            out += "\\/"
        elif loose and r < 0.15:
            if c < 65536:
                out += ("\\u%04x" if r < 0.07 else "\\u%04X") % c
            else:
                c -= 65536
                out += "\\u%04x\\u%04x" % (0xd800 + (c >> 10), 0xdc00 + (c & 1023))
        else:
            out += ch
    return out + '"'


def text_of(rng, d, loose=True):
    t, w = d["t"], lambda: ws(rng, loose)
    if t == "s":
        return loose_str(rng, bytes(d["v"]).decode(), loose)
    if t in "if":
        return bytes(d["v"]).decode()
    if t in "bn":
        return ser(d)
    if t == "a":
        return "[" + w() + (w() + "," + w()).join(text_of(rng, x, loose) for x in d["v"]) + w() + "]"
    return "{" + w() + (w() + "," + w()).join(
        loose_str(rng, key(k), loose) + w() + ":" + w() + text_of(rng, x, loose)
        for k, x in zip(d["k"], d["v"])) + w() + "}"


BADJSON = ["", " ", "{", "}", "[", "]", "[1,]", "{\"a\":1,}", "{,}", "[,]", "{\"a\"}", "{\"a\":}", "{a:1}", "'a'",
           "nul", "nulll", "True", "tru", "01", "-", "+1", "1.", ".5", "1e", "1e+", "0x10", "--1", "NaN", "Infinity",
           "\"", "\"\\", "\"\\x\"", "\"\\u12\"", "\"\\ud800\"", "\"\\udc00\"", "\"\\ud800\\u0041\"", "\"\\ud800x\"",
           "\"\n\"", "\"\t\"", "\"\x00\"", "1 2", "[1 2]", "{\"a\":1 \"b\":2}", "{1:2}", "[1]x", "{}{}", "/**/1",
           "[" * 130, "[" * 127 + "]" * 127, "[" * 128 + "]" * 128, "{\"a\":" * 127 + "1" + "}" * 127,
           "{\"a\":" * 128 + "1" + "}" * 128, "[[[[1]]]]", "\ufeff1", "{\"a\":1,\"a\":2}", "{\"a\":1,\"b\":2,\"a\":3}",
           "-0", "-0.0", "1E5", "1e5", "1.5e300", "1e-7", "0.30000000000000004", "1e400", "-1e400", "123456789012345678901",
           "18446744073709551616", "-9223372036854775809", "18446744073709551615", "-9223372036854775808", "1.10",
           "00", "-01", "1.0", "100", "\u00a01", "[1,2", "{\"a\":[1,2}", "\"\\uD83D\\uDE00\"", "\"\\uDE00\\uD83D\"",
           "\"\\u0000\"", "\"\\u001f\\u007f\"", "1.0e0", "9223372036854775807.0"]


class Docs:
    def __init__(self, t, rng, deep=False):
        self.t, self.rng, self.n = t, rng, 3 if deep else 1

    def json_texts(self):
        t, r = self.t, self.rng
        for s in BADJSON:
            t.do("json", "edge", data=bs(s), **({"flat": True} if len(s) > 120 else {}))
        for s in STRINGS:
            t.do("json", "string", data=bs(ser(S(s))))
            t.do("json", "key", data=bs("{" + ser(S(s)) + ":1}"))
        for n in INTS:
            t.do("json", "int", data=bs(str(n)))
        for f in FRACS:
            t.do("json", "frac", data=bs(f))
        for _ in range(300 * self.n):
            t.do("json", "random", data=bs(text_of(r, rand_doc(r, 4), r.random() < 0.7)))
        # invalid UTF-8, and texts damaged in one place
        for bad in [b"\x80", b"\xc0\x80", b"\xc1\xbf", b"\xe0\x80\x80", b"\xed\xa0\x80", b"\xf0\x80\x80\x80", b"\xf4\x90\x80\x80",
                    b"\xf5\x80\x80\x80", b"\xff", b"\xe2\x82", b"\xc3"]:
            t.do("json", "utf8", data=list(b'"' + bad + b'"'))
        for _ in range(400 * self.n):
            b = bytearray(text_of(r, rand_doc(r, 3), True).encode())
            for _ in range(r.choice([1, 1, 2])):
                k = r.randrange(4)
                i = r.randrange(len(b) + 1)
                if k == 0 and b:
                    b[i % len(b)] ^= 1 << r.randrange(8)
                elif k == 1:
                    b[i:i] = r.choice(b"{}[],:\"\\019-.eE \n\x00\x80tfn").to_bytes(1, "big")
                elif k == 2:
                    del b[i:i + 1]
                else:
                    del b[i:]
            t.do("json", "mutated", data=list(b))

    def values(self):
        t, r = self.t, self.rng
        for s in STRINGS:
            t.do("jval", "string", doc=S(s))
        for n in INTS:
            for via in fits(n) or [None]:
                t.do("jval", "int", doc=I(n, via))
        for f in FRACS:
            t.do("jval", "frac", doc=F(f))
        for _ in range(250 * self.n):
            d = rand_doc(r, 3, 4, True)
            kw = {}
            if d["t"] == "o":
                ks = [key(k) for k in d["k"]]
                kw["label"] = bs(r.choice(ks + KEYS) if ks else r.choice(KEYS))
                if r.random() < 0.7:
                    kw["put"] = rand_doc(r, 1)
            t.do("jval", "random", doc=d, **kw)

        for _ in range(60 * self.n):
            self.edits()
        for s in r.sample(STRINGS, 8) + ["last"]:
            t.do("shapes", "shapes", s=bs(s), k=bs(r.choice(KEYS + ["last"])), n=bs(str(r.choice([x for x in INTS if -2 ** 63 <= x < 2 ** 63]))),
                 b=r.random() < 0.5, doc=rand_doc(r, 2))

    def wide(self):
        """long texts, long lists, many keys"""
        t, r = self.t, self.rng
        for n in [255, 256, 257, 4095, 4097, 65535, 65537]:
            x = "".join(r.choice(["a", "é", "\\", "\"", "\n", "z", "𝄞", "\u0001"]) if n < 9000 and r.random() < 0.3 else "b" for _ in range(n))
            t.do("jval", "longtext", doc=S(x), flat=True)
            t.do("json", "longtext", data=bs(ser(A([S(x), I(1)]))), flat=True)
            if n < 9000:
                t.do("json", "longkey", data=bs(ser(O((x, I(1)), ("b", I(2))))), flat=True)
        for n in [9, 10, 11, 100, 256, 257, 1025]:
            ks = ["k%d" % i for i in range(n)]
            r.shuffle(ks)
            for d in (A([I(i * 7919) for i in range(n)]), O(*[(k, S(k)) for k in ks]), O(*[(k[1:], A([NULL, O((k, B(True)))])) for k in ks])):
                t.do("json", "many", data=bs(ser(d)), flat=True)
                if n < 300:
                    t.do("jval", "many", doc=d)

    def edits(self):
        """values put at places that exist, or under a label that does not yet"""
        r = self.rng
        d = rand_obj(r, 3, 4)
        x, es = d, []

        def walk(y, deep):
            p = []
            while y["t"] in "ao" and y["v"] and r.random() < deep:
                i = r.randrange(len(y["v"]))
                p.append({"k": y["k"][i]} if y["t"] == "o" and r.random() < 0.7 else {"n": i})
                y = y["v"][i]
            return p, y

        def put(y, p, v):
            if not p:
                return v
            if "n" in p[0]:
                i = p[0]["n"]
            elif p[0]["k"] in y["k"]:
                i = y["k"].index(p[0]["k"])
            else:
                return dict(y, k=y["k"] + [p[0]["k"]], v=y["v"] + [v])
            return dict(y, v=y["v"][:i] + [put(y["v"][i], p[1:], v)] + y["v"][i + 1:])
        for _ in range(r.randrange(1, 4)):
            p, y = walk(x, 0.8)
            if y["t"] == "o" and r.random() < 0.4:
                p = p + [{"k": bs(r.choice(KEYS))}]
            v = rand_doc(r, 2)
            es.append({"path": p, "put": v})
            x = put(x, p, v)
        self.t.do("edit", "edit", doc=d, edits=es, reads=[walk(x, 0.85)[0] for _ in range(3)])

    # ------------------------------------------------------------------------------- versions
    def versions(self):
        t, r = self.t, self.rng
        t.do("versify", "default")
        sizes = [0, 1, 15, 16, 255, 256, 4095, 65535, 65536, 1048575, 0xfffffe, 0xffffff, 0x1000000, 0x1000001, 0xfffffff,
                 0x7fffffff]
        for p in ["KERI", "ACDC"]:
            for ma, mi in [(1, 0), (0, 0), (1, 1), (2, 0), (9, 10), (15, 15), (10, 9), (0, 15), (15, 0), (1, 16), (16, 0),
                           (17, 2), (255, 255), (0, 16), (100, 1)]:
                for s in r.sample(sizes, 4) + [r.randrange(1 << 24)]:
                    t.do("versify", "full", proto=bs(p), version=[ma, mi], kind=bs("JSON"), size=s)
        for s in sizes:
            t.do("versify", "size", size=s)
        some = dict(proto=bs("ACDC"), version=[2, 11], kind=bs("JSON"), size=0x12345)
        for m in range(16):
            t.do("versify", "some", **{k: v for i, (k, v) in enumerate(some.items()) if m >> i & 1})
        for p in ["", "KER", "KERIX", "keri", "ABCD", "ACDD", "CESR", "JSON"]:
            t.do("versify", "proto", proto=bs(p))
        for k in ["", "JSO", "MGPK", "CBOR", "json", "JSONX", "CESR"]:
            t.do("versify", "kind", kind=bs(k))
        good = []
        for _ in range(60 * self.n):
            good.append(r.choice(["KERI", "ACDC"]) + "%x%x" % (r.randrange(16), r.randrange(16)) + "JSON" +
                        "%06x" % r.choice([0, 1, 255, r.randrange(1 << 24), 0xffffff]) + "_")
        for g in good:
            t.do("deversify", "good", data=bs(g))
        for g in good[:40 * self.n]:
            b = list(g)
            i = r.randrange(17)
            b[i] = r.choice("ABCZaefg019_ -\u00e9~KERIJSON")
            t.do("deversify", "mutated", data=bs("".join(b)))
            t.do("deversify", "cut", data=bs(g[:r.randrange(17)]))
            t.do("deversify", "around", data=bs(r.choice(["x" + g, g + "x", g + g, " " + g, g + "\n", g[1:] + g, g + "_"])))
        for x in ["", "_", "KERI10JSON000000", "KERI10MGPK000000_", "KERI10CBOR000000_", "XXXX10JSON000000_",
                  "keri10JSON000000_", "KERI1AJSON000000_", "KERI10JSON00000A_", "KERI10JSON00000g_", "KERIAAJSON000000_",
                  "\u00e9ERI10JSON00000_", "KERI10JSON000000\u00e9"]:
            t.do("deversify", "edge", data=bs(x))

    def sniffs(self):
        t, r = self.t, self.rng
        v = "KERI10JSON0000a5_"
        tails = [b"", b"\x00" * 40, bytes(range(128, 256)), b"\xff" * 30, b"ACDC10JSON000001_" * 2, b"KERI10JSON000000_",
                 b'","d":"x"}' * 5, b"\xe2\x82\xac" * 12]
        for p in ["KERI", "ACDC", "KERJ", "ABCD"]:
            for k in ["JSON", "MGPK", "CBOR"]:
                vs = f"{p}10{k}0001ff_"
                for n in range(0, 16):
                    for tail in r.sample(tails, 3):
                        t.do("sniff", "start", data=list((b'{"v":"' + b"." * 20)[:n] + vs.encode() + tail))
        for n in range(0, 45):
            t.do("sniff", "cut", data=list((b'{"v":"' + v.encode() + b'","d":"abcdefghijklmnop"}')[:n]))
        for _ in range(120 * self.n):
            b = bytearray(b'{"v":"' + v.encode() + r.choice(tails))
            for _ in range(r.randrange(3)):
                b[r.randrange(len(b))] = r.choice(list(b"{}KERI10JSON_af\xff\x80 "))
            t.do("sniff", "mutated", data=list(b))
        # two candidates: the first one counts, even if it is no good
        for a, b in [("ABCD10JSON000000_", v), (v, "ABCD10JSON000000_"), ("KERI10JSONX", v), ("KERI10JSON00000", v),
                     ("KERI1", v), ("AKERI", v), ("ZZ", v), ("KERI10JSON0000a", v)]:
            t.do("sniff", "two", data=bs(a + b + "." * 30))
        t.do("sniff", "late", data=list(b"." * 13 + v.encode() + b"." * 30))
        t.do("sniff", "late", data=list(b"." * 500 + v.encode()))

    def large(self):
        """messages around every width of the size, too long to be spelled out"""
        t, r = self.t, self.rng
        room = len('{"v":"KERI10JSON000000_","d":"","x":""}')
        tops = [0x1000, 0x10000, 0x100000, 0x1000000]
        for fill in ("y", "\u00e9", "\n", "\U0001f600", '"'):
            step = {"y": 1, "\u00e9": 2, "\n": 2, "\U0001f600": 4, '"': 2}[fill]
            for top in tops if self.n > 1 or fill == "y" else tops[1:3]:
                ns = {(top - room) // step + k for k in (-1, 0, 1)} | {(top - room - 44) // step + k for k in (-1, 0, 1)} | {top // step}
                for n in sorted(ns) if self.n > 1 else sorted(r.sample(sorted(ns), 4)):
                    t.do("bigmessage", "large", fill=bs(fill), count=n, head=room - 2, step=step)

    def sizes(self):
        t, r = self.t, self.rng
        vs = ["KERI10JSON000000_", "ACDC10JSON000000_", "KERI10JSONffffff_", "KERI10JSON0000a5_"]
        for _ in range(220 * self.n):
            d = rand_obj(r, 3, 5, keys=[k for k in KEYS if k != "v"])
            ps = [p for p in fields(d) if p[0] != "v"]
            i = 0 if r.random() < 0.75 else r.randrange(len(ps) + 1)
            d = O(*(ps[:i] + [("v", S(r.choice(vs)))] + ps[i:]))
            kw = {"kind": bs("JSON")} if r.random() < 0.3 else {}
            x = t.do("sizeify", "random", doc=d, **kw)
            if x.get("ok") and r.random() < 0.4:
                t.do("sizeify", "again", doc=x["doc"], **kw)
        base = [("d", S("x")), ("n", A([S(vs[0])]))]
        for v in ["", "KERI10JSON000000", "KERI11JSON000000_", "KERI20JSON000000_", "KERI00JSON000000_", "ABCD10JSON000000_",
                  "KERI10CBOR000000_", "KERI10JSON000000_x", "xKERI10JSON000000_", "KERI10JSON000000_KERI10JSON000000_"]:
            t.do("sizeify", "badversion", doc=O(("v", S(v)), *base))
        for x in [NULL, I(1), B(True), A([]), A([S(vs[0])]), O(("KERI10JSON000000_", I(1)))]:
            t.do("sizeify", "badversion", doc=O(("v", x), *base))
            t.do("sizeify", "notmap", doc=x)
        t.do("sizeify", "none", doc=O(*base))
        t.do("sizeify", "string", doc=S(vs[0]))
        for k in ["JSON", "MGPK", "CBOR", "", "json"]:
            t.do("sizeify", "kind", doc=O(("v", S(vs[0])), *base), kind=bs(k))
        # something else that looks like a version field
        for first in ["", "a", "abcdefgh"]:
            for pose in [vs[0], vs[1], "ZZZZ00ZZZZ000000_", "xKERI10JSON000000_"]:
                t.do("sizeify", "pose", doc=O((first, S(pose)), ("v", S(vs[0])), *base))
                t.do("sizeify", "pose", doc=O((pose, I(1)), ("v", S(vs[0])), *base))
                t.do("sizeify", "pose", doc=O(("v", S(vs[0])), (pose, S(pose)), *base))
        for n in range(0, 14):
            t.do("sizeify", "start", doc=O(("x" * n, I(1)), ("v", S(vs[0]))))
        for n in [10, 100, 255, 256, 1000, 4095, 4096]:
            t.do("sizeify", "long", doc=O(("v", S(vs[0])), ("x", S("y" * n))))
