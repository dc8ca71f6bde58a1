"""Generators for primitives, indexed signatures and count codes.  The tables below only make
inputs; what is right is decided by spec/Cesr.tla."""
import base64

A64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
VAR = None
MATTER = {}
for _c in "ABCDEFGHIJOQ":
    MATTER[_c] = (1, 0, 44, 0)
MATTER.update({"K": (1, 0, 76, 0), "L": (1, 0, 76, 0), "M": (1, 0, 4, 0), "N": (1, 0, 12, 0), "P": (1, 0, 124, 0),
               "0A": (2, 0, 24, 0), "0H": (2, 0, 8, 0)})
for _c in "BCDEFGI":
    MATTER["0" + _c] = (2, 0, 88, 0)
MATTER.update({"1AAA": (4, 0, 48, 0), "1AAB": (4, 0, 48, 0), "1AAC": (4, 0, 80, 0), "1AAD": (4, 0, 80, 0),
               "1AAE": (4, 0, 56, 0), "1AAF": (4, 0, 8, 0), "1AAG": (4, 0, 36, 0), "1AAH": (4, 0, 100, 0),
               "1AAI": (4, 0, 48, 0), "1AAJ": (4, 0, 48, 0), "2AAA": (4, 0, 8, 1), "3AAA": (4, 0, 8, 2)})
for _i, (_s, _l) in enumerate(zip("456", "789")):
    for _c in "AB":
        MATTER[_s + _c] = (2, 2, VAR, _i)
        MATTER[_l + "AA" + _c] = (4, 4, VAR, _i)
INDEXER = {}
for _c in "ABCDEF":
    INDEXER[_c] = (1, 1, 0, 88, 0)
    INDEXER["2" + _c] = (2, 4, 2, 92, 0)
for _c in "AB":
    INDEXER["0" + _c] = (2, 2, 1, 156, 0)
    INDEXER["3" + _c] = (2, 6, 3, 160, 0)
INDEXER.update({"0z": (2, 2, 0, VAR, 0), "1z": (2, 2, 1, 76, 1), "4z": (2, 6, 3, 80, 1)})
COUNTER = {"-" + c: (2, 2) for c in "ABCDEFGHIJKLV"}
COUNTER.update({"-0V": (3, 5), "--AAA": (5, 3)})

CLASSES = {"verfer": ["B", "D", "1AAA", "1AAB", "1AAI", "1AAJ"], "cigar": ["0B", "0C", "0I"],
           "diger": list("EFGHI") + ["0D", "0E", "0F", "0G"], "saider": list("EFGHI") + ["0D", "0E", "0F", "0G"],
           "salter": ["0A"], "signer": ["A", "J", "Q"], "number": ["M", "0H", "N", "0A"], "seqner": ["0A"],
           "dater": ["1AAG"], "bexter": ["4A", "5A", "6A", "7AAA", "8AAA", "9AAA"],
           "pather": ["4A", "5A", "6A", "7AAA", "8AAA", "9AAA"]}
CLASSES["prefixer"] = CLASSES["verfer"] + CLASSES["diger"]


def b64(n, length):
    return "".join(A64[(n >> (6 * i)) & 63] for i in reversed(range(length)))


def enc(raw):
    return base64.urlsafe_b64encode(raw).decode()


def raw_size(code):
    hs, ss, fs, ls = MATTER[code]
    return (fs - hs - ss) * 3 // 4 - ls


def text_of(code, raw):
    """qualified text of a primitive with exactly this code (no promotion)"""
    hs, ss, fs, ls = MATTER[code]
    cs = hs + ss
    if fs is VAR:
        return code + b64((len(raw) + ls) // 3, ss) + enc(bytes(ls) + raw)
    ps = cs % 4
    return code + (enc(bytes(ps) + raw)[ps:] if ps else enc(bytes(ls) + raw))


def var_raw(rng, code, quads):
    ls = MATTER[code][3]
    return rng.randbytes(max(0, quads * 3 - ls))


def any_raw(rng, code, quads=None):
    if MATTER[code][2] is VAR:
        return var_raw(rng, code, rng.randint(1, 6) if quads is None else quads)
    return rng.randbytes(raw_size(code))


def good_key_raw(rng, code):
    """raw material acceptable for the families that check more than size (seeds of private keys)"""
    return rng.randbytes(raw_size(code))


def idx_text(code, index, ondex, raw):
    hs, ss, os_, fs, ls = INDEXER[code]
    ps = (hs + ss) % 4
    head = code + b64(index, ss - os_) + b64(ondex, os_)
    return head + (enc(bytes(ps) + raw)[ps:] if ps else enc(bytes(ls) + raw))


def idx_raw_size(code, index):
    hs, ss, os_, fs, ls = INDEXER[code]
    f = hs + ss + 4 * index if fs is VAR else fs
    return (f - hs - ss) * 3 // 4 - ls


def L(b):
    return list(b if isinstance(b, (bytes, bytearray)) else b.encode())


TAILS = ["", "A", "AAAA", "{\"v\":1}", "\n", "=", "-AAB", "\u00e9", "0", "~", "\u20ac\u20ac"]
NASTY = ["=", "+", "/", " ", "\n", "\u00e9", "\x00", ".", "~", "\u20ac", "%", ","]


class Cesr:
    def __init__(self, tr, rng, thorough=False):
        self.t, self.r, self.th = tr, rng, thorough

    # -------------------------------------------------------------------------------- primitives
    def m(self, via, data, cls="base", code=None, tag="", **kw):
        d = L(data)
        if via == "qb64b":
            try:
                bytes(d).decode()
                u = True
            except UnicodeDecodeError:
                u = False
            kw["utf8"] = u
        if code is not None:
            kw["code"] = code
        if cls == "cigar" and self.r.random() < 0.5:
            kw["by"] = self.key()
        return self.t.do("matter", cls=cls, via=via, data=d, tag=tag, **kw)

    def key(self):
        """text of a verification key that a signature is said to be by"""
        if not hasattr(self, "keys"):
            self.keys = [L(text_of(c, good_key_raw(self.r, c))) for c in CLASSES["verfer"]]
        return self.r.choice(self.keys)

    def all_ways(self, text, cls="base", tag="", tails=("",)):
        for tail in tails:
            self.m("qb64", text + tail, cls, tag=tag + "-qb64")
            self.m("qb64b", text + tail, cls, tag=tag + "-qb64b")
        b = base64.urlsafe_b64decode(text)
        for tail in (b"", b"\xff", b"\x00\x00", self.r.randbytes(5))[:max(1, len(tails))]:
            self.m("qb2", b + tail, cls, tag=tag + "-qb2")

    def roundtrip(self):
        r = self.r
        for code, (hs, ss, fs, ls) in MATTER.items():
            if fs is VAR:
                sizes = [0, 1, 2, 3, 4, 5, 6, 7, 11, 12, 13, r.randint(14, 200)]
                for n in sizes:
                    self.m("raw", r.randbytes(n), code=code, tag="raw-var")
                    self.m("raw", bytes(n), code=code, tag="raw-var")
                qs = [1, 2, 3, 4, 17, 63, 64, 65, 70]
                for q in qs:
                    self.all_ways(text_of(code, var_raw(r, code, q)), tag="decode-var", tails=r.sample(TAILS, 2))
            else:
                n = raw_size(code)
                for raw in [bytes(n), b"\xff" * n, r.randbytes(n), r.randbytes(n)]:
                    self.m("raw", raw, code=code, tag="raw-fixed")
                    self.all_ways(text_of(code, raw), tag="decode-fixed", tails=[""] + r.sample(TAILS, 2))
                for extra in (1, 2, 3, 7):
                    self.m("raw", r.randbytes(n + extra), code=code, tag="raw-long")
                for short in {0, 1, n // 2, n - 1} - {n}:
                    if 0 <= short < n:
                        self.m("raw", r.randbytes(short), code=code, tag="raw-short")

    def promotion(self):
        r = self.r
        big = [12284, 12285, 12286, 12287, 12288, 12289]
        for code in ["4A", "5B", "6A"] if not self.th else ["4A", "5A", "6A", "4B", "5B", "6B"]:
            for n in big if self.th else r.sample(big, 3) + [12285, 12286]:
                self.m("raw", r.randbytes(n), code=code, tag="raw-promote")
        for code in ["7AAA", "8AAB", "9AAA"]:
            t = text_of(code, var_raw(r, code, 4100 if code == "7AAA" else 64))
            self.all_ways(t, tag="decode-big")
        t = text_of("6B", var_raw(r, "6B", 4095))
        self.all_ways(t, tag="decode-big")

    def large(self):
        r = self.r
        for n in [12285, 12286, 786428, 786430, 786432, 786433, r.randrange(800000, 3000000)] + (
                [50331643, 50331644, 50331645, 50331646, 50331648] if self.th else [50331645, 50331646]):
            for code in r.sample(["4A", "5A", "6A", "4B", "5B", "6B", "7AAA", "8AAA", "9AAB", "7AAB"], 2 if n < 5000000 else 1):
                self.t.do("bigmatter", code=code, count=n, byte=r.choice([0, 1, 65, 255]), tag="raw-large")

    def mutated(self):
        r = self.r
        reps = 3 if self.th else 1
        for code, (hs, ss, fs, ls) in MATTER.items():
            cs = hs + ss
            for _ in range(reps):
                raw = any_raw(r, code)
                t = text_of(code, raw)
                pos = set(range(min(len(t), cs + 4))) | {len(t) - 1, len(t) - 2} | {r.randrange(len(t)) for _ in range(3)}
                for p in sorted(x for x in pos if 0 <= x < len(t)):
                    reps_c = r.sample(NASTY, 3) + r.sample(A64, 3) + ["A", "_", "="]
                    for c in reps_c:
                        if c != t[p]:
                            x = t[:p] + c + t[p + 1:]
                            self.m(r.choice(["qb64", "qb64b"]), x, tag="mutate-text")
                # every single bit of the first body character and the lead characters
                for p in range(cs, min(cs + 4, len(t))):
                    v = A64.index(t[p])
                    for b in range(6):
                        x = t[:p] + A64[v ^ (1 << b)] + t[p + 1:]
                        self.m("qb64", x, tag="flip-text")
                        self.m("qb2", base64.urlsafe_b64decode(x), tag="flip-bin")
                cuts = set(range(0, min(len(t), cs + 6))) | {len(t) - k for k in range(1, 5)}
                for k in sorted(x for x in cuts if 0 <= x < len(t)):
                    self.m("qb64", t[:k], tag="cut-text")
                    self.m("qb64b", t[:k], tag="cut-text")
                b = base64.urlsafe_b64decode(t)
                for k in sorted({x for x in list(range(0, 8)) + [len(b) - 1, len(b) - 2, len(b) - 3] if 0 <= x < len(b)}):
                    self.m("qb2", b[:k], tag="cut-bin")
                for _ in range(6):
                    k = r.randrange(len(b))
                    y = bytearray(b)
                    y[k] ^= 1 << r.randrange(8)
                    self.m("qb2", bytes(y), tag="mutate-bin")
                self.m("qb64b", t.encode()[:-1] + b"\xff", tag="mutate-text")
                self.m("qb64b", t.encode() + b"\xff\xfe", tag="tail-nonutf8")
                self.m("qb64b", t.encode() + "\u20ac".encode()[:2], tag="tail-nonutf8")
                # padding characters inside the material
                for k in (1, 2, 3):
                    self.m("qb64", t[:-k] + "=" * k, tag="pad-char")
        # variable codes: lies about size
        for code in [c for c in MATTER if MATTER[c][2] is VAR]:
            hs, ss, fs, ls = MATTER[code]
            for size in [0, 1, 2, 63, 64, 4095] + ([64 ** 4 - 1, 64 ** 3] if ss == 4 else []):
                body = enc(bytes(ls) + r.randbytes(9 - ls))
                x = code + b64(size, ss) + body
                self.m("qb64", x, tag="size-lie")
                self.m("qb64b", x, tag="size-lie")
                self.m("qb2", base64.urlsafe_b64decode(x), tag="size-lie")
            for n in (0, 1, 2, 3):
                x = code + b64(0, ss) + "A" * n
                self.m("qb64", x, tag="size-zero")
                self.m("qb2", base64.urlsafe_b64decode(code + b64(0, ss)) + bytes(n), tag="size-zero")

    def starts(self):
        """what may begin a primitive: every first character, two character codes, near misses of long codes"""
        r = self.r
        body = enc(bytes(99))
        firsts = [chr(c) for c in range(1, 128)] + ["\u00e9", "\u20ac", "\U0001f600"]
        for c in firsts:
            self.m("qb64", c + body, tag="start")
        for c in range(256):
            self.m("qb2", bytes([c]) + bytes(99), tag="start-bin")
        for d in "0456":
            for c in (A64 if self.th else r.sample(A64, 24) + list("ABCDEFGHIJ")):
                self.m("qb64", d + c + "AB" + body, tag="start")
        codes4 = [c for c in MATTER if len(c) == 4]
        for c in codes4:
            for p in (1, 2, 3):
                for x in r.sample(A64, 5) + ["A", "B", "K", "J"]:
                    y = c[:p] + x + c[p + 1:]
                    self.m("qb64", y + "AAAB" + body, tag="start")
                    self.m("qb2", base64.urlsafe_b64decode(y + "AAAB" + body), tag="start-bin")
        for n in range(0, 5):
            for d in "0123456789AMZaz-_":
                self.m("qb64", (d + "AAAA")[:n], tag="start-short")
        for n in range(0, 4):
            for d in range(0, 256, 5):
                self.m("qb2", bytes([d, 0, 0][:n]), tag="start-short")

    def typed(self):
        r = self.r
        for cls in CLASSES:
            for n in (0, 1, 2, 3, 15, 16, 17, 24, 31, 32, 33, 64):
                self.m("raw", r.randbytes(n), cls, tag="no-code")
            for code in MATTER:
                big = MATTER[code][2] is VAR
                for _ in range(2 if (self.th or code in CLASSES[cls]) else 1):
                    raw = any_raw(r, code)
                    self.m("raw", raw, cls, code=code, tag="typed")
                    t = text_of(code, raw)
                    self.m("qb64", t, cls, tag="typed")
                    self.m("qb64b", t, cls, tag="typed")
                    self.m("qb2", base64.urlsafe_b64decode(t), cls, tag="typed")
                    if code in CLASSES[cls]:
                        self.m("qb64", t + "AAAA", cls, tag="typed")
                        self.m("qb64", t[:-1], cls, tag="typed")
                        self.m("qb64", t[:-1] + "=", cls, tag="typed")
                        self.m("raw", raw[:-1], cls, code=code, tag="typed") if not big else None

    def given(self):
        """several forms at once, of different primitives, with and without a code"""
        r = self.r
        everywhere = {**CLASSES, "base": list(MATTER)}
        for cls, codes in everywhere.items():
            for i in range(60 if self.th else 16):
                kw = {}
                picks = r.sample(["raw", "qb64b", "qb64", "qb2"], r.choice([1, 2, 2, 3, 4]))
                for via in picks:
                    code = r.choice(codes) if r.random() < 0.7 else r.choice(list(MATTER))
                    raw = any_raw(r, code)
                    t = text_of(code, raw)
                    if r.random() < 0.15:
                        t = t[:-1]
                    if via == "raw":
                        kw["raw"] = L(raw)
                        if r.random() < 0.8:
                            kw["code"] = code
                    else:
                        kw[via] = L(t) if via != "qb2" else L(base64.urlsafe_b64decode(t + "=" * (-len(t) % 4) if len(t) % 4 != 1 else t[:-1]))
                if "raw" not in kw and r.random() < 0.5:
                    kw["code"] = r.choice(codes) if r.random() < 0.7 else r.choice(list(MATTER))
                if cls in ("number", "seqner", "dater", "diger") and r.random() < 0.5:
                    kw["val"] = r.choice([0, 1, 255, 65536, 2 ** 31 - 1])
                self.t.do("given", cls=cls, tag="given", **kw)

    def typed_indexed(self):
        """every indexed code, and codes of other kinds, handed to the indexed signature"""
        r = self.r
        for code, (hs, ss, os_, fs, ls) in INDEXER.items():
            for _ in range(3 if self.th else 1):
                ix = r.randrange(1, 20)
                od = 0 if code in ("B", "D", "F", "0B", "2B", "2D", "2F", "3B") or not os_ else ix
                raw = r.randbytes(idx_raw_size(code, ix))
                t = idx_text(code, ix, od, raw)
                for cls in ("siger", "siger", "base"):
                    self.i("raw", raw, cls, code=code, index=ix, ondex=[], tag="idx-typed")
                    self.i("qb64", t, cls, tag="idx-typed")
                    self.i("qb64b", t, cls, tag="idx-typed")
                    self.i("qb2", base64.urlsafe_b64decode(t), cls, tag="idx-typed")
        for code in MATTER:
            t = text_of(code, any_raw(r, code))
            self.i("qb64", t, "siger", tag="idx-other")
            self.i("qb2", base64.urlsafe_b64decode(t), "siger", tag="idx-other")

    def names(self):
        """the codes by the names the library offers them under"""
        r = self.r
        for n in ("matter", "indexer", "sig", "current", "both", "counter"):
            self.t.do("names", table=n, codes=[], tag="names")
        some = sorted({"", "M", "0H", "N", "0A", "A", "0", "H", "0M", "MM", "m", "n", "0h", "0a", "0B", "1AAF", "R"})
        self.t.do("names", table="number", codes=r.sample(some, len(some)), tag="names")

    def tiers(self):
        self.t.do("names", table="tier", codes=[], tag="names")

    def typed_mutated(self):
        """damaged text and binary handed to the typed constructors"""
        r = self.r
        for cls in CLASSES:
            for code in CLASSES[cls]:
                hs, ss, fs, ls = MATTER[code]
                cs = hs + ss
                for _ in range(3 if self.th else 2):
                    raw = any_raw(r, code)
                    t = text_of(code, raw)
                    for p in sorted(set(range(min(len(t), cs + 2))) | {len(t) - 1, r.randrange(len(t))}):
                        for c in r.sample(NASTY, 2) + r.sample(A64, 2) + ["_", "A"]:
                            if c != t[p]:
                                x = t[:p] + c + t[p + 1:]
                                self.m(r.choice(["qb64", "qb64b"]), x, cls, tag="typed-mutate")
                                if c in A64:
                                    self.m("qb2", base64.urlsafe_b64decode(x), cls, tag="typed-mutate")
                    for k in (1, 2, 3):
                        self.m("qb64", t[:-k] + "=" * k, cls, tag="typed-pad")
                        self.m("qb64b", t[:-k], cls, tag="typed-cut")
                        self.m("qb2", base64.urlsafe_b64decode(t)[:-k], cls, tag="typed-cut")

    # --------------------------------------------------------------------------- indexed signatures
    def i(self, via, data, cls="base", tag="", **kw):
        d = L(data)
        if via == "qb64b":
            try:
                bytes(d).decode()
                kw["utf8"] = True
            except UnicodeDecodeError:
                kw["utf8"] = False
        if cls == "siger" and self.r.random() < 0.5:
            kw["by"] = self.key()
        return self.t.do("indexer", cls=cls, via=via, data=d, tag=tag, **kw)

    def indexes(self, code):
        hs, ss, os_, fs, ls = INDEXER[code]
        lim = 64 ** (ss - os_)
        if fs is VAR:
            return [0, 1, 2, 5, 22, 63, 64, 65, 4095, 4096, 5000]
        return sorted({0, 1, 2, 3, 5, 62, 63, 64, 65, 127, 128, lim // 2, lim - 2, lim - 1, lim, lim + 1, 4095, 4096,
                       262143, 262144, 2 ** 31 - 1} if not self.th else
                      set(range(0, 70)) | {127, 128, lim - 2, lim - 1, lim, lim + 1, 4095, 4096, 262143, 262144,
                                           2 ** 31 - 1})

    def indexers(self):
        r = self.r
        for code, (hs, ss, os_, fs, ls) in INDEXER.items():
            olim = 64 ** os_ if os_ else 64
            for cls in ("base", "siger"):
                for ix in self.indexes(code):
                    if fs is VAR and ix > 70 and r.random() < 0.5:
                        n = 8
                    else:
                        n = idx_raw_size(code, min(ix, 6000))
                    ods = [None, ix, 0, 1, olim - 1, olim]
                    for od in (ods if (self.th or ix < 4) else r.sample(ods, 2) + [None]):
                        self.i("raw", r.randbytes(max(n, 0)), cls, code=code, index=ix,
                               ondex=[] if od is None else [od], tag="idx-raw")
                for n in (0, 1, 5):
                    self.i("raw", r.randbytes(max(0, idx_raw_size(code, 1) - n - 1)), cls, code=code, index=1, ondex=[],
                           tag="idx-short")
                    self.i("raw", r.randbytes(idx_raw_size(code, 1) + n), cls, code=code, index=1, ondex=[],
                           tag="idx-long")
                lim = 64 ** (ss - os_)
                for ix in [x for x in self.indexes(code) if x < lim and not (fs is VAR and x > 70)]:
                    for od in ([0] if os_ == 0 else sorted({0, 1, ix % olim, olim - 1, r.randrange(olim)})):
                        t = idx_text(code, ix, od, r.randbytes(idx_raw_size(code, ix)))
                        tail = r.choice(TAILS)
                        self.i("qb64", t + tail, cls, tag="idx-decode")
                        self.i("qb64b", t + r.choice(TAILS), cls, tag="idx-decode")
                        self.i("qb2", base64.urlsafe_b64decode(t) + r.randbytes(r.randrange(3)), cls, tag="idx-decode")

    def indexers_mutated(self):
        r = self.r
        for code, (hs, ss, os_, fs, ls) in INDEXER.items():
            for _ in range(3 if self.th else 1):
                ix = r.randrange(1, 20)
                od = 0 if code in ("B", "D", "F", "0B", "2B", "2D", "2F", "3B") or not os_ else r.randrange(64 ** os_)
                t = idx_text(code, ix, od, r.randbytes(idx_raw_size(code, ix)))
                cs = hs + ss
                pos = set(range(min(len(t), cs + 4))) | {len(t) - 1} | {r.randrange(len(t)) for _ in range(2)}
                for p in sorted(pos):
                    for c in r.sample(NASTY, 3) + r.sample(A64, 3) + ["A", "B", "_", "="]:
                        if p < len(t) and c != t[p]:
                            x = t[:p] + c + t[p + 1:]
                            self.i(r.choice(["qb64", "qb64b"]), x, tag="idx-mutate")
                            if c in A64 and r.random() < 0.5:
                                self.i("qb2", base64.urlsafe_b64decode(x), tag="idx-mutate")
                for p in range(cs, min(cs + 3, len(t))):
                    v = A64.index(t[p])
                    for b in range(6):
                        x = t[:p] + A64[v ^ (1 << b)] + t[p + 1:]
                        self.i("qb64", x, tag="idx-flip")
                        self.i("qb2", base64.urlsafe_b64decode(x), tag="idx-flip")
                for k in sorted({0, 1, 2, 3, 4, 5, 6, 7, 8, len(t) - 1, len(t) - 2, len(t) - 4}):
                    if 0 <= k < len(t):
                        self.i("qb64", t[:k], tag="idx-cut")
                        self.i("qb64b", t[:k], tag="idx-cut")
                b = base64.urlsafe_b64decode(t)
                for k in sorted({0, 1, 2, 3, 4, 5, 6, len(b) - 1, len(b) - 3}):
                    if 0 <= k < len(b):
                        self.i("qb2", b[:k], tag="idx-cut")
                for k in (1, 2):
                    self.i("qb64", t[:-k] + "=" * k, tag="idx-pad-char")
        body = enc(bytes(150))
        for c in [chr(c) for c in range(1, 128)] + ["\u00e9", "\u20ac"]:
            self.i("qb64", c + body, tag="idx-start")
        for c in range(256):
            self.i("qb2", bytes([c]) + bytes(150), tag="idx-start")
        for d in "01234":
            for c in (A64 if self.th else list("ABCDEFGHz") + r.sample(A64, 8)):
                self.i("qb64", d + c + "AAAA" + body, tag="idx-start")

    # ---------------------------------------------------------------------------------- count codes
    def counters(self):
        r = self.r
        t = self.t
        for code, (hs, ss) in COUNTER.items():
            lim = 64 ** ss
            counts = sorted({0, 1, 2, 10, 63, 64, 65, 1024, 4095, 4096, 262143, 262144, lim - 1, lim, lim + 1, 2 ** 30 - 1,
                             2 ** 31 - 1} | {r.randrange(lim) for _ in range(10 if self.th else 4)})
            for n in counts:
                if n < 2 ** 31:
                    t.do("counter", via="code", code=code, count=n, tag="cnt-code")
                if n < lim:
                    x = code + b64(n, ss)
                    b = base64.urlsafe_b64decode(x)
                    t.do("counter", via="qb64", data=L(x + r.choice(TAILS)), tag="cnt-decode")
                    t.do("counter", via="qb64b", data=L(x + r.choice(TAILS)), tag="cnt-decode", utf8=True)
                    t.do("counter", via="qb2", data=L(b + r.randbytes(r.randrange(3))), tag="cnt-decode")
                    t.do("counter", via="b64", code=code, count=L(b64(n, ss)), tag="cnt-b64")
                    # written in other widths, down to none but the digits it needs
                    for w in (1, 2, 3, 4, 6, 7, 10, 11, 12):
                        if n < 64 ** w:
                            t.do("counter", via="b64", code=code, count=L(b64(n, w)), tag="cnt-width")
                    # beyond any count, with a value that is one again in 32 or 64 bits
                    for big in (n + 2 ** 30, n + 2 ** 32, n + 2 ** 36, n + 2 ** 60, n + 2 ** 64, (n << 36) + n, 2 ** 66 + n):
                        t.do("counter", via="b64", code=code, count=L(b64(big, 12)), tag="cnt-width")
                    for ln in (0, ss, ss + 1):
                        t.do("countb64", code=code, count=n, len=ln, tag="cnt-b64")
            t.do("counter", via="default", code=code, tag="cnt-code")
            x = code + b64(r.randrange(1, lim), ss)
            for p in range(len(x)):
                for c in r.sample(NASTY, 4) + r.sample(A64, 6) + ["A", "-", "0"]:
                    y = x[:p] + c + x[p + 1:]
                    t.do("counter", via="qb64", data=L(y + "AAAA"), tag="cnt-mutate")
                    if c in A64:
                        t.do("counter", via="qb2", data=L(base64.urlsafe_b64decode(y + "AAAA")), tag="cnt-mutate")
            for k in range(len(x)):
                t.do("counter", via="qb64", data=L(x[:k]), tag="cnt-cut")
                t.do("counter", via="qb64b", data=L(x[:k]), tag="cnt-cut", utf8=True)
            b = base64.urlsafe_b64decode(x)
            for k in range(len(b)):
                t.do("counter", via="qb2", data=L(b[:k]), tag="cnt-cut")
        for c in A64 + "=~ ":
            t.do("counter", via="qb64", data=L("-" + c + "AAAAAAAA"), tag="cnt-start")
            t.do("counter", via="qb64", data=L(c + "AAAAAAAAA"), tag="cnt-start")
        for y in ["\u00e9", "-\u00e9AA", "-A\u00e9A", "--\u20acA", "-0\u00e9AAAAA", "--AA\u00e9AA"]:
            t.do("counter", via="qb64", data=L(y), tag="cnt-start")
        for c in ["", "-", "-M", "-Z", "-0W", "--AAB", "A", "\u00e9"]:
            t.do("counter", via="code", code=c, count=1, tag="cnt-code")
        for c in range(0, 256, 3):
            t.do("counter", via="qb2", data=[c, r.randrange(256), r.randrange(256), 0, 0, 0], tag="cnt-start")

    def semvers(self):
        r = self.r
        t = self.t
        vals = [0, 1, 9, 10, 63]
        for a in vals:
            for b in vals:
                for c in vals:
                    t.do("semver", str=L(f"{a}.{b}.{c}"), want=[a, b, c], tag="semver")
        vals = [0, 1, 2, 26, 62, 63, 64, 127, 128, 255]
        for a in vals:
            for b in r.sample(vals, 4):
                c = r.choice(vals)
                t.do("semver", parts=[a, b, c], want=[a, b, c], tag="semver")
                t.do("semver", str=L(f"{a}.{b}.{c}"), want=[a, b, c], tag="semver")
        for s, w in [("1", [1, 0, 0]), ("1.2", [1, 2, 0]), ("", [0, 0, 0]), (".", [0, 0, 0]), (".3", [0, 3, 0]),
                     ("1..3", [1, 0, 3]), ("..5", [0, 0, 5]), ("1.2.3.4", [64]), ("-1.0.0", [64]), ("a.b.c", [64]),
                     ("1.0.x", [64]), ("300.0.0", [64]), ("1.2.3.", [64])]:
            t.do("semver", str=L(s), want=w, tag="semver")
