"""Generators for key event messages and credentials: as bytes and as field maps, well formed and not."""
import base64
from .docgen import *
from .cesrgen import CLASSES, any_raw, text_of as qual
from .tholdgen import Tholds

DIGS = CLASSES["diger"]
KEYC = CLASSES["verfer"]
EST = ["icp", "rot", "dip", "drt"]
ILKS = EST + ["ixn", "rct", "exn", "rpy", "qry", "vcp", "iss", "rev", "ICP", "", "icpx", "ic", "rots"]


class Msgs:
    def __init__(self, t, rng, deep=False):
        self.t, self.rng, self.n = t, rng, 4 if deep else 1
        self.th = Tholds(t, rng)

    def prim(self, codes):
        c = self.rng.choice(codes)
        return qual(c, any_raw(self.rng, c))

    def sn(self):
        r = self.rng
        return r.choice(["0", "1", "a", "f", "10", "ff", "0001", "00", "100", "ffff", "10000", "DEAD", "aBc", "ffffffff", "100000000",
                         "ffffffffffffffff", "10000000000000000", "f" * 32, "0" * 20 + "1", "%x" % r.randrange(1 << 20)])

    def thold(self):
        r = self.rng
        k = r.random()
        if k < 0.4:
            return S("%x" % r.choice([0, 1, 2, 3, 10, 16, 255]))
        if k < 0.5:
            return I(r.choice([0, 1, 2, 3, 12]))
        if k < 0.8:
            return A(S(x) for x in self.th.ok_clause())
        return A(A(S(x) for x in self.th.ok_clause()) for _ in range(r.randrange(1, 3)))

    def event(self, ilk=None, dig="E"):
        r = self.rng
        ilk = ilk or (r.choice(EST) if r.random() < 0.6 else r.choice(ILKS))
        ps = [("t", S(ilk)), ("d", S("")), ("i", S(self.prim(KEYC + DIGS))), ("s", S(self.sn()))]
        if ilk in EST or r.random() < 0.3:
            if ilk in ("rot", "drt"):
                ps.append(("p", S(self.prim(["E"]))))
            ps += [("kt", self.thold()), ("k", A(S(self.prim(KEYC)) for _ in range(r.randrange(4)))),
                   ("nt", self.thold()), ("n", A(S(self.prim(DIGS)) for _ in range(r.randrange(4)))),
                   ("bt", S("0")), ("b", A(S(self.prim(KEYC)) for _ in range(r.randrange(3)))), ("c", A([])), ("a", A([]))]
        if ilk == "ixn":
            ps += [("p", S(self.prim(["E"]))), ("a", A(rand_obj(r, 2, 3) for _ in range(r.randrange(3))))]
        if r.random() < 0.25:
            ps.append(("f", S(self.prim(CLASSES["number"]))))
        if r.random() < 0.2:
            ps.append((r.choice(["x", "extra", "é"]), rand_doc(r, 2)))
        if r.random() < 0.15:
            r.shuffle(ps)
        return self.seal(O(("v", S("KERI10JSON000000_")), *ps), dig)

    def cred(self, dig="E"):
        r = self.rng
        ps = [("d", S("")), ("i", S(self.prim(["E", "B", "D"])))]
        if r.random() < 0.6:
            ps.append(("ri", S(self.prim(["E"]))))
        ps.append(("s", S(self.prim(["E"]))))
        if r.random() < 0.85:
            ps.append(("a", rand_obj(r, 2, 4) if r.random() < 0.8 else rand_doc(r, 2)))
        if r.random() < 0.5:
            ps.append(("e", rand_obj(r, 2, 3) if r.random() < 0.8 else rand_doc(r, 2)))
        if r.random() < 0.3:
            ps.append(("r", A([])))
        return self.seal(O(("v", S("ACDC10JSON000000_")), *ps), dig)

    def seal(self, d, dig):
        x = self.t.plain("saidify", doc=d, code=dig)
        return x["doc"] if x.get("ok") else put(d, "d", S(self.prim([dig])))

    def give(self, op, tag, doc=None, data=None, **kw):
        if data is not None:
            return self.t.do(op, tag, via="raw", data=list(data), **kw)
        return self.t.do(op, tag, via="ked", doc=doc, **kw)

    # ---------------------------------------------------------------------- both kinds
    def good(self, op, make):
        r = self.rng
        for i in range(70 * self.n):
            dig = "E" if r.random() < 0.6 else r.choice(DIGS)
            d = make(dig=dig)
            kw = {} if dig == "E" and r.random() < 0.7 else {"code": dig}
            x = self.give(op, "good", d, **kw)
            raw = bytes(x["raw"]) if x.get("ok") else ser(d).encode()
            self.give(op, "good", data=raw, **kw)
            tail = r.choice([b"", b"A", b"-AABAA" + b"x" * 86, b"{", raw, b"\xff\xfe", b"}", b"\n", "é".encode()[:1]])
            self.give(op, "followed", data=raw + tail, **kw)
            # the true length, spelled with blanks
            v = bytes(get(d, "v")["v"])
            rest = drop(d, "v")
            t = b'{' + r.choice([b"", b" ", b"\n  "]) + b'"v"' + r.choice([b"", b" "]) + b':"' + v + b'"' + r.choice([b"", b" ", b"\n"])
            t += b"," + text_of(r, rest, True).strip()[1:].encode() + r.choice([b"", b" ", b"\n\t"])
            t = t.replace(v, v[:10] + b"%06x_" % len(t), 1)
            self.give(op, "loose", data=t + tail, **kw)
            if r.random() < 0.4:
                self.give(op, "othercode", d, code=r.choice(DIGS))
                self.give(op, "othercode", data=raw, code=r.choice(DIGS))
            # the size it should have, written wrongly
            if x.get("ok"):
                for n in {0, 1, len(raw) - 1, len(raw) + 1, len(raw) + 2, 0xffffff, r.randrange(1 << 24)} if r.random() < 0.4 else {len(raw) + 1, len(raw) - 1}:
                    z = raw.replace(b"JSON%06x_" % len(raw), b"JSON%06x_" % n, 1)
                    self.give(op, "size", data=z, **kw)
                    self.give(op, "size", data=z + b"}", **kw)
                    if n > len(raw):
                        self.give(op, "size", data=z + r.choice([b"  ", b"\n\n", b" x", b"  \t"]), **kw)
                self.give(op, "kedsize", put(d, "v", S(bytes(get(d, "v")["v"])[:10] + b"000000_")), **kw)
                self.give(op, "kedsize", put(d, "v", S(bytes(get(d, "v")["v"])[:10] + b"00ffff_")), **kw)
                for cut in {r.randrange(len(raw)), len(raw) - 1}:
                    self.give(op, "cut", data=raw[:cut], **kw)

    def bad(self, op, make):
        r = self.rng
        for i in range(25 * self.n):
            d = make()
            v = bytes(get(d, "v")["v"]).decode()
            raw = ser(d)
            for w in [v.replace("KERI", "XXXX").replace("ACDC", "XXXX"), v.replace("KERI", "ACDC") if "KERI" in v else v.replace("ACDC", "KERI"),
                      v[:4] + r.choice(["11", "20", "00", "01", "1f"]) + v[6:], v[:6] + r.choice(["CBOR", "MGPK", "CESR", "json"]) + v[10:],
                      v[:16], v + "x", "x" + v, v.lower(), v[:10] + v[10:16].upper() + "_", ""]:
                self.give(op, "version", put(d, "v", S(w)))
                self.give(op, "version", data=raw.replace(v, w, 1).encode())
            self.give(op, "version", drop(d, "v"))
            self.give(op, "version", data=ser(drop(d, "v")).encode())
            self.give(op, "version", put(d, "v", r.choice([NULL, I(1), A([S(v)]), B(True)])))
            self.give(op, "kind", d, kind=bs(r.choice(["JSON", "CBOR", "MGPK", "", "json"])))
            # identifier missing or of no digest family
            for x in [None, NULL, I(5), S(""), S("x"), S("#" * 44), S(self.prim(KEYC)), S(self.prim(["0A", "M", "1AAG", "0B"])),
                      S(bytes(get(d, "d")["v"])[:-1]), S(bytes(get(d, "d")["v"]) + b"A"), A([get(d, "d")])]:
                y = drop(d, "d") if x is None else put(d, "d", x)
                self.give(op, "identifier", y)
                s = self.t.plain("sizeify", doc=y)
                if s.get("ok"):
                    self.give(op, "identifier", data=s["raw"])
        for x in [b"", b"{}", b"null", b"[]", b"\"KERI10JSON00001d_          \"", b"KERI10JSON00001d_            ", b"\xff" * 40, b"{" * 60]:
            self.give(op, "nomessage", data=x)
        for x in [NULL, O(), A([]), S("KERI10JSON000000_"), I(0), B(True)]:
            self.give(op, "nomessage", x)

    def damaged(self, op, make):
        r = self.rng
        for _ in range(100 * self.n):
            b = bytearray(ser(make()).encode())
            for _ in range(r.choice([1, 1, 2, 3])):
                i = r.randrange(len(b))
                k = r.randrange(3)
                if k == 0:
                    b[i] ^= 1 << r.randrange(8)
                elif k == 1:
                    b[i] = r.choice(b"{}[],:\"\\019-.eEtfn A_\x00\xff")
                else:
                    b[i:i + 1] = b""
            self.give(op, "damaged", data=bytes(b))

    def odd(self, op, make, labels):
        """a field with a value of another kind than it should have"""
        r = self.rng
        vals = [None, NULL, B(True), I(0), I(-1), F("1.5"), S(""), S("x"), S("é"), A([]), A([S("x")]), A([NULL]), A([I(1), S("x")]), O(), O(("a", I(1))),
                A([A([])]), S("g"), S("-1"), S("0x1"), S("1 "), S("f" * 33), S("1" + "0" * 32), S("0" * 40), S("[\"1\"]"), S("1/2"), A([S("1/2")])]
        for lab in labels:
            for v in vals:
                d = make()
                y = drop(d, lab) if v is None else put(d, lab, v)
                self.give(op, "odd", y)
            for codes in (KEYC, DIGS, ["0A"], ["M", "N", "0H"], ["4A"], ["A", "0B"]):
                d = make()
                q = S(self.prim(codes))
                for v in (q, A([q]), A([q, q]), A([q, S("")]), A([S(bytes(q["v"])[:-1])]), A([S(bytes(q["v"]) + b"A")]), A([I(1), q])):
                    self.give(op, "odd", put(d, lab, v))

    def serders(self):
        self.good("serder", self.event)

    def serders_bad(self):
        self.bad("serder", self.event)
        self.damaged("serder", self.event)

    def serders_odd(self):
        self.odd("serder", self.event, ["i", "s", "t", "k", "n", "b", "kt", "nt", "f", "p", "a"])

    def serders_types(self):
        """every type name, and near misses of the establishment ones"""
        r = self.rng
        ilks = list(ILKS) + [a + b + c for a in "idrx" for b in "circo" for c in "pttn"]
        for k in ilks:
            self.give("serder", "type", self.event(k))
        for n in range(0, 130, 1 if self.n > 1 else 3):
            self.give("serder", "sn", put(self.event(), "s", S("%x" % (1 << n if n < 128 else (1 << 128) - 129 + n))))
            if n < 128:
                b = (r.randrange(1 << n) | 1 << n)
                for c, w in (("M", 2), ("0H", 4), ("N", 8), ("0A", 16)):
                    if b < 1 << (8 * w):
                        self.give("serder", "fn", put(self.event(), "f", S(qual(c, b.to_bytes(w, "big")))))

    def names(self):
        for n in ("ilk", "field", "protocol", "kind"):
            self.t.do("names", table=n, codes=[], tag="names")

    def held(self, op, make, proto):
        """one object made to hold several messages in turn"""
        r = self.rng
        for _ in range(60 * self.n):
            dig = "E" if r.random() < 0.6 else r.choice(DIGS)
            kw = {} if dig == "E" and r.random() < 0.7 else {"code": dig}
            steps = []
            for _ in range(r.choice([1, 1, 2, 3, 5])):
                k = r.random()
                if k < 0.15:
                    steps.append({"via": "sad", **({"code": r.choice(DIGS)} if r.random() < 0.5 else {})})
                    continue
                if k < 0.3:
                    steps.append({"via": "kind", "kind": bs(r.choice(["JSON"] * 4 + ["CBOR", "MGPK", ""]))})
                    continue
                d = make(dig=dig if r.random() < 0.93 else r.choice(DIGS))
                if k < 0.65:
                    steps.append({"via": "ked", "doc": d, **({"kind": bs("JSON")} if r.random() < 0.3 else {})})
                else:
                    raw = ser(d).encode()
                    if r.random() < 0.4:
                        raw = b"{ " + raw[1:-1] + b"\n}"
                        v = bytes(get(d, "v")["v"])
                        raw = raw.replace(v, v[:10] + b"%06x_" % len(raw), 1)
                    x = r.random()
                    raw = raw[:-1] if x < 0.05 else raw + b"{" if x < 0.2 else raw
                    steps.append({"via": "raw", "data": list(raw)})
            d = make(dig=dig)
            if r.random() < 0.5:
                self.give(op, "held", d, then=steps, **kw)
            else:
                self.give(op, "held", data=ser(d).encode(), then=steps, **kw)

    def serders_held(self):
        self.held("serder", self.event, "KERI")

    def creders_held(self):
        self.held("creder", self.cred, "ACDC")

    def many(self):
        """lists of many members, the same one repeatedly, and large anchors"""
        r = self.rng
        for n in [9, 10, 11, 16, 17, 33, 65] * self.n:
            d = self.event(r.choice(EST))
            ks = [self.prim(KEYC) for _ in range(n)]
            ds = [self.prim(DIGS) for _ in range(n)]
            k = r.randrange(3)
            if k == 0:
                ks[-1] = ks[0]
                ds[r.randrange(n)] = ds[r.randrange(n)]
            if k == 1:
                r.shuffle(ks)
                ks += ks[:3]
                ds += ds
            for lab, v in (("k", ks), ("n", ds), ("b", ks)):
                y = put(d, lab, A(S(x) for x in v))
                x = self.give("serder", "many", y)
                if x.get("ok"):
                    self.give("serder", "many", data=bytes(x["raw"]) + b"-AAB")
                v = list(v)
                v[r.randrange(len(v))] = r.choice(["", ks[0][:-1], self.prim(["0A", "M"]), "x"])
                self.give("serder", "many", put(d, lab, A(S(x) for x in v)))
        for n in [4000, 4096, 65400, 65536]:
            for op, make in (("serder", self.event), ("creder", self.cred)):
                d = put(make(), "a", A(S("x" * (n // 8)) for _ in range(8)))
                x = self.give(op, "large", d)
                if x.get("ok"):
                    self.give(op, "large", data=bytes(x["raw"]) + b"{}")

    def creders(self):
        self.good("creder", self.cred)

    def creders_bad(self):
        self.bad("creder", self.cred)
        self.damaged("creder", self.cred)

    def creders_odd(self):
        self.odd("creder", self.cred, ["i", "s", "a", "ri", "e", "r"])

    def crossed(self):
        """credentials given as events and events as credentials"""
        for _ in range(20 * self.n):
            a, b = self.event(), self.cred()
            self.give("creder", "crossed", a)
            self.give("serder", "crossed", b)
            self.give("creder", "crossed", data=ser(a).encode())
            self.give("serder", "crossed", data=ser(b).encode())
