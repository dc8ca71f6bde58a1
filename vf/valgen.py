"""Generators for numbers, sequence numbers, date-times and texts."""
import base64, datetime
from .docgen import bs
from .cesrgen import A64, Cesr, CLASSES, MATTER, any_raw, enc, text_of as qual


class Vals:
    def __init__(self, t, rng, deep=False):
        self.t, self.rng, self.n = t, rng, 4 if deep else 1
        self.c = Cesr(t, rng, deep)

    def ints(self):
        r = self.rng
        out = set()
        for k in range(0, 129):
            out |= {(1 << k) - 1, 1 << k, (1 << k) + 1}
        for k in range(1, 17):
            out |= {(1 << 8 * k) - 2, 255 << 8 * (k - 1), 0x5a << 8 * (k - 1)}
        for _ in range(40 * self.n):
            out.add(r.randrange(1 << r.randrange(1, 129)))
        return sorted(x for x in out if 0 <= x < 1 << 128)

    def back(self, cls, x):
        """what was made, read from text and from binary"""
        if not x.get("ok"):
            return
        tail = self.rng.choice([[], [65], [45, 65, 65, 66]])
        self.t.do("matter", "back", cls=cls, via="qb64", data=x["qb64"] + tail)
        self.t.do("matter", "back", cls=cls, via="qb64b", data=x["qb64"] + tail, utf8=True)
        self.t.do("matter", "back", cls=cls, via="qb2", data=x["qb2"] + tail)

    def numbers(self):
        t, r = self.t, self.rng
        for op, cls in (("number", "number"), ("seqner", "seqner")):
            t.do(op, "none", via="none")
            for n in self.ints():
                x = t.do(op, "value", via="num", num=list(n.to_bytes(16, "big")))
                if r.random() < 0.4:
                    self.back(cls, x)
                h = "%x" % n
                t.do(op, "hex", via="numh", numh=bs(r.choice([h, h.upper(), "0" * r.randrange(1, 40) + h])))
            for h in ["", "0", "00", "g", "0x1", "-1", " 1", "1 ", "1.0", "1_0", "f" * 33, "1" + "0" * 32, "1" + "f" * 32, "f" * 64, "\u0661",
                      "\u00e9", "ff\n", "h", "G", "/", ":", "@", "`", "~", "0-1", "ab cd", "\x00", "1\x00"]:
                t.do(op, "malformed", via="numh", numh=bs(h))
        # a number handed in as material: exactly the raw size of its code, and any excess is cut off
        for code in CLASSES["number"]:
            hs, ss, fs, ls = MATTER[code]
            n = (fs - hs - ss) * 3 // 4
            for _ in range(12 * self.n):
                raw = bytes(n - (k := r.randrange(n + 1))) if r.random() < 0.3 else b""
                raw = raw + r.randbytes(n - len(raw))
                self.c.m("raw", raw, "number", code=code, tag="material")
                self.c.m("qb64", qual(code, raw), "number", tag="material")
                self.c.m("qb2", base64.urlsafe_b64decode(qual(code, raw)), "number", tag="material")
                self.c.m("qb64", qual(code, raw), "seqner", tag="material")
            for raw in (bytes(n), b"\xff" * n, b"\x00" * (n - 1) + b"\x01", b"\x80" + bytes(n - 1), bytes(n - 1), bytes(n + 1)):
                self.c.m("raw", raw, "number", code=code, tag="material")

    def dates(self):
        t, r = self.t, self.rng
        for _ in range(120 * self.n):
            d = datetime.datetime(r.randrange(1, 10000), r.randrange(1, 13), r.randrange(1, 29), r.randrange(24), r.randrange(60), r.randrange(60),
                                  r.choice([0, 1, 999999, r.randrange(1000000)]))
            off = r.choice(["+00:00", "-00:00", "+05:30", "-08:00", "+14:00", "-12:00", "+%02d:%02d" % (r.randrange(15), r.randrange(60))])
            s = "%04d-%02d-%02dT%02d:%02d:%02d.%06d" % (d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond) + off
            x = t.do("dater", "date", via="dts", dts=bs(s))
            if r.random() < 0.5:
                self.back("dater", x)
            if r.random() < 0.5:
                i = r.randrange(32)
                t.do("dater", "damaged", via="dts", dts=bs(s[:i] + r.choice("cdp:.+Zz_- /=\u00e9~,T") + s[i + 1:]))
            if r.random() < 0.3:
                t.do("dater", "length", via="dts", dts=bs(r.choice([s[:-1], s + "0", s[:26], s[:19] + "+00:00", s + s, s[1:], s[:31] + "=", "", s + ":", s + "\n", s[:-6] + "Z"])))
            if r.random() < 0.2:
                t.do("dater", "code", via="dts", dts=bs(s), code=r.choice(["1AAG", "1AAG", "0A", "E", "1AAF", ""]))
        for _ in range(30 * self.n):
            raw = r.randbytes(24)
            q = qual("1AAG", raw)
            self.c.m("qb64", q, "dater", tag="material")
            self.c.m("raw", raw, "dater", code="1AAG", tag="material")
            self.c.m("qb2", base64.urlsafe_b64decode(q), "dater", tag="material")
        for _ in range(10):
            now = lambda: bs(datetime.datetime.now(datetime.timezone.utc).strftime("%Y-%m-%dT%H:%M:%S.%f") + "+00:00")
            b = now()
            t.do("dater", "now", via="now", before=b)
            t.events[-1]["after"] = now()

    def texts(self):
        t, r = self.t, self.rng
        some = ["", "A", "AA", "AAA", "AAAA", "AAAAA", "B", "-", "_", "a", "zz", "BAAA", "ABCD", "AAAB", "BBBBAAAA", "AAAAAAAA", "_AAA", "ABC", "-A-B"]
        for n in range(0, 14):
            for _ in range(4 * self.n):
                some.append("".join(r.choice(A64) for _ in range(n)))
                some.append("A" * r.randrange(n + 1) + "".join(r.choice(A64) for _ in range(n))[:n])
        some += ["".join(r.choice(A64) for _ in range(n)) for n in (63, 64, 100, 255, 256, 257, 1000)]
        for s in some:
            x = t.do("bexter", "text", bext=bs(s))
            self.back("bexter", x)
            if r.random() < 0.3:
                t.do("bexter", "code", bext=bs(s), code=r.choice(list(MATTER)))
        for c in list(MATTER):
            t.do("bexter", "code", bext=bs("aBc-_9"), code=c)
        for n in (16376, 16380, 16381, 16382, 16383, 16384, 16385, 16386, 16387, 16400):
            s = "".join(r.choice(A64) for _ in range(n))
            x = t.do("bexter", "long", bext=bs(s))
            if n > 16383:
                self.back("bexter", x)
        for s in ["=", "A=", "AA==", "+", "/", " ", "a b", "a\n", "\u00e9", "abc=", "a+b", "a.b", "~", "\x00", "AAAA\n", "a/b", "*"]:
            t.do("bexter", "malformed", bext=bs(s))
