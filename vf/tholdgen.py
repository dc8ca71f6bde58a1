"""Generators for signing thresholds."""
from fractions import Fraction
from .docgen import *


def w(x):
    return S(x)


class Tholds:
    def __init__(self, t, rng, deep=False):
        self.t, self.rng, self.n = t, rng, 3 if deep else 1

    # -------------------------------------------------------------------- shapes
    def weight(self):
        r = self.rng
        k = r.random()
        if k < 0.5:
            return r.choice(["1/2", "1/3", "2/3", "1/4", "3/4", "1/5", "1/6", "1", "0", "1/1", "0/1", "2/4", "3/6", "0/7",
                             "1/7", "5/7", "1/9", "9/9"])
        if k < 0.8:
            d = r.randrange(1, 64)
            return f"{r.randrange(0, d + 1)}/{d}"
        d = r.choice([r.randrange(1, 1 << 31), 2147483647, 2147483629, 65537, 46341, 99991, 1000000007, 1 << 30])
        n = r.choice([r.randrange(0, d + 1), d // 2, d // 2 + 1, d // 3, d // 3 + 1, d - 1, 1])
        return f"{min(n, d)}/{d}"

    def clause(self, n=None):
        r = self.rng
        k = r.random()
        n = n or r.choice([1, 2, 2, 3, 3, 4, 5, 6])
        if k < 0.25:        # equal parts, just enough or one too few
            m = r.choice([2, 3, 4, 5, 7, 10])
            return [f"1/{m}"] * r.choice([m, m + 1, m - 1, m, m])
        if k < 0.5:         # sums to exactly one, or misses it by very little
            d = r.choice([7, 12, 60, 97, 65537, 2147483647, 1000000007])
            parts, left = [], d
            for _ in range(n - 1):
                p = r.randrange(0, left + 1)
                parts.append(p)
                left -= p
            parts.append(left)
            if r.random() < 0.3:
                i = r.randrange(len(parts))
                parts[i] = max(0, parts[i] - 1)
            return [f"{p}/{d}" for p in parts]
        if k < 0.6:         # unlike denominators that sum to one or nearly so
            a = r.randrange(2, 40)
            return r.choice([[f"1/{a}", f"{a - 1}/{a}"], [f"1/{a}", f"{a * 7 - 7}/{a * 7}"], ["1/2", "1/3", "1/6"],
                             ["1/2", "1/3", "1/7", "1/42"], ["1/2", "1/3", "1/7", "1/43"], ["2/3", "1/4", "1/12"],
                             ["1/3", "1/3", "1/3"], ["333333333/1000000000", "333333333/1000000000", "333333334/1000000000"],
                             ["333333333/1000000000"] * 3, ["1073741824/2147483647", "1073741823/2147483647"],
                             ["715827882/2147483647", "715827882/2147483647", "715827883/2147483647"],
                             ["1/2147483647", "2147483645/2147483647"], ["1/2147483647", "2147483645/2147483646"]])
        return [self.weight() for _ in range(n)]

    def ok_clause(self):
        for _ in range(200):
            c = self.clause()
            try:
                if sum(Fraction(x) for x in c) >= 1 and all(Fraction(x) <= 1 for x in c):
                    return c
            except ZeroDivisionError:
                pass
        return ["1"]

    def sets(self, cls):
        """lists of signers around the border of satisfaction"""
        r = self.rng
        n = sum(len(c) for c in cls)
        out = [[], list(range(n)), list(range(n)) + [n, n + 1], [n], list(range(n))[::-1]]
        # a minimal satisfying set, and the same less one
        m, off = [], 0
        for c in cls:
            ix = list(range(len(c)))
            r.shuffle(ix)
            acc = Fraction(0)
            for i in ix:
                if acc >= 1:
                    break
                if Fraction(c[i]) > 0:
                    acc += Fraction(c[i])
                    m.append(off + i)
            off += len(c)
        out.append(m)
        for i in range(len(m)):
            out.append(m[:i] + m[i + 1:])
            out.append(m[:i] + m[i + 1:] + [m[(i + 1) % len(m)]])
        s = m + m
        r.shuffle(s)
        out.append(s)
        out.append([x + 1 for x in m])
        out.append(m[:-1] + [n, n + 3, 100, 65536, 2147483647, -1])
        for _ in range(6):
            out.append([r.randrange(0, n + 2) for _ in range(r.randrange(0, n + 3))])
        return out[:24]

    def give(self, via, tag, d=None, sets=None, **kw):
        if sets is not None:
            kw["sets"] = sets
        if via == "limen":
            return self.t.do("tholder", tag, via=via, data=d, **kw)
        return self.t.do("tholder", tag, via=via, doc=d, **kw)

    def both(self, cls, tag):
        """a weighted threshold in all the notations it can be given in"""
        r = self.rng
        nested = A(A(S(x) for x in c) for c in cls)
        try:
            sets = self.sets(cls)
        except (ValueError, ZeroDivisionError, IndexError):
            sets = [[], [0], [0, 1], [0, 1, 2]]
        x = self.give("sith", tag, nested, sets)
        self.give("thold", tag, nested, sets)
        if len(cls) == 1:
            self.give("sith", tag, A(S(x) for x in cls[0]), sets)
        t = ser(nested) if r.random() < 0.5 or len(cls) > 1 else ser(nested["v"][0])
        if r.random() < 0.5:
            t = t.replace(",", " , ").replace("]", " ]")
        self.give("sith", tag, S(t), sets)
        return x

    # ------------------------------------------------------------------- suites
    def weighted(self):
        for _ in range(45 * self.n):
            r = self.rng
            cls = [self.ok_clause() for _ in range(r.choice([1, 1, 1, 2, 2, 3]))]
            x = self.both(cls, "good")
            if x.get("ok") and x["limen"]["ok"]:
                self.give("limen", "good", x["limen"]["v"], self.sets(cls))
                if r.random() < 0.3:
                    self.give("limen", "good", x["limen"]["v"] + bs("MAAA"), [[]])
        for cls in [[["1"]], [["1", "0"]], [["0", "1"]], [["0", "0", "1"]], [["1"], ["1"]], [["0/1", "1/1"]], [["1"] * 5],
                    [["1/2"] * 64], [["1/3"] * 3] * 4, [["1/64"] * 64], [["1/100"] * 100], [["1/101"] * 100 + ["1/100"]]]:
            self.both(cls, "edge")

    def many(self):
        """more signers than fit small counters and bit sets"""
        r = self.rng
        def lists(n):
            full = list(range(n))
            out = [full, full[::-1]]
            for _ in range(3):
                x = r.choice([n - 1, 0, r.randrange(n), r.randrange(n)])
                less = full[:x] + full[x + 1:]
                out += [less, less + [x + 256], less + [x + 65536], less + [x + n], less + [r.choice(less)] * 3, less + less,
                        [y for y in full if y % 64 != x % 64], [y for y in full if y % 256 != x % 256]]
                r.shuffle(out[-1])
            return out
        for n in (33, 65, 129, 257, 300) if self.n > 1 else (65, 257):
            cls = r.choice([[[f"1/{n}"] * n], [["1"] + ["0"] * (n - 2) + ["1/2"]], [[f"1/{n - 1}"] * (n - 1), ["1"]], [["1"]] * n,
                            [["1"], [f"1/{n - 1}"] * (n - 1)], [["1/2", "1/2"]] * (n // 2) + [["1"]] * (n % 2)])
            nested = A(A(S(x) for x in c) for c in cls)
            self.give(r.choice(["sith", "thold"]), "many", nested, lists(n))
        for n in (32, 64, 128, 255, 256, 257, 300, 1000) if self.n > 1 else (64, 255, 256, 257):
            self.give("sith", "many", I(n), lists(n))
            self.give("sith", "many", I(n), [list(range(5, 5 + n)), list(range(n - 1)) + list(range(1, n)), [x * 256 for x in range(n)]])

    def malformed(self):
        r = self.rng
        for _ in range(30 * self.n):
            self.both([self.clause() for _ in range(r.choice([1, 2]))], "any")
        bad = ["", "2", "01", "00", "-1", "1/0", "0/0", "2/1", "3/2", "-1/2", "1/-2", "-1/-2", "1/2/3", "/", "1/", "/2", "1//2",
               "1.0", "0.5", "a", "1/2 ", " 1/2", "1 /2", "1/a", "0x1", "2147483648/2147483648", "1/2147483648", "1/4294967297",
               "4294967297/4294967298", "99999999999999999999/99999999999999999999", "1/99999999999999999999", "1s2", "1/1s1",
               "\u0661/\u0662", "1e0", "0/1/1", "1/2\n"]
        for x in bad:
            for ws in ([x], [x, "1"], ["1", x], ["1/2", x, "1/2"], [x] * 3):
                self.give(r.choice(["sith", "thold"]), "bad weight", A([A(S(y) for y in ws)]), [[0], [0, 1, 2]])
            self.give("sith", "bad weight", A([S("1"), S(x)]), [[0]])
            self.give("sith", "bad weight", S(ser(A([S(x), S("1")]))), [[0]])
        docs = [A([]), A([A([])]), A([A([]), A([S("1")])]), A([A([S("1")]), A([])]), A([S("1"), A([S("1")])]), A([A([S("1")]), S("1")]),
                A([A([A([S("1")])])]), A([I(1)]), A([A([I(1)])]), A([NULL]), A([F("0.5"), F("0.5")]), A([B(True)]), O(), NULL, B(True),
                B(False), F("1.0"), F("2.5"), O(("kt", S("1"))), A([O()]), S(""), S(" "), S("["), S("[]"), S("[[]]"), S("[1]"),
                S("[[\"1\"]"), S(" [\"1\"]"), S("[\"1\"] "), S("{}"), S("null"), S("\"1\""), S("1/2"), S("g"), S("0x2"), S("1 "), S(" 1"),
                S("2.0"), S("-1"), S("-f"), I(-1), I(-2147483648), I(-9223372036854775808), A([A([S("1/2")])]), A([S("1/2"), S("1/3")]),
                A([A([S("1")]), A([S("1/2")])]), A([A([S("1/2")]), A([S("1")])])]
        for d in docs:
            self.give("sith", "bad", d, [[], [0]])
            self.give("thold", "bad", d, [[], [0]])

    def numeric(self):
        r = self.rng
        ns = [0, 1, 2, 3, 4, 9, 10, 15, 16, 17, 255, 256, 65535, 65536, 65537, 16777215, 2147483647, 2147483648, 4294967295,
              4294967296, 4294967297, 9223372036854775807, 9223372036854775808, 18446744073709551615]
        ns += [r.randrange(1 << 32) for _ in range(4 * self.n)]
        for n in ns:
            m = min(n, 12)
            full = list(range(m))
            sets = [[], full, full[:-1], full + [full[-1]] if full else [0], full[:-1] + full[:1], [0] * m, [5] * (m + 1), full[::-1],
                    [x * 7 for x in full], full + [100], [2147483647, -1], [0, 1, 2, 2, 1, 0], [3, 3], [0, 0, 1]]
            self.give("sith", "int", I(n), sets)
            self.give("thold", "int", I(n), sets)
            self.give("sith", "hex", S("%x" % n), sets)
            self.give("sith", "hex", S("%X" % n), sets)
            self.give("sith", "hex", S("0" * r.randrange(1, 20) + "%x" % n), sets)
            for code, size in (("M", 2), ("0H", 4), ("N", 8), ("0A", 16)):
                if n < 1 << (8 * size):
                    q = self.t.plain("matter", cls="base", via="raw", code=code, data=list(n.to_bytes(size, "big")))
                    self.give("limen", "number", q["qb64"], sets)
        for n in (1 << 64, (1 << 128) - 1, 1 << 127, (1 << 64) + 1, 1 << 96):
            q = self.t.plain("matter", cls="base", via="raw", code="0A", data=list(n.to_bytes(16, "big")))
            self.give("limen", "number", q["qb64"], [[0]])
            self.give("sith", "hex", S("%x" % n), [[0]])

    def several(self):
        """one threshold object given in several notations at once"""
        r, t = self.rng, self.t
        pool = []
        for cls in [[["1/2", "1/2"]], [["1"], ["0", "1"]], [self.ok_clause(), self.ok_clause()], [["1/3"] * 4], [["1/2"]]]:
            nested = A(A(S(x) for x in c) for c in cls)
            q = t.plain("tholder", via="sith", doc=nested)
            pool.append((nested, nested, q["limen"]["v"] if q.get("ok") else bs("4AAB1s2c")))
        for n in (0, 1, 2, 3):
            q = t.plain("matter", cls="base", via="raw", code="M", data=list(n.to_bytes(2, "big")))
            pool.append((I(n), r.choice([I(n), S("%x" % n)]), q["qb64"]))
        sets = [[], [0], [1], [0, 1], [0, 1, 2], [2, 3], [0, 2], [0, 1, 2, 3, 4, 5]]
        t.do("tholder", "several", via="several", sets=sets)
        t.do("tholder", "several", via="several", limen=[], sets=sets)
        for _ in range(30 * self.n):
            a, b, c = r.choice(pool)[0], r.choice(pool)[2], r.choice(pool)[1]
            kw = {}
            k = r.choice([3, 5, 6, 7, 7, 1, 4])
            if k & 1:
                kw["thold"] = a
            if k & 2:
                kw["limen"] = b if r.random() < 0.85 else []
            if k & 4:
                kw["sith"] = c
            t.do("tholder", "several", via="several", sets=sets, **kw)

    def limens(self):
        """compact texts, well formed and not"""
        t, r = self.t, self.rng
        texts = ["1s2c1s2", "1s2c1s2a1c1", "1", "1c0", "0c1", "1s1", "1a1a1", "1s2c1s2c1s2", "1s3c1s3c1s3", "2s4c2s4", "0s5c1",
                 "1s2", "1s0", "2s1", "1s2s3", "c", "a", "s", "", "1c", "c1", "1a", "a1", "1cc1", "1aa1", "1s", "s1", "01", "2",
                 "1_2c1_2", "Acd", "A1c1", "AAAA", "1c1c1c1c1c1c1c1c1c1", "10s20c5s10", "1s2147483647c2147483646s2147483647",
                 "1s2147483648c1", "1s2c1s3", "1s2c1s3c1s6", "1A", "1s2c1s2A", "00001s00002c1s2", "1s2a1s2"]
        for x in texts:
            q = t.plain("bexter", via="bext", bext=bs(x)) if x else {"ok": False}
            if q.get("ok"):
                self.give("limen", "text", q["qb64"], [[], [0], [0, 1], [0, 1, 2], [1, 2, 3]])
                b = list(q["qb64"])
                i = r.randrange(len(b))
                b[i] = ord(r.choice("AB019sca-_/ "))
                self.give("limen", "damaged", b, [[0]])
                self.give("limen", "cut", q["qb64"][:r.randrange(len(q["qb64"]))], [[0]])
                for code in ("4B", "4C", "4D", "5B", "6B", "7AAB"):
                    pass
        for x in ["", "M", "MA", "MAA", "MAAA", "MAAB", "MAAC", "0HAAAAAC", "NAAAAAAAAAAC", "0A", "0AAAAAAAAAAAAAAAAAAAAAAC", "-AAB", "_",
                  "4", "4A", "4AA", "4AAA", "4AAAA", "4AAB", "E" + "A" * 43, "4BAA", "5BAA", "!AAA", "\u00e9", "\u20acAAA", "0", "1AAA",
                  "6AABAAA1", "4AAB1s2c", "5AABA1c1", "4AABAc1c"]:
            self.give("limen", "edge", bs(x), [[0]])
        self.give("limen", "edge", [255, 254, 65, 65], [[0]])
