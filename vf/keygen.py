"""Generators for digests, prefixes and paths."""
from .docgen import *
from .cesrgen import A64, CLASSES, MATTER, any_raw, text_of as qual, raw_size
from .msggen import Msgs

DIGS, KEYC = CLASSES["diger"], CLASSES["verfer"]


class Digs:
    def __init__(self, t, rng, deep=False):
        self.t, self.rng, self.n = t, rng, 5 if deep else 1

    def data(self):
        r = self.rng
        k = r.random()
        if k < 0.2:
            return b""
        if k < 0.5:
            return r.randbytes(r.randrange(1, 40))
        if k < 0.8:
            # around the block sizes of the algorithms
            return r.randbytes(max(0, r.choice([63, 64, 65, 71, 72, 73, 127, 128, 129, 135, 136, 137, 1023, 1024, 1025]) + r.randrange(-1, 2)))
        return ser(rand_obj(r, 2, 4)).encode()

    def near(self, d):
        """data that is almost the same"""
        r = self.rng
        if not d:
            return r.choice([b"\x00", b" ", b"\n"])
        i = r.randrange(len(d))
        return r.choice([d + b"\x00", d[:-1], d[1:], b"\x00" + d, d[:i] + bytes([d[i] ^ (1 << r.randrange(8))]) + d[i + 1:], d + d, b"", d[::-1] + b"!"])

    def large(self):
        """data that takes many blocks, and its like that differs far from the start"""
        t, r = self.t, self.rng
        for n in (4095, 8192, 65535, 65536, 65537, 200000) if self.n > 1 else (4096, 16385, 65537):
            d = r.randbytes(n)
            for c in r.sample(DIGS, 4 if n < 20000 else 2):
                x = t.do("diger", "large", ser=list(d), code=c)
                if not x.get("ok"):
                    continue
                for e in (d, d[:-1] + bytes([d[-1] ^ 1]), d[:n // 2] + bytes([d[n // 2] ^ 128]) + d[n // 2 + 1:], d[:-1]):
                    t.do("digver", "large", dig=x["qb64"], ser=list(e))

    def digests(self):
        t, r = self.t, self.rng
        for _ in range(8 * self.n):
            for c in DIGS:
                d = self.data()
                x = t.do("diger", "made", ser=list(d), code=c)
                if not x.get("ok"):
                    continue
                q = x["qb64"]
                t.do("digver", "own", dig=q, ser=list(d))
                t.do("digver", "near", dig=q, ser=list(self.near(d)))
                b = bytearray(q)
                i = r.randrange(len(b))
                b[i] = ord(r.choice(A64))
                t.do("digver", "damaged", dig=list(b), ser=list(d))
                # the same material under another algorithm's code
                same = [k for k in DIGS if raw_size(k) == raw_size(c) and k != c]
                t.do("digver", "relabelled", dig=bs(qual(r.choice(same), bytes(x["raw"]))), ser=list(d))
                for o in r.sample(DIGS, 3) + [c]:
                    e = d if r.random() < 0.6 else self.near(d)
                    y = t.plain("diger", ser=list(e), code=o)
                    for how in ("dig", "diger"):
                        t.do("digcmp", "pair", dig=q, other=y["qb64"], how=how, ser=list(r.choice([d, d, e])))
                o = r.choice(same)
                for how in ("dig", "diger"):
                    t.do("digcmp", "relabelled", dig=q, other=bs(qual(o, bytes(x["raw"]))), how=how, ser=list(d))
                    t.do("digcmp", "self", dig=q, other=q, how=how, ser=list(self.data()))
                    t.do("digcmp", "followed", dig=q, other=q + [65, 65, 65, 65], how=how, ser=list(d))
                    b = bytearray(q)
                    b[-1] = ord("A") if b[-1] != ord("A") else ord("B")
                    t.do("digcmp", "damaged", dig=q, other=list(b), how=how, ser=list(d))
                    for bad in ["", "B" + "A" * 43, "E", "E" + "A" * 42, "0A" + "A" * 22, "x", "\u00e9"]:
                        if r.random() < 0.3:
                            t.do("digcmp", "malformed", dig=q, other=bs(bad), how=how, ser=list(d))
        for _ in range(4 * self.n):
            t.do("diger", "default", ser=list(self.data()))
            t.do("digcmp", "none", dig=q, other=[], how="none", ser=[])
        for c in list(MATTER) + ["", "X", "-A", "E ", "e", "EE", "0"]:
            if c not in DIGS:
                t.do("diger", "othercode", ser=list(b"abc"), code=c)
        for c in MATTER:
            t.do("digver", "family", dig=bs(qual(c, any_raw(r, c))), ser=list(b"abc"))


class Pres:
    def __init__(self, t, rng, deep=False):
        self.t, self.rng, self.n = t, rng, 5 if deep else 1
        self.m = Msgs(t, rng)

    def prim(self, codes):
        c = self.rng.choice(codes)
        return qual(c, any_raw(self.rng, c))

    def event(self, ilk=None, keys=None, bare=None, pre=None):
        r = self.rng
        ilk = ilk or r.choice(["icp", "icp", "icp", "dip", "vcp", "rot", "ixn", "drt", "vrt", "", "ICP", "icpx"])
        keys = keys if keys is not None else [self.prim(KEYC) for _ in range(r.choice([1, 1, 1, 1, 0, 2, 3]))]
        bare = r.random() < 0.5 if bare is None else bare
        pre = pre if pre is not None else r.choice(["", "#" * 44, keys[0] if keys else "", self.prim(DIGS), self.prim(KEYC), self.prim(["0A", "M", "0B"])])
        empty = lambda: r.choice([A([]), S("")])
        some = lambda x: r.choice([A([S(x)]), S(x)]) if r.random() < 0.3 else A([S(x)])
        ps = [("v", S("KERI10JSON000000_")), ("t", S(ilk)), ("d", S(r.choice(["", self.prim(DIGS)]))), ("i", S(pre)), ("s", S("0")), ("kt", S("1")), ("k", A(S(k) for k in keys))]
        if bare:
            for l in ("n", "b", "a"):
                if r.random() < 0.8:
                    ps.append((l, empty()))
        else:
            full = r.sample(["n", "b", "a"], r.randrange(1, 4))
            for l in ("n", "b", "a"):
                ps.append((l, some(self.prim(DIGS)) if l in full else empty()))
        if r.random() < 0.3:
            ps.append((r.choice(["nt", "bt", "c", "x"]), rand_doc(r, 1)))
        if r.random() < 0.1:
            ps = [p for p in ps if p[0] not in r.sample(["v", "t", "d", "i", "k"], 1)]
        if r.random() < 0.1:
            i = r.randrange(len(ps))
            ps[i] = (ps[i][0], rand_doc(r, 1))
        if r.random() < 0.15:
            r.shuffle(ps)
        return O(*ps)

    def derive(self, d, tag, **kw):
        return self.t.do("prefixer", tag, doc=d, **kw)

    def wide(self):
        """inceptions with many members and long anchors"""
        r = self.rng
        for n in [2, 9, 10, 17, 40] * self.n:
            for code in r.sample(DIGS, 2):
                d = self.event("icp", [self.prim(KEYC) for _ in range(n)], False)
                d = put(put(d, "a", A([S("x" * r.choice([10, 300, 5000]))] * (n % 7))), "n", A(S(self.prim(DIGS)) for _ in range(n)))
                d = put(put(d, "t", S("icp")), "k", A(S(self.prim(KEYC)) for _ in range(n)))
                x = self.derive(d, "wide", code=code)
                if x.get("ok"):
                    e = put(d, "i", S(bytes(x["qb64"])))
                    for f in (e, put(e, "a", A([])), put(e, "k", A(get(e, "k")["v"][:-1])), put(e, "n", A(get(e, "n")["v"][1:])), put(e, "d", S("")),
                              put(e, "k", A(list(reversed(get(e, "k")["v"])))), put(e, "s", S("1")), O(*fields(e), ("z", NULL)), put(e, "i", S(""))):
                        for p in (True, False):
                            self.t.do("prever", "wide", pre=x["qb64"], doc=f, prefixed=p)

    def derived(self):
        r = self.rng
        for _ in range(200 * self.n):
            d = self.event()
            kw = {}
            k = r.random()
            if k < 0.75:
                kw["code"] = r.choice(DIGS + KEYC)
            ks = get(d, "k")
            if k < 0.5 and ks and ks["t"] == "a" and ks["v"] and r.random() < 0.7 and ks["v"][0]["t"] == "s":
                # most often the code fits the key
                q = bytes(ks["v"][0]["v"]).decode()
                kw["code"] = next((c for c in KEYC if q.startswith(c)), "E")
            if r.random() < 0.3:
                kw["allows"] = r.sample(DIGS + KEYC + ["0A"], r.randrange(4))
                if r.random() < 0.5 and "code" in kw:
                    kw["allows"].append(kw["code"])
            self.derive(d, "random", **kw)
        for c in KEYC:
            for n in (0, 1, 2):
                keys = [self.prim([c]) for _ in range(n)]
                for bare in (True, False):
                    for pre in [keys[0] if keys else "", self.prim(DIGS), ""]:
                        d = self.event("icp", keys, bare, pre)
                        self.derive(d, "basic", code=c)
                        self.derive(d, "basic")
        # which codes are allowed, whether the code is given or that of the identifier named
        for c in KEYC + DIGS:
            key = self.prim([c if c in KEYC else "D"])
            d = self.event("icp", [key], True, key if c in KEYC else self.prim([c]))
            other = r.choice([x for x in KEYC + DIGS if x != c])
            for some in ([], [c], [other], [other, c], ["", c + c], [c, "0A"]):
                self.derive(d, "allowed", allows=some)
                self.derive(d, "allowed", allows=some, code=c)
                self.derive(d, "allowed", allows=some, code=other)
        # one single field beyond a bare event
        for c in ["B", "1AAA", "1AAI", "D"]:
            key = self.prim([c])
            base = [("v", S("KERI10JSON000000_")), ("t", S("icp")), ("i", S(key)), ("k", A([S(key)]))]
            for l in ("n", "b", "a"):
                for v in [A([]), S(""), A([S("")]), S("x"), A([NULL]), NULL, B(False), I(0), O(), A([A([])]), F("0.0")]:
                    d = O(*(base + [(l, v)]))
                    self.derive(d, "beyond", code=c)
                    self.ver(key, d, "beyond")
        for c in list(MATTER) + ["", "X", "-A"]:
            self.derive(self.event("icp"), "code", code=c)
            self.derive(self.event("icp", pre=qual(c, any_raw(r, c)) if c in MATTER else c), "embedded")
        for x in [NULL, S("icp"), A([]), I(1), O()]:
            self.derive(x, "nomap", code="E")
            self.derive(x, "nomap")
            self.derive(x, "nomap", code="D")

    def ver(self, pre, d, tag):
        r = self.rng
        p = pre if isinstance(pre, list) else bs(pre)
        for x in (None, True, False):
            if x is None or r.random() < 0.6:
                self.t.do("prever", tag, pre=p, doc=d, **({} if x is None else {"prefixed": x}))

    def changes(self, d):
        """the same event with one thing different"""
        r = self.rng
        ps = fields(d)
        out = []
        for i, (k, v) in enumerate(ps):
            out.append((k, O(*(ps[:i] + ps[i + 1:]))))
            out.append((k, O(*(ps[:i] + [(k, self.other(v))] + ps[i + 1:]))))
            out.append((k, O(*(ps[:i] + [(k + "x", v)] + ps[i + 1:]))))
        for i in range(len(ps) - 1):
            out.append(("order", O(*(ps[:i] + [ps[i + 1], ps[i]] + ps[i + 2:]))))
        out.append(("added", O(*(ps + [("extra", I(1))]))))
        return out

    def other(self, v):
        r = self.rng
        if v["t"] == "s":
            b = bytes(v["v"]).decode()
            if not b:
                return S("x")
            i = r.randrange(len(b))
            return S(b[:i] + ("y" if b[i] != "y" else "z") + b[i + 1:])
        if v["t"] == "a":
            xs = v["v"]
            k = r.random()
            if xs and k < 0.4:
                return A(xs[:-1] + [self.other(xs[-1])])
            return A(xs[1:]) if xs and k < 0.6 else A(xs + [S(self.prim(KEYC))])
        return S("other")

    def verified(self):
        r, t = self.rng, self.t
        for _ in range(14 * self.n):
            for kind in ("digest", "digest", "trans", "bare"):
                if kind == "digest":
                    d, kw = self.event(r.choice(["icp", "dip", "vcp"])), {"code": r.choice(DIGS)}
                else:
                    c = r.choice(["D", "1AAB", "1AAJ"] if kind == "trans" else ["B", "1AAA", "1AAI"])
                    key = self.prim([c])
                    d, kw = self.event(r.choice(["icp", "dip", "vcp"]), [key], kind == "bare"), {"code": c}
                x = self.derive(d, "for verify", **kw)
                if not x.get("ok"):
                    continue
                pre = x["qb64"]
                self.ver(pre, d, "embedded other")
                good = put(put(d, "i", S(bytes(pre))), "d", S(bytes(pre)))
                self.ver(pre, good, "good")
                ch = self.changes(good)
                for tag, e in r.sample(ch, min(len(ch), 12)):
                    self.ver(pre, e, "changed " + tag)
                # identifier and digest fields are free where no embedding is demanded
                for l in ("i", "d"):
                    self.ver(pre, put(good, l, S(self.prim(DIGS))), "other " + l)
                    self.ver(pre, put(good, l, S("")), "other " + l)
                    self.ver(pre, drop(good, l), "no " + l)
                v = get(good, "v")
                if v and v["t"] == "s":
                    for z in ["KERI10JSON0000ff_", "ACDC10JSON000000_", "KERI11JSON000000_", "", "KERI10JSON000000"]:
                        self.ver(pre, put(good, "v", S(z)), "version")
                for ilk in ["rot", "ixn", "drt", "", "Icp", "dip", "icp", "vcp"]:
                    self.ver(pre, put(good, "t", S(ilk)), "type")
                # another algorithm's digest of the same event, a digest of the bare serialization
                y = t.plain("prefixer", doc=good, code=r.choice(DIGS))
                if y.get("ok"):
                    self.ver(y["qb64"], good, "other algorithm")
                    same = [k for k in DIGS if raw_size(k) == len(y["raw"])]
                    self.ver(qual(r.choice(same), bytes(y["raw"])), good, "relabelled")
                z = t.plain("sizeify", doc=good)
                if z.get("ok"):
                    self.ver(t.plain("diger", ser=z["raw"], code="E")["qb64"], good, "plain digest")
                b = bytearray(pre)
                b[r.randrange(len(b))] = ord(r.choice(A64))
                self.ver(list(b), good, "damaged")
                # the same key material as another kind of key
                if kind != "digest":
                    o = {"D": "B", "B": "D", "1AAB": "1AAA", "1AAA": "1AAB", "1AAJ": "1AAI", "1AAI": "1AAJ"}[kw["code"]]
                    self.ver(qual(o, bytes(x["raw"])), good, "other kind")
                    if kind == "trans":
                        k2 = A([S(bytes(pre)), S(self.prim(KEYC))])
                        self.ver(pre, put(good, "k", k2), "two keys")
                        self.ver(pre, put(good, "k", A([S(self.prim(KEYC)), S(bytes(pre))])), "two keys")
                    self.ver(pre, put(good, "k", A([S(bytes(pre) + b"AAAA")])), "followed")
                    self.ver(pre, put(good, "k", S(bytes(pre))), "text")
        for x in [NULL, S("icp"), A([]), O(), O(("t", S("icp"))), O(("t", NULL))]:
            for c in ("E", "B", "D"):
                self.ver(self.prim([c]), x, "nomap")
        for c in MATTER:
            self.ver(qual(c, any_raw(r, c)), self.event("icp"), "family")


class Paths:
    def __init__(self, t, rng, deep=False):
        self.t, self.rng, self.n = t, rng, 5 if deep else 1
        self.m = Msgs(t, rng)

    def elem(self):
        r = self.rng
        return r.choice(["a", "b", "x", "v", "d", "i", "s", "0", "1", "2", "3", "00", "01", "10", "A", "AA", "_", "a_b", "zed", "label", "field0", "9", "0a",
                         "18446744073709551615", "18446744073709551616", "99999999999999999999999", "4294967296", "nested", "e1"])

    def elems(self, n=None):
        return [self.elem() for _ in range(self.rng.choice([0, 1, 1, 2, 2, 3, 4, 6]) if n is None else n)]

    def bext(self, es):
        return "-" + "-".join(es)

    def made(self):
        t, r = self.t, self.rng
        for _ in range(60 * self.n):
            es = self.elems()
            vs = [I(int(e)) if e.isdigit() and r.random() < 0.6 and int(e) < 2 ** 63 else S(e) for e in es]
            x = t.do("pather", "path", via="path", doc=A(vs))
            t.do("pather", "bext", via="bext", bext=bs(self.bext(es)))
            if x.get("ok"):
                tl = r.choice([[], [65], [45, 65]])
                t.do("pather", "back", via="qb64", data=x["qb64"] + tl)
                t.do("pather", "back", via="qb64b", data=x["qb64"])
                t.do("pather", "back", via="qb2", data=x["qb2"] + tl)
                t.do("pather", "back", via="raw", data=x["raw"], code=x["code"])
        for v in [S(""), S("-"), S("a-b"), S("-a"), S("a-"), S("é"), S("a b"), S("a/b"), S("$id"), S("="), I(-1), I(0), I(12), B(True), NULL, F("0.0"), F("1.5"), A([]),
                  A([S("a")]), O(), O(("a", I(1))), S("\n"), S("a\n"), I(9223372036854775807), I(18446744073709551615), S("A" * 300)]:
            t.do("pather", "odd", via="path", doc=A([v]))
            t.do("pather", "odd", via="path", doc=A([S("a"), v]))
            t.do("pather", "odd", via="path", doc=A([v, S("b")]))
            t.do("pather", "notlist", via="path", doc=v)
        for b in ["", "a", "a-b", "A", "AAAA", "--", "-a-", "--a", "-a--b", "---", "- ", "-a b", "-é", "-a/b", "-=", "-\n", "-a\n", "a\n-", "_", "-" + "a" * 400, "A-a", "AA-a", "AAA-a", "AAAA-a", "+"]:
            t.do("pather", "bext", via="bext", bext=bs(b))
        for c in MATTER:
            raw = any_raw(r, c)
            q = qual(c, raw)
            t.do("pather", "family", via="qb64", data=bs(q))
            t.do("pather", "family", via="qb64b", data=bs(q))
            t.do("pather", "family", via="qb2", data=list(__import__("base64").urlsafe_b64decode(q)))
            t.do("pather", "family", via="raw", data=list(raw), code=c)

    def rooted(self):
        t, r = self.t, self.rng
        for _ in range(120 * self.n):
            a, b = self.elems(), self.elems()
            k = r.random()
            if k < 0.35:
                a = b + a
            elif k < 0.5 and b:
                # almost under the root
                a = b[:-1] + [b[-1] + r.choice(["x", "0", "_"])] + a
            elif k < 0.6:
                a = a + b
            elif k < 0.7:
                a = b + b
            elif k < 0.75:
                a = b[:-1]
            t.do("pathop", "roots", a=bs(self.bext(a)), b=bs(self.bext(b)))

    def doc(self):
        r = self.rng

        def grow(depth):
            k = r.random()
            if depth == 0 or k < 0.25:
                return rand_doc(r, 0)
            if k < 0.7:
                ks = r.sample(["a", "b", "x", "v", "d", "i", "s", "0", "1", "2", "00", "01", "A", "AA", "_", "a_b", "zed", "label", "field0", "9", "10",
                               "99999999999999999999999", "18446744073709551616", "a-b", "", "é"], r.randrange(0, 6))
                return O(*[(x, grow(depth - 1)) for x in ks])
            return A([grow(depth - 1) for _ in range(r.randrange(0, 4))])
        d = grow(4)
        return d if r.random() < 0.15 or d["t"] in "oa" else O(("a", d), ("b", NULL))

    def walk(self, d):
        """a path that leads somewhere, or nearly"""
        r = self.rng
        es = []
        while d["t"] in "oa" and d["v"] and r.random() < 0.9:
            i = r.randrange(len(d["v"]))
            by_key = d["t"] == "o" and r.random() < 0.6
            e = key(d["k"][i]) if by_key else str(i)
            if not e or any(c not in A64 or c == "-" for c in e):
                e = str(i)
            if r.random() < 0.1:
                e = "0" + e
            es.append(e)
            d = d["v"][i] if not (by_key and e.isdigit()) else d["v"][i]
        if r.random() < 0.25:
            es.append(self.elem())
        if es and r.random() < 0.15:
            es[r.randrange(len(es))] = self.elem()
        if d["t"] in "oa" and r.random() < 0.2:
            es.append(str(len(d["v"]) + r.randrange(-1, 2)).replace("-", ""))
        return es

    def far(self):
        """wide and deep documents, long paths"""
        t, r = self.t, self.rng
        for n in [11, 17, 101, 257, 301] + [1025] * (self.n > 1):
            for d in (A([I(i) for i in range(n)]), O(*[("k%d" % i, I(i)) for i in range(n)]), O(*[(str(n - 1 - i), I(i)) for i in range(n)]),
                      A([A([I(i), O(("a", I(i)))]) for i in range(n)])):
                ix = {0, 1, 9, 10, 11, 15, 16, 99, 100, 127, 128, 255, 256, 257, n - 2, n - 1, n, n + 1, n + 256, 65536 + 3, r.randrange(n), 2 ** 32 + 1, 2 ** 64 + 1}
                for i in ix if n < 200 else r.sample(sorted(ix), 9):
                    es = [str(i)]
                    if d["t"] == "o" and r.random() < 0.4:
                        es = ["k%d" % i]
                    t.do("resolve", "wide", a=bs(self.bext(es)), doc=d)
                    if r.random() < 0.3:
                        t.do("resolve", "wide", a=bs(self.bext(es + r.choice([["0"], ["1", "a"], ["1", "0"], ["2"]]))), doc=d)
        for n in (9, 33, 55):
            d, es = I(5), []
            for i in range(n):
                k = r.randrange(3)
                if k == 0:
                    d, e = A([I(i)] * (i % 3) + [d]), str(i % 3)
                elif k == 1:
                    d, e = O(("p", I(i)), ("q%d" % i, d)), "q%d" % i
                else:
                    d, e = O(("x", d), ("y", I(i))), "0"
                es.insert(0, e)
            for z in (es, es[:-1], es + ["0"], es[:n // 2], es[:n // 2] + ["nowhere"] + es[n // 2 + 1:]):
                t.do("resolve", "deep", a=bs(self.bext(z)), doc=d)
        for n in (1, 2, 3, 4, 60, 61, 62, 63, 64, 65, 255, 256, 257, 1000, 4093, 4097, 16376, 16379, 16380, 16381, 16384, 16390):
            for es in ([("label%d" % i) for i in range(n // 7 + 1)], ["A" * n], ["0"] * (n // 2 + 1)):
                if sum(map(len, es)) + len(es) > 17000 or len(es) > 500:
                    continue
                x = t.do("pather", "long", via="path", doc=A([S(e) for e in es]))
                t.do("pather", "long", via="bext", bext=bs(self.bext(es)))
                if x.get("ok"):
                    t.do("pather", "long", via="qb64", data=x["qb64"] + [45, 65])
                    t.do("pather", "long", via="qb2", data=x["qb2"] + [0])
        for n in (5, 20, 60):
            b, a = ["e%d" % i for i in range(n)], [str(i) for i in range(n)]
            for x, y in ((a, b), (b + a, b), (b + a, b[:-1]), (b[:-1] + a, b), (b + a, b[:-1] + [b[-1] + "0"]), (a + b, b), (b, b), (b + b, b)):
                t.do("pathop", "long", a=bs(self.bext(x)), b=bs(self.bext(y)))

    def resolved(self):
        t, r = self.t, self.rng
        for _ in range(60 * self.n):
            d = self.doc()
            t.do("resolve", "whole", a=bs("-"), doc=d)
            for _ in range(6):
                t.do("resolve", "walk", a=bs(self.bext(self.walk(d))), doc=d)
        # parts left empty
        for _ in range(25 * self.n):
            d = self.doc()
            es = self.walk(d)
            for _ in range(r.choice([1, 1, 2])):
                es.insert(r.randrange(len(es) + 1), "")
            t.do("resolve", "empty", a=bs(self.bext(es)), doc=d)
            t.do("pather", "empty", via="bext", bext=bs(self.bext(es)))
        # every kind of element against every kind of node
        for e in ["a", "0", "1", "2", "00", "01", "b", "18446744073709551615", "18446744073709551616", "99999999999999999999999"]:
            for d in [O(), O(("a", I(1))), O(("1", I(1)), ("0", I(0))), O(("b", I(7)), ("a", I(8))), O(("00", I(3)), ("01", I(4))), A([]), A([I(5)]), A([I(5), I(6)]), S("a"), S("0"), I(0),
                      NULL, B(True), F("1.5"), O(("18446744073709551616", I(9))), O(("99999999999999999999999", S("x")))]:
                t.do("resolve", "pairs", a=bs("-" + e), doc=d)
                t.do("resolve", "pairs", a=bs("-a-" + e), doc=O(("a", d)))

    def tails(self):
        t, r = self.t, self.rng
        for _ in range(50 * self.n):
            d = self.m.event()
            if r.random() < 0.7:
                d = put(d, "a", A([O(("d", S(r.choice([self.m.prim(DIGS), self.m.prim(KEYC), "", "x", self.m.prim(["0A"])]))), ("z", self.doc())), self.doc(), S(self.m.prim(DIGS))]))
            t.do("tail", "whole", a=bs("-"), doc=d)
            for es in [["a"], ["a", "0"], ["a", "0", "d"], ["a", "2"], ["d"], ["i"], ["v"], ["k"], ["k", "0"], ["t"], ["s"], ["0"], ["3"], self.walk(d), self.walk(d), self.elems()]:
                if r.random() < 0.6:
                    t.do("tail", "walk", a=bs(self.bext(es)), doc=d)
