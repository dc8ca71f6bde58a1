"""Generators for signers, signatures and keys derived from salts."""
from .docgen import *
from .cesrgen import A64, CLASSES, MATTER, any_raw, text_of as qual, raw_size
import base64

SEEDS, KEYC = ["A", "J", "Q"], CLASSES["verfer"]
ALG = {"B": "A", "D": "A", "1AAA": "J", "1AAB": "J", "1AAI": "Q", "1AAJ": "Q"}
ORDER = {"J": 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141,
         "Q": 0xFFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551}


def b2(text):
    return base64.urlsafe_b64decode(text)


class Signs:
    def __init__(self, t, rng, deep=False):
        self.t, self.rng, self.n = t, rng, 6 if deep else 1

    def msg(self):
        r = self.rng
        k = r.random()
        if k < 0.15:
            return b""
        if k < 0.6:
            return r.randbytes(r.randrange(1, 60))
        if k < 0.8:
            return r.randbytes(r.choice([55, 56, 63, 64, 65, 111, 112, 127, 128, 129, 500]))
        return ser(rand_obj(r, 2, 4)).encode()

    def near(self, d):
        r = self.rng
        if not d:
            return r.choice([b"\x00", b" "])
        i = r.randrange(len(d))
        return r.choice([d + b"\x00", d[:-1], d[1:], d[:i] + bytes([d[i] ^ (1 << r.randrange(8))]) + d[i + 1:], d + d, b""])

    def seed(self, c):
        r = self.rng
        if c in ORDER and r.random() < 0.05:
            return r.choice([0, ORDER[c], ORDER[c] + 1, 2 ** 256 - 1, 1, ORDER[c] - 1]).to_bytes(32, "big")
        return r.choice([r.randbytes(32)] * 12 + [bytes(31) + b"\x01", b"\x7f" * 32])

    def index(self):
        r = self.rng
        return r.choice([0, 1, 2, r.randrange(64), 62, 63, 64, 65, r.randrange(64, 4096), 4095, 4096, 4097, 262143, 2 ** 24])

    def sigs(self, k):
        r, out = self.rng, []
        for _ in range(k):
            g = {"ser": list(self.msg())}
            if r.random() < 0.75:
                g["only"] = r.random() < 0.5
                g["index"] = self.index()
                if r.random() < 0.6:
                    g["ondex"] = g["index"] if r.random() < 0.3 else self.index()
            out.append(g)
        return out

    def made(self, via, c, raw, k, tag, **kw):
        """the same private key, whichever way it comes in"""
        q = qual(c, raw)
        d = {"raw": lambda: dict(code=c, data=list(raw)), "qb64": lambda: dict(data=bs(q)),
             "qb64b": lambda: dict(data=bs(q)), "qb2": lambda: dict(data=list(b2(q)))}[via]()
        return self.t.do("signer", tag, via=via, sigs=self.sigs(k), **d, **kw)

    def signed(self):
        t, r = self.t, self.rng
        for _ in range(10 * self.n):
            for c in SEEDS:
                for via in ("raw", "qb64", "qb64b", "qb2"):
                    kw = r.choice([{}, {"trans": True}, {"trans": False}])
                    self.made(via, c, self.seed(c), 5, via, **kw)
                t.do("signer", "generated", via="gen", code=c, sigs=self.sigs(4), **r.choice([{}, {"trans": False}]))
        for c in SEEDS:
            # every place where the code or the form changes
            for only in (True, False):
                g = []
                for i in (0, 1, 62, 63, 64, 65, 4095, 4096):
                    for o in (None, 0, i, 63, 64, i + 1, 4095, 4096):
                        g.append(dict(ser=[1], only=only, index=i, **({} if o is None else {"ondex": o})))
                t.do("signer", "codes", via="raw", code=c, data=list(self.seed("A")), sigs=g)
            for v in (0, ORDER.get(c, 0), ORDER.get(c, 1) + 1, ORDER.get(c, 5) - 1, 1, 2 ** 256 - 1):
                self.made(r.choice(["raw", "qb64"]), c, v.to_bytes(32, "big"), 1, "edge")
            for n in (0, 1, 31, 33, 64):
                t.do("signer", "length", via="raw", code=c, data=list(r.randbytes(n)), sigs=self.sigs(1))
        t.do("signer", "default", via="raw", data=list(r.randbytes(32)), sigs=self.sigs(3))
        for c in list(MATTER) + ["", "X", "a"]:
            t.do("signer", "othercode", via="raw", code=c, data=list(r.randbytes(80)), sigs=[])
            if c in MATTER:
                q = qual(c, any_raw(r, c))
                t.do("signer", "othercode", via="qb64", data=bs(q), sigs=[])
                t.do("signer", "othercode", via="qb2", data=list(b2(q)), sigs=[])
            else:
                t.do("signer", "othercode", via="gen", code=c, sigs=[])
        for c in SEEDS:
            t.do("fresh", "fresh", what="signer", code=c, count=70)

    def large(self):
        """messages of many blocks, and their like that differ far from the start"""
        t, r = self.t, self.rng
        for n in (4095, 16384, 65535, 65536, 65537, 150000) if self.n > 1 else (5000, 65537):
            for c in SEEDS:
                raw, m = r.randbytes(32), r.randbytes(n)
                s = t.plain("signer", via="raw", code=c, data=list(raw), sigs=[{"ser": list(m)}])
                if not s.get("ok") or not s["signed"] or "raw" not in s["signed"][0]:
                    continue
                code, key, sig = s["verfer"]["code"], s["verfer"]["raw"], s["signed"][0]["raw"]
                for e in (m, m[:-1] + bytes([m[-1] ^ 1]), m[:n // 2] + bytes([m[n // 2] ^ 64]) + m[n // 2 + 1:], m[:-1]):
                    t.do("verify", "large", code=code, key=list(key), sig=list(sig), ser=list(e))

    def verified(self):
        t, r = self.t, self.rng
        for _ in range(7 * self.n):
            pool = []
            for c in SEEDS:
                for _ in range(2):
                    raw = r.randbytes(32)
                    m = self.msg()
                    s = t.plain("signer", via="raw", code=c, data=list(raw), trans=r.random() < 0.5,
                                sigs=[{"ser": list(m)}, {"ser": list(m), "only": False, "index": 0}])
                    for g in s["signed"]:
                        pool.append((s["verfer"]["code"], s["verfer"]["raw"], g["raw"], m))
            for code, key, sig, m in pool:
                ver = lambda tag, code=code, key=key, sig=sig, ser=m: t.do("verify", tag, code=code, key=list(key), sig=list(sig), ser=list(ser))
                ver("own")
                ver("message", ser=self.near(m))
                b = bytearray(sig)
                b[r.randrange(len(b))] ^= 1 << r.randrange(8)
                ver("signature", sig=b)
                b = bytearray(key)
                b[r.randrange(1, len(b))] ^= 1 << r.randrange(8)
                ver("key", key=b)
                o = r.choice([p for p in pool if p[1] != key])
                ver("otherkey", code=o[0], key=o[1])
                ver("othersig", sig=o[2])
                ver("othermessage", ser=r.choice([p for p in pool if p[3] != m])[3])
                # another algorithm's code over the same key material, and the code's sibling
                ver("algorithm", code=r.choice([k for k in KEYC if ALG[k] != ALG[code]]), key=list(key) + [0])
                ver("sibling", code=r.choice([k for k in KEYC if ALG[k] == ALG[code] and k != code]))
                if r.random() < 0.5:
                    ver("sigsize", sig=r.choice([sig[:-1], sig + [0], [], sig[:32], sig + sig, [0] * 64, [255] * 64]))
                    ver("keysize", key=r.choice([key[:-1], [], key[:16]]))
                    ver("halves", sig=sig[32:] + sig[:32])
                    ver("code", code=r.choice([c for c in MATTER if c not in KEYC] + ["", "d"]))
                    if ALG[code] == "A":
                        # the scalar plus the order of the group
                        L = 2 ** 252 + 27742317777372353535851937790883648493
                        s = int.from_bytes(bytes(sig[32:]), "little") + L
                        if s < 2 ** 256:
                            ver("scalar", sig=sig[:32] + list(s.to_bytes(32, "little")))
                    if ALG[code] in ORDER:
                        n = ORDER[ALG[code]]
                        ver("zero", sig=r.choice([[0] * 32 + sig[32:], sig[:32] + [0] * 32, sig[:32] + list(n.to_bytes(32, "big"))]))
                        ver("parity", key=[key[0] ^ 1] + key[1:])
                        ver("keyform", key=[r.choice([0, 1, 4, 5, 6, 7, 255])] + key[1:])


class Salts:
    def __init__(self, t, rng, deep=False):
        self.t, self.rng, self.deep, self.n = t, rng, deep, 5 if deep else 1

    def path(self):
        r = self.rng
        return r.choice([[], bs("0"), bs("a"), bs("signify:controller00"), bs("10"), bs("é~\u2028"), bs("A" * 70), r.choice([bs("x") * 3, bs("01"), bs("1")])])

    def salt(self, kw):
        r = self.rng
        raw = list(r.choice([r.randbytes(16), bytes(16), b"\xff" * 16, r.randbytes(16)]))
        if r.random() < 0.5:
            kw["salt"] = raw
        else:
            kw["salt64"] = bs(qual("0A", bytes(raw)))
        return kw

    def opts(self, kw, *names):
        """options; costs stay low: only a tier above the least that is really used is dear"""
        r = self.rng
        for n in names:
            if r.random() < 0.35:
                continue
            kw[n] = {"size": lambda: r.choice([4, 5, 16, 31, 32, 33, 64, 65, 100]), "path": self.path,
                     "code": lambda: r.choice(SEEDS), "trans": lambda: r.random() < 0.5,
                     "start": lambda: r.choice([0, 1, 9, 15, 16, 17, 255, 256, 65535, 65536, 1000000]),
                     "count": lambda: r.choice([0, 1, 2, 3, 5]),
                     "codes": lambda: [r.choice(SEEDS) for _ in range(r.choice([0, 1, 2, 3]))],
                     "pidx": lambda: r.choice([0, 1, 15, 16, 255, 4095, 65535]),
                     "ridx": lambda: r.choice([0, 1, 9, 10, 15, 16, 255, 65535]),
                     "kidx": lambda: r.choice([0, 1, 9, 10, 15, 16, 254, 255, 4095, 65530, 65535]),
                     "cstem": lambda: r.choice([bs("stem"), [], bs("0"), bs("é")]),
                     "stem": lambda: r.choice([bs("signify:aid"), bs("s"), [], bs("0")])}[n]()
        return kw

    def cheap(self, kw):
        r = self.rng
        k = r.random()
        if k < 0.5:
            kw["temp"] = True
            if r.random() < 0.6:
                kw["stier"] = r.choice(["min", "low", "med", "high"])
            if r.random() < 0.6:
                kw["tier"] = r.choice(["min", "low", "med", "high", "none", ""])
        elif k < 0.8:
            kw["tier"] = "min"
            if r.random() < 0.7:
                kw["stier"] = r.choice(["min", "low", "med", "high", "nonesuch"])
            if r.random() < 0.5:
                kw["temp"] = False
        else:
            kw["stier"] = "min"
        return kw

    def stretched(self):
        t, r = self.t, self.rng
        for _ in range(120 * self.n):
            kw = self.opts(self.cheap(self.salt({})), "size", "path")
            for tag in ("stretch", "again")[:r.choice([1, 1, 2])]:
                t.do("stretch", tag, **kw)
        for n in (0, 1, 2, 3, 4, 63, 64, 65, 128, 1000):
            t.do("stretch", "size", size=n, **self.salt({"temp": True}))
        for x in ["lo", "MIN", "", "min_", "none"]:
            t.do("stretch", "tier", tier=x, **self.salt({}))
            t.do("stretch", "tier", stier=x, **self.salt({}))
            t.do("stretch", "tier", stier=x, tier="min", **self.salt({}))
        for c in MATTER:
            t.do("stretch", "salts", salt64=bs(qual(c, any_raw(r, c))), temp=True)
        for n in (0, 8, 15, 17, 32):
            t.do("stretch", "salts", salt=list(r.randbytes(n)), temp=True)

    def dear(self):
        """the tiers at their own cost"""
        t, r = self.t, self.rng
        tiers = ["low", "med", "high"] if self.deep else ["low", "med"]
        for x in tiers:
            for o in ["low", "med", "high", "min"]:
                t.do("stretch", "cost", tier=x, stier=o, **self.salt({"path": self.path()}))
            t.do("stretch", "cost", stier=x, **self.salt({"temp": False}))
            t.do("saltsigner", "cost", tier=x, **self.salt({}))
        t.do("stretch", "cost", **self.salt({}))
        t.do("saltsigner", "cost", **self.salt({}))
        t.do("saltsigners", "cost", count=2, start=15, **self.salt({}))
        t.do("saltsigners", "cost", count=2, stier="med", **self.salt({}))
        t.do("saltsigners", "cost", count=2, tier="low", stier="high", **self.salt({}))
        for g in (True, False):
            for x in ["low", "med"]:
                t.do("creator", "cost", given=g, stier=x, temp=False, count=1, salt64=bs(qual("0A", r.randbytes(16))))
        t.do("creator", "cost", given=False, temp=False, count=1, salt64=bs(qual("0A", r.randbytes(16))))

    def derived(self):
        t, r = self.t, self.rng
        for _ in range(60 * self.n):
            t.do("saltsigner", "one", **self.opts(self.cheap(self.salt({})), "path", "code", "trans"))
            t.do("saltsigners", "series", **self.opts(self.cheap(self.salt({})), "path", "code", "trans", "start", "count"))
        for n in (15, 16, 255, 256, 4095):
            t.do("saltsigners", "carry", start=n - 1, count=4, temp=True, path=bs("p"), **self.salt({}))
        # a series and its tails
        for _ in range(4 * self.n):
            kw = self.opts(self.cheap(self.salt({})), "path", "code", "trans")
            s = r.choice([0, 13, 254])
            for j in range(4):
                t.do("saltsigners", "tail", start=s + j, count=4 - j, **kw)
        for c in list(MATTER) + ["", "X"]:
            t.do("saltsigner", "code", code=c, **self.salt({"temp": True}))
            t.do("saltsigners", "code", code=c, count=2, **self.salt({"temp": True}))
        for x in (None, "min", "low", "med", "high"):
            t.do("newsalt", "fresh", **({} if x is None else {"stier": x}))
        t.do("fresh", "fresh", what="salt", code="0A", count=70)
        t.do("fresh", "fresh", what="unseeded", code="0A", count=70)

    def created(self):
        t, r = self.t, self.rng
        for _ in range(90 * self.n):
            kw = self.opts({"given": r.random() < 0.5}, "stem", "codes", "count", "code", "pidx", "ridx", "kidx", "cstem", "trans")
            if r.random() < 0.7:
                kw.update(temp=True, **r.choice([{}, {"stier": "high"}, {"stier": "low"}]))
            else:
                kw.update(temp=False, stier="min")
            if kw["given"] and r.random() < 0.4:
                kw["beside"] = bs(qual("0A", r.randbytes(16)))
            if kw["given"] and r.random() < 0.4:
                kw["btier"] = r.choice(["low", "med", "high"] + ["min"] * kw["temp"])
            t.do("creator", "keys", salt64=bs(qual("0A", r.randbytes(16))), **kw)
        for _ in range(5 * self.n):
            kw = self.opts(dict(given=False, salt64=bs(qual("0A", r.randbytes(16))), temp=True), "stem", "code", "pidx", "ridx", "cstem", "trans")
            k = r.choice([0, 14, 255, 65530])
            for j in range(4):
                t.do("creator", "tail", kidx=k + j, count=4 - j, **kw)
        for c in MATTER:
            t.do("creator", "salts", given=r.random() < 0.5, salt64=bs(qual(c, any_raw(r, c))), temp=True, count=1)
