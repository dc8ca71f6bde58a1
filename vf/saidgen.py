"""Generators for self-addressing identifiers, key event messages and credentials."""
from .docgen import *

DIGS = ["E", "F", "G", "H", "I", "0D", "0E", "0F", "0G"]
NOTDIG = ["A", "B", "D", "M", "0A", "0B", "1AAA", "1AAG", "4A", "X", "", "2A", "-A"]
VS = {"K": "KERI10JSON000000_", "A": "ACDC10JSON000000_"}


def text(d):
    return bytes(d).decode()


class Saids:
    def __init__(self, t, rng, deep=False):
        self.t, self.rng, self.n = t, rng, 3 if deep else 1

    def sad(self, label="d", versioned=None):
        """a document with an identifier field, often versioned"""
        r = self.rng
        ps = [p for p in fields(rand_obj(r, 2, 5)) if p[0] not in (label, "v")]
        lab = r.choice([S(""), S(""), S("#" * 44), S("old"), NULL, I(0), S("E" + "A" * 43), S("E" + "B" * 43)])
        i = r.randrange(len(ps) + 1)
        ps = ps[:i] + [(label, lab)] + ps[i:]
        v = r.random() < 0.6 if versioned is None else versioned
        if v and label != "v":
            i = 0 if r.random() < 0.9 else r.randrange(len(ps) + 1)
            ps = ps[:i] + [("v", S(r.choice(list(VS.values()) + ["KERI10JSON0000ff_"])))] + ps[i:]
        return O(*ps)

    def opts(self):
        r, kw = self.rng, {}
        if r.random() < 0.25:
            kw["kind"] = bs("JSON")
        if r.random() < 0.25:
            kw["label"] = bs(r.choice(["d", "$id", "@id", "id", "i", "a", "x"]))
        return kw

    def make(self, d, tag, **kw):
        return self.t.do("saidify", tag, doc=d, **kw)

    def identify(self):
        t, r = self.t, self.rng
        for c in DIGS:
            for v in (False, True):
                for _ in range(3 * self.n):
                    self.make(self.sad(versioned=v), "code", code=c)
        for _ in range(120 * self.n):
            kw = self.opts()
            d = self.sad(text(kw.get("label", bs("d"))))
            if r.random() < 0.5:
                kw["code"] = r.choice(DIGS)
            if r.random() < 0.4:
                ks = [key(k) for k in d["k"]]
                kw["ignore"] = [bs(k) for k in r.sample(ks + ["zz", "v", "d"], r.randrange(1, 4))]
            x = self.make(d, "random", **kw)
            if x.get("ok"):
                # computed again from the identified document, and identified again
                k2 = {k: v for k, v in kw.items() if k != "code"}
                t.do("saidof", "again", doc=x["doc"], **k2)
                if r.random() < 0.4:
                    self.make(x["doc"], "twice", **kw)
        for c in NOTDIG:
            self.make(self.sad(), "notdigest", code=c)
            t.do("saidof", "notdigest", doc=self.sad(), code=c)
        for d in [O(), O(("x", S("")),), O(("v", S(VS["K"]))), NULL, S("d"), A([S("d")]), I(1), O(("d", S("")))]:
            self.make(d, "nolabel")
            t.do("saidof", "nolabel", doc=d)
        for v in ["", "KERI10JSON00000", "KERI11JSON000000_", "ABCD10JSON000000_", "KERI10CBOR000000_", "KERI10JSON000000_x"]:
            d = O(("v", S(v)), ("d", S("")), ("x", I(1)))
            self.make(d, "badversion")
            t.do("saidof", "badversion", doc=d)
            self.make(d, "badversion", ignore=[bs("v")])
        for k in ["JSON", "CBOR", "MGPK", ""]:
            for v in (True, False):
                self.make(self.sad(versioned=v), "kind", kind=bs(k))
        self.make(O(("v", S(VS["K"])), ("d", S(""))), "versionlabel", label=bs("v"))

    def options(self):
        """every combination of what may be asked for, with fields left out of the digest and changed"""
        t, r = self.t, self.rng
        for c in DIGS + [None]:
            for mask in range(16):
                kw = {}
                if mask & 1:
                    kw["label"] = bs(r.choice(["i", "$id", "x"]))
                if mask & 2:
                    kw["kind"] = bs("JSON")
                lab = text(kw.get("label", bs("d")))
                ps = [(lab, S("")), ("one", S("1")), ("two", rand_doc(r, 1)), ("three", I(3))]
                if lab != "d":
                    ps.insert(r.randrange(5), ("d", S(r.choice(["", "E" + "A" * 43, "#" * 44]))))
                vs = [("v", S(VS[r.choice("KA")]))] if mask & 8 else []
                d = O(*(vs + ps))
                if mask & 4:
                    kw["ignore"] = [bs(k) for k in r.choice([["one"], ["two"], ["one", "three"], ["three", "two", "one"]])]
                x = self.make(d, "options", **({"code": c} if c else {}), **kw)
                if not x.get("ok"):
                    continue
                g = x["doc"]
                t.do("saidof", "options", doc=g, **kw)
                t.do("saidof", "options", doc=g, code=r.choice(DIGS), **kw)
                for k in ("one", "two", "three", lab):
                    y = put(g, k, self.other(get(g, k)))
                    t.do("saidver", "options", said=x["said"], doc=y, **kw)
                    if k != lab:
                        t.do("saidver", "options", said=x["said"], doc=y, prefixed=True, versioned=True, **kw)
                for less in kw:
                    t.do("saidver", "options", said=x["said"], doc=g, **{k: v for k, v in kw.items() if k != less})

    def wide(self):
        """documents of many fields or long values, and changes anywhere in them"""
        t, r = self.t, self.rng
        for n, ln in [(9, 0), (10, 0), (11, 3), (17, 1), (33, 0), (70, 2), (3, 300), (2, 4096), (2, 65600)] * self.n:
            ps = [("k%d" % i, r.choice([I(i), S("v%d" % i), O(("d", S("")), ("v", S("KERI10JSON000000_"))), A([O(("d", I(1)))])])) for i in range(n)]
            if ln > 3:
                ps[-1] = (ps[-1][0], S(r.choice(["w", "é"]) * ln))
            i = r.randrange(len(ps) + 1)
            ps = ps[:i] + [("d", S(""))] + ps[i:]
            for vs in (True, False):
                d = O(*([("v", S(VS["K"]))] * vs + ps))
                kw = {"code": r.choice(DIGS)}
                if r.random() < 0.5:
                    kw["ignore"] = [bs(k) for k in r.sample(["k%d" % i for i in range(n)], r.randrange(1, n))]
                x = self.make(d, "wide", **kw)
                if not x.get("ok"):
                    continue
                kw.pop("code")
                t.do("saidof", "wide", doc=x["doc"], **kw)
                t.do("saidver", "wide", said=x["said"], doc=x["doc"], prefixed=True, versioned=True, **kw)
                ch = self.changes(x["doc"], "d")
                for tag, c in r.sample(ch, min(len(ch), 8 if ln < 9 else 3)):
                    t.do("saidver", tag, said=x["said"], doc=c, versioned=False, **kw)

    def computed(self):
        """identifier from a document: the code is the embedded one's, the asked one, or the default"""
        t, r = self.t, self.rng
        for c in DIGS:
            emb = t.plain("saidify", doc=O(("d", S("")), ("z", I(1))), code=c)
            d0 = S(bytes(emb["said"]))
            for v in (True, False):
                d = put(self.sad(versioned=v), "d", d0)
                t.do("saidof", "embedded", doc=d)
                t.do("saidof", "asked", doc=d, code=r.choice(DIGS))
                t.do("saidof", "embedded", doc=put(d, "d", S(bytes(emb["said"])[:-1])))
                t.do("saidof", "embedded", doc=put(d, "d", S(bytes(emb["said"]) + b"AAAA")))
        for x in ["", "E", "B" + "A" * 43, "#" * 44, "MAAA", "E" + "A" * 42 + "B", "E" + "A" * 42 + "-"]:
            t.do("saidof", "embedded", doc=O(("d", S(x)), ("y", I(2))))
        for x in [NULL, I(3), A([]), O(), B(False)]:
            t.do("saidof", "embedded", doc=O(("d", x), ("y", I(2))))
        for _ in range(40 * self.n):
            kw = self.opts()
            t.do("saidof", "random", doc=self.sad(text(kw.get("label", bs("d")))), **kw)

    def changes(self, d, lab):
        """ways a document can differ from another one"""
        r = self.rng
        ps = fields(d)
        out = []
        for i, (k, v) in enumerate(ps):
            out.append(("removed", O(*(ps[:i] + ps[i + 1:]))))
            out.append(("changed", O(*(ps[:i] + [(k, self.other(v))] + ps[i + 1:]))))
            out.append(("renamed", O(*(ps[:i] + [(k + "x", v)] + ps[i + 1:]))))
        for i in range(len(ps) - 1):
            out.append(("reordered", O(*(ps[:i] + [ps[i + 1], ps[i]] + ps[i + 2:]))))
        out.append(("added", O(*(ps + [("extra", I(1))]))))
        out.append(("added", O(*(ps[:1] + [("extra", NULL)] + ps[1:]))))
        return out

    def other(self, v):
        r = self.rng
        t = v["t"]
        if t == "s":
            b = bytes(v["v"]).decode()
            if not b:
                return S("x")
            i = r.randrange(len(b))
            return S(b[:i] + ("y" if b[i] != "y" else "z") + b[i + 1:])
        if t == "i":
            return I(int(bytes(v["v"]).decode()) ^ 1)
        if t == "a":
            return A(v["v"][1:]) if v["v"] and r.random() < 0.5 else A(v["v"] + [I(0)])
        if t == "o":
            ps = fields(v)
            return O(*(ps[:-1] if ps and r.random() < 0.5 else ps + [("q", S(""))]))
        if t == "b":
            return B(not v["v"])
        return S("null")

    def verified(self):
        t, r = self.t, self.rng
        for _ in range(26 * self.n):
            kw = self.opts()
            lab = text(kw.get("label", bs("d")))
            d = self.sad(lab)
            ks = [key(k) for k in d["k"]]
            if r.random() < 0.4:
                kw["ignore"] = [bs(k) for k in r.sample([k for k in ks if k != lab] + ["zz"], 1)]
            x = self.make(d, "for verify", code=r.choice(DIGS), **kw)
            if not x.get("ok"):
                continue
            said, good = x["said"], x["doc"]

            def ver(tag, doc, said=said):
                k2 = dict(kw)
                if r.random() < 0.5:
                    k2["prefixed"] = r.random() < 0.5
                if r.random() < 0.4:
                    k2["versioned"] = r.random() < 0.5
                t.do("saidver", tag, said=said, doc=doc, **k2)
            for p in (None, True, False):
                for v in (None, True, False):
                    k2 = dict(kw)
                    if p is not None:
                        k2["prefixed"] = p
                    if v is not None:
                        k2["versioned"] = v
                    t.do("saidver", "good", said=said, doc=good, **k2)
            ch = self.changes(good, lab)
            for tag, c in r.sample(ch, min(len(ch), 14)):
                ver(tag, c)
            # another embedded identifier, another size in the version field
            e2 = put(good, lab, S("E" + "C" * 43))
            for p in (True, False):
                t.do("saidver", "embedded", said=said, doc=e2, prefixed=p, **kw)
                t.do("saidver", "embedded", said=said, doc=put(good, lab, NULL), prefixed=p, **kw)
                t.do("saidver", "embedded", said=said, doc=drop(good, lab), prefixed=p, **kw)
            v = get(good, "v")
            if v and v["t"] == "s":
                vt = bytes(v["v"]).decode()
                digits = [vt[:i] + c + vt[i + 1:] for i in range(10, min(16, len(vt))) for c in r.sample("0123456789abcdefF", 2)]
                for v2 in digits + ["KERI10JSON000000_", "ACDC10JSON" + vt[10:], "KERI10JSON" + vt[10:], vt[:15] + ("1_" if vt[15] == "0" else "0_"),
                           "KERI11JSON" + vt[10:], "", "x"]:
                    for vv in (True, False):
                        t.do("saidver", "version", said=said, doc=put(good, "v", S(v2)), versioned=vv, **kw)
            # the identifier of another document, of another algorithm, or no digest at all
            y = t.plain("saidify", doc=put(good, lab, S("")), code=r.choice(DIGS), **kw)
            if y.get("ok"):
                ver("other algorithm", good, y["said"])
                ver("other algorithm", y["doc"], said)
            z = t.plain("saidify", doc=put(good, "other", I(9)), code="E", **kw)
            if z.get("ok"):
                ver("other document", good, z["said"])
            b = bytearray(said)
            i = r.randrange(len(b))
            b[i] = ord(r.choice("ABCDEFGHabcdefgh0123_-"))
            ver("damaged", good, list(b))
            ver("damaged", good, said[:-1])
            if r.random() < 0.2:
                for nd in ["B" + "A" * 43, "MAAA", "", "0B" + "A" * 86]:
                    ver("not a digest", good, bs(nd))
        for d in [NULL, S(""), A([]), I(0)]:
            t.do("saidver", "notmap", said=bs("E" + "A" * 43), doc=d)
