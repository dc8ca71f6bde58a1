"""Outside material for every reader at once: exhaustive short texts, behaviours of the adversary of
spec/MC_Hostile.tla, and damaged documents.  spec/Total.tla says what may come of it."""
import itertools, json, os, re, tempfile
from .cesrgen import A64, CLASSES, COUNTER, INDEXER, L, MATTER, VAR, any_raw, b64, enc, idx_raw_size, idx_text, text_of
from .docgen import A, B, F, I, O, S, put, rand_doc, ser
from .core import ToolError, run_tlc

HOLE = "@"
TXT = {"t": "s", "v": HOLE}
DOC = {"t": "json", "v": HOLE}


def obj(**kw):
    return {"t": "o", "k": [list(k.encode()) for k in kw], "v": list(kw.values())}


def field(**kw):
    base = dict(v=S("KERI10JSON000000_"), t=S("icp"), d=S(""), i=S(""), s=S("0"), kt=S("1"), k=A([]), nt=S("1"), n=A([]),
                bt=S("0"), b=A([]), c=A([]), a=A([]))
    base.update(kw)
    return obj(**base)


def primitives():
    out = []
    for cls in ["base", *CLASSES]:
        out += [dict(op="matter", cls=cls, via="qb64", data=HOLE, text=True),
                dict(op="matter", cls=cls, via="qb64b", data=HOLE), dict(op="matter", cls=cls, via="qb2", data=HOLE)]
    for cls in ["base", "siger"]:
        out += [dict(op="indexer", cls=cls, via="qb64", data=HOLE, text=True),
                dict(op="indexer", cls=cls, via="qb64b", data=HOLE), dict(op="indexer", cls=cls, via="qb2", data=HOLE)]
    out += [dict(op="counter", via="qb64", data=HOLE, text=True), dict(op="counter", via="qb64b", data=HOLE),
            dict(op="counter", via="qb2", data=HOLE)]
    return out


def codes():
    """the material as a code, a size or a raw value"""
    D = "Dabcdefghijklmnopqrstuvwxyz0123456789ABCDEFG"
    out = [dict(op="counter", via="b64", code="-A", count=HOLE, text=True), dict(op="counter", via="code", code=HOLE, count=1, text=True),
           dict(op="matter", cls="base", via="raw", code=HOLE, data=[1] * 60, text=True),
           dict(op="matter", cls="diger", via="raw", code=HOLE, data=[1] * 60, text=True),
           dict(op="indexer", cls="base", via="raw", code=HOLE, index=1, ondex=[], data=[1] * 60, text=True), dict(op="semver", str=HOLE, want=[0, 0, 0], text=True)]
    for c in ["B", "M", "4A", "0A", "1AAG", "7AAB"]:
        out.append(dict(op="matter", cls="base", via="raw", code=c, data=HOLE))
    for cls in CLASSES:
        out.append(dict(op="matter", cls=cls, via="raw", code=CLASSES[cls][0], data=HOLE))
    for c in ["A", "0A", "2B", "1z"]:
        out.append(dict(op="indexer", cls="base", via="raw", code=c, index=1, ondex=[], data=HOLE))
    out += [dict(op="number", via="numh", numh=HOLE, text=True), dict(op="seqner", via="numh", numh=HOLE, text=True),
            dict(op="dater", via="dts", dts=HOLE, text=True), dict(op="bexter", bext=HOLE, text=True),
            dict(op="bexter", bext=HOLE, code=HOLE, text=True),
            dict(op="dater", via="dts", dts=L("2020-08-22T17:50:09.988921+00:00"), code=HOLE, text=True),
            dict(op="versify", proto=HOLE, text=True), dict(op="versify", kind=HOLE, text=True),
            dict(op="deversify", data=HOLE, text=True), dict(op="sniff", data=HOLE),
            dict(op="tholder", via="limen", data=HOLE), dict(op="tholder", via="sith", doc=TXT, sets=[[0], [], [7, 7, 2147483647]], text=True),
            dict(op="tholder", via="thold", doc=TXT, text=True), dict(op="tholder", via="sith", doc=DOC, sets=[[0, 1]]),
            dict(op="tholder", via="sith", doc=A([TXT]), sets=[[0, 1], [1]], text=True),
            dict(op="tholder", via="sith", doc=A([A([TXT, S("1/2")]), A([S("1")])]), sets=[[0, 1], [2]], text=True),
            dict(op="diger", ser=HOLE), dict(op="diger", ser=[1], code=HOLE, text=True),
            dict(op="digver", dig=HOLE, ser=[1, 2], text=True), dict(op="digver", dig=L("E" + D[1:]), ser=HOLE),
            dict(op="digcmp", how="dig", dig=L("E" + D[1:]), ser=[1], other=HOLE),
            dict(op="digcmp", how="diger", dig=L("E" + D[1:]), ser=[1], other=HOLE, text=True),
            dict(op="pather", via="bext", bext=HOLE, text=True), dict(op="pather", via="path", doc=A([TXT, I(0)]), text=True),
            dict(op="pather", via="path", doc=DOC), dict(op="pather", via="qb64", data=HOLE, text=True),
            dict(op="pather", via="qb2", data=HOLE), dict(op="pather", via="raw", data=HOLE),
            dict(op="pathop", a=HOLE, b=L("-a-b"), text=True), dict(op="pathop", a=L("-a-b"), b=HOLE, text=True),
            dict(op="resolve", a=HOLE, doc=O(("a", A([I(1), S("x")])), ("b", S("y")), ("", I(2))), text=True),
            dict(op="resolve", a=L("-0-a"), doc=DOC), dict(op="resolve", a=L("-a"), doc=DOC),
            dict(op="signer", via="qb64", data=HOLE, text=True, sigs=[]), dict(op="signer", via="qb2", data=HOLE, sigs=[]),
            dict(op="signer", via="raw", data=HOLE, sigs=[]),
            dict(op="verify", key=HOLE, code="D", sig=[0] * 64, ser=[1]), dict(op="verify", key=HOLE, code="1AAB", sig=[0] * 64, ser=[1]),
            dict(op="verify", key=HOLE, code="1AAJ", sig=[0] * 64, ser=[1]),
            dict(op="verify", key=[3] * 32, code=HOLE, sig=[0] * 64, ser=[1], text=True),
            dict(op="verify", key=L("\x02" + "\x01" * 32), code="1AAB", sig=HOLE, ser=[1]),
            dict(op="verify", key=[88] + [102] * 31, code="D", sig=HOLE, ser=[1]),
            dict(op="stretch", salt=HOLE, temp=True, size=8), dict(op="stretch", salt64=HOLE, temp=True, size=8, text=True),
            dict(op="stretch", salt=[1] * 16, path=HOLE, temp=True, size=8, text=True),
            dict(op="stretch", salt=[1] * 16, tier=HOLE, temp=True, size=8, text=True),
            dict(op="saltsigner", salt=[1] * 16, code=HOLE, temp=True, text=True),
            dict(op="saltsigners", salt=[1] * 16, path=HOLE, count=1, temp=True, text=True)]
    for k in ("matter", "counter", "siger", "bexter"):
        out += [dict(op="stream", dom="qb64", data=HOLE, plan=["counter", k, k, "matter"], text=True),
                dict(op="stream", dom="qb2", data=HOLE, plan=[k, "counter", k])]
    return out


def documents():
    """the material as a document or as part of one"""
    E = "EBPRe1nMiBV2x4pZ5tVzAhtOgNdzTVpMjfH4kd6wVOgv"
    out = [dict(op="json", data=HOLE, flat=True), dict(op="jval", doc=DOC, label=L("v")), dict(op="jval", doc=TXT, text=True),
           dict(op="serder", via="raw", data=HOLE), dict(op="creder", via="raw", data=HOLE),
           dict(op="serder", via="ked", doc=DOC), dict(op="creder", via="ked", doc=DOC),
           dict(op="serder", via="ked", doc=field(), code=HOLE, text=True), dict(op="serder", via="ked", doc=field(), kind=HOLE, text=True),
           dict(op="sizeify", doc=DOC), dict(op="sizeify", doc=obj(v=TXT), text=True),
           dict(op="saidify", doc=DOC), dict(op="saidify", doc=obj(v=TXT, d=S("")), text=True), dict(op="saidify", doc=obj(d=TXT), code=HOLE, text=True),
           dict(op="saidify", doc=obj(d=S("")), label=HOLE, text=True), dict(op="saidify", doc=obj(d=S("")), kind=HOLE, text=True),
           dict(op="saidof", doc=DOC), dict(op="saidver", said=HOLE, doc=obj(d=S(E)), text=True),
           dict(op="saidver", said=L(E), doc=DOC, prefixed=True, versioned=True),
           dict(op="saidver", said=L(E), doc=obj(v=TXT, d=S(E)), versioned=True, text=True),
           dict(op="prefixer", doc=DOC), dict(op="prefixer", doc=field(i=TXT), text=True), dict(op="prefixer", doc=field(k=A([TXT])), text=True),
           dict(op="prefixer", doc=field(i=TXT), code=HOLE, text=True), dict(op="prefixer", doc=field(t=TXT), text=True),
           dict(op="prever", pre=HOLE, doc=field(), text=True), dict(op="prever", pre=L(E), doc=DOC, prefixed=True),
           dict(op="prever", pre=L("B" + E[1:]), doc=field(k=DOC)), dict(op="prever", pre=L("D" + E[1:]), doc=field(n=DOC)),
           dict(op="tail", a=HOLE, doc=field(), text=True), dict(op="tail", a=L("-a"), doc=DOC)]
    for f in ("v", "t", "d", "i", "s", "kt", "k", "nt", "n", "b", "p", "f"):
        out += [dict(op="serder", via="ked", doc=field(**{f: TXT}), text=True), dict(op="serder", via="ked", doc=field(**{f: DOC}))]
    for f in ("k", "n", "b"):
        out.append(dict(op="serder", via="ked", doc=field(**{f: A([TXT])}), text=True))
    for f in ("v", "d", "i", "ri", "s", "a", "e"):
        c = dict(v=S("ACDC10JSON000000_"), d=S(""), i=S(E), s=S(E), a=obj(d=S("")))
        out += [dict(op="creder", via="ked", doc=obj(**{**c, f: TXT}), text=True), dict(op="creder", via="ked", doc=obj(**{**c, f: DOC}))]
    return out


class Hostile:
    def __init__(self, t, rng, thorough=False):
        self.t, self.r, self.th = t, rng, thorough

    def give(self, calls, inputs, tag, batch=40):
        for k in range(0, len(inputs), batch):
            part = inputs[k:k + batch]
            self.one(calls, part, tag)

    def one(self, calls, inputs, tag):
        def utf8(b):
            try:
                bytes(b).decode()
                return True
            except UnicodeDecodeError:
                return False
        res = self.t.ex.call(dict(op="barrage", calls=calls, inputs=[list(b) for b in inputs]))
        if not res.get("ok") and res.get("kind") in ("abort", "hang"):
            if len(inputs) > 1:
                for b in inputs:
                    self.one(calls, [b], tag)
                return
            # which of the readers it was
            got = ""
            for c in calls:
                x = self.t.ex.call(dict(op="barrage", calls=[c], inputs=[list(inputs[0])]))
                got += x["got"][0] if x.get("ok") else x["kind"][0]
            res = {"ok": True, "got": [got]}
        rest = {k: v for k, v in res.items() if k != "panics"}
        # one input, one event: what is rejected is then told precisely
        bad = [i for i, g in enumerate(res.get("got", [])) if set(g) - set("oeu-")]
        ev = dict(op="barrage", calls=calls, tag=tag)
        good = [i for i in range(len(inputs)) if i not in bad]
        if good:
            self.t.events.append(dict(ev, inputs=[list(inputs[i]) for i in good], utf8=[utf8(inputs[i]) for i in good],
                                      res=dict(rest, got=[rest["got"][i] for i in good]) if "got" in rest else rest))
        for i in bad:
            for k, letter in enumerate(rest["got"][i]):
                if letter not in "oeu-":
                    self.t.events.append(dict(ev, calls=[calls[k]], inputs=[list(inputs[i])], utf8=[utf8(inputs[i])],
                                              res={"ok": True, "got": [letter]}))

    # ------------------------------------------------------------------------ short texts, all of them
    def short(self):
        prims = primitives()
        rest = codes()
        docs = documents()
        alpha = [b"A", b"-", b"0", b"1", b"4", b"B", b"z", b"_", b"=", b"\xc3\xa9", b"9", b"\xff"]
        n = 4 if self.th else 3
        for k in range(0, n + 1):
            use = alpha if k == 4 else alpha + [b"2", b"6", b"7", b"E", b"G", b"M", b"V", b"Z", b"a", b"~"]
            self.give(prims, [b"".join(x) for x in itertools.product(use, repeat=k)], "short-primitive", 100)
        alpha = [b"-", b"0", b"1", b"a", b"/", b",", b"[", b'"', b"\xe2\x82\xac", b"{", b".", b"A", b"&"]
        for k in range(0, n):
            self.give(rest, [b"".join(x) for x in itertools.product(alpha, repeat=k)], "short-value", 100)
        for k in range(0, n):
            self.give(docs, [b"".join(x) for x in itertools.product([b"[", b"]", b"{", b"}", b'"', b"1", b"a", b"\xff", b"-"], repeat=k)],
                      "short-document", 60)

    # ------------------------------------------------------------------------ the adversary's behaviours
    def seeds(self):
        from .msggen import Msgs
        r = self.r
        out = []
        for c in MATTER:
            out.append(text_of(c, any_raw(r, c, 1) if MATTER[c][2] is VAR else any_raw(r, c)))
        for c, (hs, ss, os_, fs, ls) in INDEXER.items():
            out.append(idx_text(c, 1, 0, r.randbytes(idx_raw_size(c, 1))))
        for c in COUNTER:
            out.append(c + b64(5, COUNTER[c][1]))
        out += ["1/2,1/2,1/4&1,1", '["1/2","1/3","0"]', '[["1/2","1/2"],["1"]]', "10", "ffff", "-0-a-b", "2020-08-22T17:50:09.988921+00:00",
                "KERI10JSON0000fd_", "ACDC10JSON00011c_", "1.0.0", '{"a":[1,-2.5e3,"\\u00e9",null,true]}']
        m = Msgs(self.t, r)
        docs = [ser(m.event()) for _ in range(6)] + [ser(m.cred()) for _ in range(3)]
        sigs = "-AAC" + idx_text("A", 0, 0, r.randbytes(64)) + idx_text("A", 1, 0, r.randbytes(64))
        ev = ser(m.event("ixn"))
        return [x.encode() for x in out], [x.encode() for x in docs] + [(ev + sigs).encode()]

    def adversary(self):
        prims, docs = self.seeds()
        for name, seeds, calls, num in [("primitive", prims, primitives() + codes(), 220), ("document", docs, documents(), 90)]:
            texts = self.behaviours(seeds, num * (8 if self.th else 1))
            self.give(calls, texts, "adversary-" + name, 40)
            b = [base_bin(x) for x in texts if len(x) % 4 == 0 and all(chr(c) in A64 for c in x)]
            self.give(primitives(), b, "adversary-binary", 40)

    def behaviours(self, seeds, num):
        wd = tempfile.mkdtemp(prefix="vf-host-")
        try:
            path = os.path.join(wd, "seeds.ndjson")
            with open(path, "w") as f:
                for s in seeds:
                    f.write(json.dumps({"t": list(s)}) + "\n")
            r = run_tlc("MC_Hostile", "SPECIFICATION Spec\nINVARIANTS Emit TotalSpec\nPOSTCONDITION Written\nCHECK_DEADLOCK FALSE\n",
                        env={"KSEEDS": path, "KEMIT": "1", "KOUT": path + ".out"}, workers=1,
                        extra=["-simulate", f"num={num}", "-depth", "7", "-seed", str(self.r.randrange(1 << 30))])
            if r.rc != 0:
                raise ToolError("MC_Hostile failed:\n" + r.out[-2000:])
            r.generated = 0
            seen = {}
            with open(path + ".out") as f:
                for x in f:
                    r.generated += 1
                    seen[bytes(json.loads(x)["t"])] = 1
            r.distinct = len(seen)
            self.t.models.append(("MC_Hostile", r))
            return list(seen)
        finally:
            import shutil
            shutil.rmtree(wd, ignore_errors=True)

    # ------------------------------------------------------------------------ damaged and outsized
    def damaged(self):
        r = self.r
        prims, docs = self.seeds()
        calls = documents()
        inputs = []
        for d in docs:
            for _ in range(12 if self.th else 5):
                x = bytearray(d)
                for _ in range(r.choice([1, 1, 2, 5])):
                    k = r.randrange(len(x))
                    y = r.random()
                    if y < 0.4:
                        x[k] = r.randrange(256)
                    elif y < 0.6:
                        del x[k]
                    elif y < 0.8:
                        x[k:k] = r.choice([b"\xc3\xa9", b"\xff", b'"', b"{", b"}", b"\\", b"\\u12", b"0", b"-", b"[[[["])
                    else:
                        x = x[:k + 1]
                inputs.append(bytes(x))
        self.give(calls, inputs, "damaged-document", 20)
        x = [r.randbytes(r.randrange(0, 120)) for _ in range(400 if self.th else 120)]
        self.give(primitives() + codes(), x, "noise", 40)
        self.give(calls, x[:60], "noise-document", 20)
        # every length of one genuine message, and of a version string
        d = docs[0]
        self.give([dict(op="serder", via="raw", data=HOLE), dict(op="creder", via="raw", data=HOLE), dict(op="sniff", data=HOLE)],
                  [d[:k] for k in range(len(d))], "every-cut", 100)
        # values of every kind in every place
        vals = [b"null", b"true", b"0", b"-1", b"1.5", b"1e400", b"123456789012345678901234567890", b'""', b'"x"', b"[]", b"[[]]",
                b"[null]", b"{}", b'{"d":1}', b'["1/2",3]', b'[["1/2"],"1"]', b"[1]", b'["a","b"]', b'{"":{}}', b'["-1/2"]', b'["1/0"]',
                b'["0/0","1"]', b'[["99999999999999999999/1"]]', b'["1/99999999999999999999"]', b"18446744073709551615", b"-9223372036854775808",
                b'"\\u0000"', b'"\\ud800"', b'["1","1","1","1e5"]', b'["0.5","0.5"]', b'["1/2/3"]', b'["/"]', b'[[],[]]', b'[["1"],[]]', b'"[]"',
                b'"[[\\"1/2\\",\\"1/2\\"]]"', b'"-1"', b'"+1"', b'"0x1"', b'" 1"', b'"ffffffffffffffffffffffffffffffff"',
                b'"fffffffffffffffffffffffffffffffff"']
        vals += [b'{"v":' + v + b',"t":' + w + b',"d":' + v + b"}" for v in vals[:12] for w in r.sample(vals, 2)]
        self.give(documents() + [c for c in codes() if "json" in json.dumps(c)], vals, "odd-values", 20)

    def outsized(self):
        r = self.r
        deep = [b"[" * n + b"]" * n for n in (50, 126, 127, 128, 129, 200, 5000, 100000)]
        deep += [b'{"a":' * n + b"1" + b"}" * n for n in (50, 126, 127, 128, 129, 5000, 100000)]
        deep += [b'{"v":"KERI10JSON0000fd_","a":' + b"[" * n + b"]" * n + b"}" for n in (100, 125, 126, 127)]
        big = [b"1" * 50000, b"[" + b"1," * 20000 + b"1]", b'"' + b"x" * 100000 + b'"', b"1/" * 20000, b"1/2," * 20000 + b"1",
               b"A" * 100000, b"-" * 50000, b"0" * 50000, b"f" * 50000, b"9" * 400, b"-a" * 20000, b"\xc3\xa9" * 20000, b"1e" + b"9" * 5000,
               b"4A" + b"__" + b"A" * 16379, b"4A__" + b"A" * 16380, b"7AAA____" + b"A" * 100000, b"0z__" + b"A" * 16380, b"--AAA___" * 10,
               b"1" * 38 + b"/1", b"1/" + b"9" * 39, b"0." + b"0" * 5000 + b"1", b"[" + b'"1/3",' * 5000 + b'"1/7"]']
        calls = [c for c in primitives() if c.get("cls") in ("base", "bexter", "siger", None)] + codes() + documents()
        calls = [c for c in calls if c["op"] not in ("stretch", "saltsigner", "saltsigners")]
        for x in deep + big:
            self.one(calls, [x], "outsized")


def base_bin(x):
    import base64
    return base64.urlsafe_b64decode(x)
