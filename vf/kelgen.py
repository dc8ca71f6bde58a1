"""Key event logs: histories drawn from spec/MC_Kel by TLC, put into keys, digests, signatures and bytes,
and damaged versions of those.  The keys and signatures are made without keride."""
import hashlib, json, os, shutil, tempfile
from .cesrgen import b64, idx_text, text_of
from .docgen import A, I, O, S, bs, get, put, rand_doc, ser
from .core import Oracle, ToolError, run_tlc

PUB = {"A": "D", "J": "1AAB", "Q": "1AAJ"}
IDX = {"A": "AB", "J": "CD", "Q": "EF"}
DIGS = ["E", "E", "E", "F", "G", "H", "I", "0D", "0E", "0F", "0G"]
ROOMY = ["E", "E", "E", "H", "I", "0G"]
INVS = ["Control", "Voice", "OneInception", "Line", "Counted", "Safe", "Recoverable", "Committed"]


def quads(text):
    import base64
    return base64.urlsafe_b64decode(text)


class World:
    """one history's meaning: which bytes stand for its keys, events and identifiers"""

    def __init__(self, rng, oracle, basic):
        self.r, self.o, self.salt = rng, oracle, rng.randbytes(8)
        self.basic, self.code = basic, rng.choice(ROOMY)
        self.keys, self.docs, self.raws, self.pre, self.said, self.digs = {}, {}, {}, {}, {}, {}

    def key(self, k):
        k = tuple(k)
        if k not in self.keys:
            alg = self.r.choice("AAJQ")
            seed = hashlib.sha256(self.salt + repr(k).encode()).digest()
            pub = bytes(self.o.value({"k": "pubkey", "c": alg, "p": list(seed)}))
            self.keys[k] = (alg, seed, text_of(PUB[alg], pub))
        return self.keys[k]

    def hash(self, code, data):
        return text_of(code, bytes(self.o.value({"k": "hash", "c": code, "p": list(data)})))

    def commit(self, k):
        k = tuple(k)
        if k not in self.digs:
            self.digs[k] = self.hash(self.r.choice(DIGS), self.key(k)[2].encode())
        return self.digs[k]

    def other(self, code=None):
        code = code or self.code
        return text_of(code, self.r.randbytes(64 if code[0] == "0" else 32))

    def sith(self, t):
        r = self.r
        if not t["w"]:
            n = 0
            for b in t["n"]:
                n = n * 256 + b
            return I(n) if r.random() < 0.2 else S(format(n, "x"))
        cls = []
        for c in t["cl"]:
            ws = []
            for w in c:
                m = r.choice([1, 1, 1, 2, 3]) if w["n"] and w["n"] < w["d"] else 1
                ws.append(S("0" if not w["n"] else "1" if w["n"] == w["d"] and r.random() < 0.9 else f"{w['n'] * m}/{w['d'] * m}"))
            cls.append(A(ws))
        return cls[0] if len(cls) == 1 and r.random() < 0.7 else A(cls)

    # -------------------------------------------------------------------------------- documents
    def number(self, sn):
        n = 0
        for b in sn:
            n = n * 256 + b
        return format(n, "x")

    def doc(self, ev):
        """the event with its own digest in place"""
        r, t = self.r, ev["t"]
        code = self.code
        ps = [("v", S("KERI10JSON000000_")), ("t", S(t)), ("d", S("")), ("i", S("")), ("s", S(self.number(ev["sn"])))]
        if t != "icp":
            ps.append(("p", S(self.said.get(ev["prior"]) or self.other())))
        if t != "ixn":
            ps += [("kt", self.sith(ev["kt"])), ("k", A([S(self.key(k)[2]) for k in ev["keys"]])),
                   ("nt", self.sith(ev["nt"])), ("n", A([S(self.commit(k)) for k in ev["digs"]])), ("bt", S("0"))]
            ps += [("b", A([])), ("c", A([]))] if t == "icp" else [("br", A([])), ("ba", A([]))]
        ps.append(("a", A([O(("seal", I(ev["said"])), ("d", S(self.other())))] if r.random() < 0.6 else [])))
        if r.random() < 0.1:
            ps.append(("x", rand_doc(r, 2)))
        d = O(*ps)
        both = False
        if t == "icp":
            if self.basic and len(ev["keys"]) == 1 and ev["own"]:
                d = put(d, "i", S(self.key(ev["keys"][0])[2]))
            elif ev["own"]:
                both = True
            else:
                d = put(d, "i", S(self.pre.get(ev["pre"]) or r.choice([self.other(), self.key((99, 1))[2]])))
        else:
            d = put(d, "i", S(self.pre.get(ev["pre"]) or self.other()))
        return self.identify(d, code, both)

    def identify(self, d, code, both):
        n = len(self.other(code))
        d = put(d, "d", S("#" * n))
        if both:
            d = put(d, "i", S("#" * n))
        d = put(d, "v", S("KERI10JSON%06x_" % len(ser(d).encode())))
        said = self.hash(code, ser(d).encode())
        d = put(d, "d", S(said))
        return put(d, "i", S(said)) if both else d

    def sized(self, d):
        return put(d, "v", S("KERI10JSON%06x_" % len(ser(put(d, "v", S("KERI10JSON000000_"))).encode())))

    def alter(self, d):
        """something else said, under the same digest; still this kind of event"""
        r = self.r
        c = [lambda d: put(d, "a", A([O(("z", S(self.other())))])), lambda d: put(d, "a", A([I(r.randrange(1000))])),
             lambda d: put(d, "extra", I(1))]
        if get(d, "t")["v"] != bs("ixn"):
            c += [lambda d: put(d, "nt", S("1") if get(d, "nt") != S("1") else I(1)),
                  lambda d: put(d, "n", A([S(self.other()) for _ in get(d, "n")["v"]] + [S(self.other())])),
                  lambda d: put(d, "bt", S("1")), lambda d: put(d, "k", A(get(d, "k")["v"] + [S(self.key((98, 1))[2])]))]
        x = self.sized(r.choice(c)(d))
        if r.random() < 0.3 and get(d, "d") != get(d, "i"):
            x = put(d, "d", S(self.other()))
        return x if x != d else self.sized(put(d, "extra", I(2)))

    # --------------------------------------------------------------------------------- messages
    def settle(self, ev):
        """the document of an event number, made when first met"""
        n = ev["said"]
        if n not in self.docs:
            d = self.doc(ev)
            self.docs[n], self.raws[n] = d, ser(d).encode()
            self.said[n] = bytes(get(d, "d")["v"]).decode()
            if ev["t"] == "icp" and ev["own"]:
                self.pre.setdefault(ev["pre"], bytes(get(d, "i")["v"]).decode())
        return self.docs[n]

    def sign(self, k, raw):
        alg, seed, _ = self.key(k)
        return alg, bytes(self.o.value({"k": "sign", "c": alg, "p": [list(seed), list(raw)]}))

    def sig(self, s, over):
        alg, raw = self.sign(s["key"], over)
        c = IDX[alg][0 if s["both"] else 1]
        r = self.r
        if s["both"]:
            big = s["index"] != s["ondex"] or s["index"] > 63 or r.random() < 0.15
            return idx_text("2" + c, s["index"], s["ondex"], raw) if big else idx_text(c, s["index"], 0, raw)
        return idx_text("2" + c, s["index"], 0, raw) if r.random() < 0.15 else idx_text(c, s["index"], 0, raw)

    def message(self, ev):
        d = self.settle(ev)
        raw = self.raws[ev["said"]]
        shown = raw if ev["intact"] else ser(self.alter(d)).encode()
        sigs = []
        for s in ev["sigs"]:
            if s["over"] == ev["said"]:
                over = raw if shown == raw or self.r.random() < 0.4 else shown
            else:
                over = self.raws.get(s["over"]) or raw + b" "
            sigs.append(self.sig(s, over))
        return shown, sigs


def attach(sigs):
    return "-A" + b64(len(sigs), 2) + "".join(sigs)


class Kels:
    def __init__(self, t, rng, deep=False):
        self.t, self.r, self.deep = t, rng, deep
        self.o = Oracle(t.ex)

    def drawn(self, keys, steal, num, offers, sn=8, gens=4, calm=False):
        wd = tempfile.mkdtemp(prefix="vf-kel-")
        try:
            out = os.path.join(wd, "out")
            cfg = (f'SPECIFICATION Spec\nCONSTANTS Gens = {gens}\n KeysPer = {keys}\n Steal = "{steal}"\n MaxThefts = 4\n MaxSn = {sn}\n'
                   f' MaxOffers = {offers}\n Recording = TRUE\n Wild = TRUE\n Calm = {str(calm).upper()}\nINVARIANTS {" ".join(INVS)}\n'
                   'CHECK_DEADLOCK FALSE\nPOSTCONDITION Written\n')
            r = run_tlc("MC_Kel", cfg, env={"KOUT": out}, workers=1,
                        extra=["-simulate", f"num={num}", "-depth", str(offers + 7), "-seed", str(self.r.randrange(1 << 30))])
            if r.rc != 0:
                raise ToolError("MC_Kel failed:\n" + r.out[-2000:])
            with open(out) as f:
                hs = [json.loads(x)["h"] for x in f]
            r.generated = sum(len(h) for h in hs)
            r.distinct = len(hs)
            self.t.models.append((f"MC_Kel({keys} keys, {steal})", r))
            return hs
        finally:
            shutil.rmtree(wd, ignore_errors=True)

    def logs(self, scale=1):
        """(messages, signatures, verdicts) of histories"""
        n = (60 if self.deep else 14) * scale
        for keys in (1, 2, 3):
            for steal in ("old", "current", "next"):
                for h in self.drawn(keys, steal, n, 12 if self.deep else 9):
                    w = World(self.r, self.o, keys == 1 and self.r.random() < 0.6)
                    yield w, [w.message(s["ev"]) for s in h], [s["ok"] for s in h]

    def long(self):
        """logs of many events, so that sequence numbers and their texts grow"""
        for keys, num, offers in ((1, 2, 46), (2, 2, 46)) if not self.deep else ((1, 4, 60), (2, 4, 60), (3, 2, 60), (1, 1, 285)):
            for h in self.drawn(keys, "none", num, offers, 400, 400, True):
                w = World(self.r, self.o, keys == 1 and self.r.random() < 0.6)
                ms = [d + attach(s).encode() for d, s in (w.message(s["ev"]) for s in h)]
                want = [s["ok"] for s in h]
                self.replay(w, "long", ms, "text", want=want)
                self.stream(w, "long-stream", b"".join(ms), "text", want=want)

    def replay(self, w, tag, msgs, dom, **kw):
        self.t.do("kel", tag, dom=dom, code=w.code, msgs=[list(m) for m in msgs], **kw)

    def histories(self):
        for w, ms, want in self.logs():
            text = [d + attach(s).encode() for d, s in ms]
            bin_ = [d + quads(attach(s)) for d, s in ms]
            self.replay(w, "history", text, "text", want=want)
            self.replay(w, "history-binary", bin_, "bin", want=want)
            dom, ms_ = self.r.choice([("text", text), ("bin", bin_)])
            self.stream(w, "stream", b"".join(ms_), dom, want=want)

    def streams(self):
        """whole logs as one stream, damaged anywhere"""
        r = self.r
        for w, ms, want in self.logs():
            dom = r.choice(["text", "bin"])
            keep = [d + (attach(s).encode() if dom == "text" else quads(attach(s))) for d, s in ms]
            for _ in range(2):
                b = bytearray(b"".join(keep))
                at = sum(len(m) for m in keep[:r.randrange(1, len(keep) + 1)])
                how = r.randrange(6)
                if how == 0:
                    b[r.randrange(len(b))] = r.choice(list(b'"{}[]:,0123456789abcdefABEF-_DGz'))
                elif how == 1:
                    del b[r.randrange(len(b)):]
                elif how == 2:
                    b[at:at] = r.choice([b"\n", b" ", b"-AAB", b"-AAA", b"{", b"}", b"\0\0\0", b"A"])
                elif how == 3:
                    i = max(0, at - r.choice([1, 2, 3, 4, 66, 88]))
                    del b[i:i + r.choice([1, 2, 3, 4, 66, 88])]
                elif how == 4:
                    i = r.randrange(len(keep))
                    j = r.randrange(len(keep))
                    b = bytearray(b"".join(keep[:i] + [keep[j]] + keep[i:]))
                else:
                    b += r.choice([b"\xff", b"{}", b"-", keep[0][:30], b" " * 40])
                self.stream(w, "stream-damaged", bytes(b), dom)

    def stream(self, w, tag, data, dom, **kw):
        self.t.do("kel", tag, dom=dom, code=w.code, stream=list(data), **kw)

    def damaged(self):
        """logs with the messages cut, spliced, respelled and rearranged; no history says what comes of them"""
        r = self.r
        for w, ms, want in self.logs():
            keep = [m for m, ok in zip(ms, want) if ok] or ms[:1]
            for _ in range(3):
                out = [d + attach(s).encode() for d, s in keep]
                for _ in range(r.choice([1, 1, 2])):
                    k = r.randrange(len(out))
                    how = r.choice(["flip", "flip", "cut", "swap", "twice", "drop", "loose", "count", "tail", "bad", "kind", "field", "sigs",
                                    "lists", "cross"])
                    d, s = keep[min(k, len(keep) - 1)]
                    x = self.damage(w, how, d, list(s), out[k])
                    if how == "swap":
                        j = r.randrange(len(out))
                        out[k], out[j] = out[j], out[k]
                    elif how == "twice":
                        out.insert(r.randrange(len(out) + 1), out[k])
                    elif how == "drop" and len(out) > 1:
                        out.pop(k)
                    elif how == "cross":
                        out.insert(k, keep[r.randrange(len(keep))][0] + attach(s).encode())
                    elif x is not None:
                        if r.random() < 0.5:
                            out[k] = x
                        else:
                            out.insert(k, x)
                self.replay(w, "damaged", out, "text")

    def damage(self, w, how, d, s, whole):
        r = self.r
        if how == "flip":
            b = bytearray(whole)
            for _ in range(r.choice([1, 1, 3])):
                b[r.randrange(len(b))] = r.choice(list(b'"{}[]:,0123456789abcdefABEF-_DGz'))
            return bytes(b)
        if how == "cut":
            return whole[:r.randrange(len(whole))]
        if how == "tail":
            return whole + r.choice([b"-AAB", b"{", b"-AAA", attach(s).encode(), b"A", b"-VAA"])
        if how == "count":
            return d + ("-A" + b64(max(0, len(s) + r.choice([-1, 1, 2])), 2) + "".join(s)).encode()
        if how == "bad":
            return d + ("-" + r.choice("BCDEFGHV") + b64(len(s), 2) + "".join(s)).encode()
        doc = json.loads(d)
        if how == "loose":
            return self.signed(w, json.dumps(doc, separators=r.choice([(", ", ": "), (",", ": ")])).encode(), s, doc)
        if how == "kind":
            doc["t"] = r.choice(["rct", "drt", "dip", "icp", "rot", "ixn", "ICP", "", "vcp"])
        elif how == "field":
            k = r.choice([x for x in doc if x != "v"])
            if r.random() < 0.4:
                doc.pop(k)
            else:
                doc[k] = r.choice(["", "0", "1", "00", "1x", "ffffffffffffffffffffffffffffffff", 0, 1, [], ["1/2", "1/2"], {}, True,
                                   doc.get("i", ""), doc.get("d", "")])
        elif how == "lists" and "k" in doc:
            k = r.choice(["k", "n"])
            v = list(doc[k])
            y = r.random()
            if y < 0.3 and v:
                v.pop(r.randrange(len(v)))
            elif y < 0.6:
                v.insert(r.randrange(len(v) + 1), r.choice(v) if v else w.other())
            elif y < 0.8:
                r.shuffle(v)
            else:
                v.append(r.choice([w.other(), w.key((97, 1))[2], "", "E", 1]))
            doc[k] = v
        elif how == "sigs":
            r.shuffle(s)
            return d + attach(s + s[:1]).encode()
        else:
            return None
        return self.signed(w, json.dumps(doc, separators=(",", ":")).encode(), s, doc)

    def signed(self, w, raw, s, doc):
        """the document with its size and digest redone and signed afresh, as far as the keys are at hand"""
        r = self.r
        if r.random() < 0.3:
            return raw + attach(s).encode()
        loose = b'": ' in raw
        dump = (lambda d: json.dumps(d, separators=(", ", ": "))) if loose else (lambda d: json.dumps(d, separators=(",", ":")))
        if isinstance(doc.get("v"), str) and isinstance(doc.get("d"), str) and doc["d"]:
            whole = doc["d"] == doc.get("i")
            x = dict(doc)
            x["d"] = "#" * len(w.other())
            if whole:
                x["i"] = x["d"]
            x["v"] = "KERI10JSON%06x_" % len(dump(x).encode())
            said = w.hash(w.code, json.dumps(x, separators=(",", ":")).encode() if r.random() < 0.7 else dump(x).encode())
            x["d"] = said
            if whole:
                x["i"] = said
            doc = x
        raw = dump(doc).encode()
        by = {v[2]: k for k, v in w.keys.items()}
        ks = doc.get("k") if isinstance(doc.get("k"), list) else []
        out = []
        for i, k in enumerate(ks):
            if isinstance(k, str) and k in by:
                out.append(w.sig(dict(key=by[k], index=i, ondex=i, both=True), raw))
        return raw + attach(out or s).encode()
