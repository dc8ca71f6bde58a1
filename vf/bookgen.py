"""Many logs at once: histories drawn from spec/MC_Book by TLC, put into keys, documents, signatures, witness
receipts, seals, registries and credentials, and damaged versions of those."""
import json, os, shutil, tempfile
from .cesrgen import b64, idx_text, text_of
from .docgen import A, I, O, S, get, put, rand_doc, ser
from .core import ToolError, Oracle, run_tlc
from .kelgen import DIGS, IDX, PUB, World, quads

NONT = {"A": "B", "J": "1AAA", "Q": "1AAI"}
SIG = {"A": "0B", "J": "0C", "Q": "0I"}
INVS = ["Belongs", "RegsMeant", "CredsMeant", "Granted", "NotRotatedAlone", "NoDelegateOfHonest", "Rooted", "Quorum"]


class BookWorld(World):
    def key(self, k):
        """a witness's key is mostly one that can never be rotated"""
        k = tuple(k)
        if k not in self.keys:
            alg, seed, text = super().key(k)
            if k[0] == 9 and self.r.random() < 0.8:
                self.keys[k] = (alg, seed, NONT[alg] + text[len(PUB[alg]):])
        return self.keys[k]

    def name(self, n):
        return self.pre.get(n) or self.said.get(n) or self.other()

    def num(self, b):
        return int.from_bytes(bytes(b), "big")

    def part(self, ok, *ps):
        """a part of a credential, mostly with an identifier of its own; or with one that is not its own"""
        r = self.r
        if ok and r.random() < 0.3:
            return O(*ps)
        code = r.choice(DIGS)
        d = O(("d", S("#" * len(self.other(code)))), *ps)
        if not ok:
            bad = [S(self.other(code)), S(""), I(1), S(self.hash(code, ser(put(d, "x", I(1))).encode())), S("E" * 44), S(text_of("0A", r.randbytes(16)))]
            return put(d, "d", r.choice(bad))
        return put(d, "d", S(self.hash(code, ser(d).encode())))

    def doc(self, ev):
        r, t = self.r, ev["t"]
        if t == "acdc":
            return self.credential(ev)
        ps = [("v", S("KERI10JSON000000_")), ("t", S(t)), ("d", S("")), ("i", S("")), ("s", S(self.number(ev["sn"])))]
        when = ("dt", S("2023-0%d-1%dT12:00:00.%06d+00:00" % (r.randrange(1, 10), r.randrange(10), r.randrange(10 ** 6))))
        if t == "vcp":
            ps[4:4] = [("ii", S(self.name(ev["ii"])))]
            ps += [("c", A([S("NB")] if r.random() < 0.5 else [])), ("bt", S("0")), ("b", A([])),
                   ("n", S(text_of("0A", r.randbytes(16))))]
            return self.identify(O(*ps), self.code, True)
        if t in ("iss", "rev"):
            ps.append(("ri", S(self.name(ev["ri"]))))
            if t == "rev":
                ps.append(("p", S(self.said.get(ev["prior"]) or self.other())))
            return self.identify(put(O(*ps, when), "i", S(self.name(ev["pre"]))), self.code, False)
        first = t in ("icp", "dip")
        if not first:
            ps.append(("p", S(self.said.get(ev["prior"]) or self.other())))
        if t != "ixn":
            ks = lambda xs: A([S(self.key(tuple(k))[2]) for k in xs])
            ps += [("kt", self.sith(ev["kt"])), ("k", ks(ev["keys"])), ("nt", self.sith(ev["nt"])),
                   ("n", A([S(self.commit(k)) for k in ev["digs"]])), ("bt", S(format(self.num(ev["toad"]), "x")))]
            ps += [("b", ks(ev["wits"])), ("c", A([]))] if first else [("br", ks(ev["cuts"])), ("ba", ks(ev["adds"]))]
        seals = [O(("i", S(self.name(s["i"]))), ("s", S(self.number(s["s"]))), ("d", S(self.said[s["d"]]))) for s in ev["seals"]]
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            seals.insert(r.randrange(len(seals) + 1), r.choice([O(("d", S(self.other()))), S("note"), I(r.randrange(99)), rand_doc(r, 1),
                         O(("i", S(self.other())), ("s", S("0")), ("d", S(self.other()))), O(("i", S(self.name(0))), ("s", I(0)), ("d", S("")))]))
        ps.append(("a", A(seals)))
        if t == "dip":
            ps.append(("di", S(self.name(ev["di"]))))
        if first:
            # an identifier that is its key, now and then
            if t == "icp" and not ev["wits"] and self.basic and len(ev["keys"]) == 1:
                return self.identify(put(O(*ps), "i", S(self.key(tuple(ev["keys"][0]))[2])), self.code, False)
            return self.identify(O(*ps), self.code, True)
        return self.identify(put(O(*ps), "i", S(self.name(ev["pre"]))), self.code, False)

    def credential(self, ev):
        r = self.r
        ps = [("v", S("ACDC10JSON000000_")), ("d", S(""))]
        if r.random() < 0.3:
            ps.append(("u", S(text_of("0A", r.randbytes(16)))))
        ps += [("i", S(self.name(ev["issuer"]))), ("ri", S(self.name(ev["ri"]))), ("s", S(self.other("E")))]
        x = [("i", S(self.name(ev["subject"]))), ("dt", S("2023-01-01T00:00:00.000000+00:00")), ("LEI", S("%020d" % r.randrange(10 ** 20)))]
        if r.random() < 0.3:
            x.append(("more", rand_doc(r, 2)))
        es = [("edge%d" % k, O(("n", S(self.name(n))), ("s", S(self.other("E"))))) for k, n in enumerate(ev["edges"])]
        ok = [True, True] if ev["parts"] else r.choice([[False, True], [True, False], [False, False]])
        ps.append(("a", self.part(ok[0], *x)))
        if ev["edges"] or not ok[1] or r.random() < 0.3:
            ps.append(("e", self.part(ok[1], *es)))
        if r.random() < 0.3:
            ps.append(("r", A([O(("d", S(self.other())))])))
        return self.identify(O(*ps), self.code, False)

    def identify(self, d, code, both):
        proto = bytes(get(d, "v")["v"]).decode()[:4]
        n = len(self.other(code))
        d = put(d, "d", S("#" * n))
        if both:
            d = put(d, "i", S("#" * n))
        d = put(d, "v", S(proto + "10JSON%06x_" % len(ser(d).encode())))
        said = self.hash(code, ser(d).encode())
        d = put(d, "d", S(said))
        return put(d, "i", S(said)) if both else d

    def sized(self, d):
        proto = bytes(get(d, "v")["v"]).decode()[:4]
        return put(d, "v", S(proto + "10JSON%06x_" % len(ser(put(d, "v", S(proto + "10JSON000000_"))).encode())))

    def alter(self, d):
        """something else said, under the same digest"""
        r, t = self.r, get(d, "t")
        if t is not None and bytes(t["v"]) in (b"icp", b"rot", b"ixn"):
            return super().alter(d)
        c = [lambda d: put(d, "extra", I(r.randrange(1000)))]
        if t is None:
            c += [lambda d: put(d, "a", O(("i", S(self.other())))), lambda d: put(d, "a", put(get(d, "a"), "LEI", S("0" * 20))),
                  lambda d: put(d, "s", S(self.other("E")))]
        elif bytes(t["v"]) in (b"dip", b"drt"):
            c += [lambda d: put(d, "nt", I(1)), lambda d: put(d, "c", A([S("EO")])), lambda d: put(d, "n", A([S(self.other())]))]
        else:
            c += [lambda d: put(d, "dt", S("2020-01-01T00:00:00.000000+00:00")), lambda d: put(d, "c", A([S("EO")]))]
        x = self.sized(r.choice(c)(d))
        return x if ser(x) != ser(d) else self.sized(put(d, "extra", I(2)))

    def settle(self, ev):
        n = ev["said"]
        if n not in self.docs:
            d = self.doc(ev)
            self.docs[n], self.raws[n] = d, ser(d).encode()
            self.said[n] = bytes(get(d, "d")["v"]).decode()
            if ev["t"] in ("icp", "dip", "vcp"):
                self.pre[n] = bytes(get(d, "i")["v"]).decode()
        return self.docs[n]

    def groups(self, ev, over):
        """[(counter, elements)] of what comes with an event; over: bytes by digest number"""
        out = {"-A": [], "-B": [], "-C": [], "-G": []}
        for s in ev.get("sigs", []):
            out["-A"].append(self.sig(dict(s, key=tuple(s["key"])), over(s["over"])))
        for s in ev.get("wsigs", []):
            k = tuple(s["wit"])
            alg, raw = self.sign(k, over(s["over"]))
            if s["couple"]:
                out["-C"].append(self.key(k)[2] + text_of(SIG[alg], raw))
            else:
                c = IDX[alg][self.r.randrange(2)]
                big = self.r.random() < 0.1
                out["-B"].append(idx_text(("2" if big else "") + c, s["who"], s["who"] if big and c in "ACE" else 0, raw))
        for s in ev.get("sources", []):
            out["-G"].append(text_of("0A", self.num(s["sn"]).to_bytes(16, "big")) + (self.said.get(s["said"]) or self.other()))
        return [(k, v) for k, v in out.items()]

    def message(self, ev):
        d = self.settle(ev)
        raw = self.raws[ev["said"]]
        shown = raw if ev["intact"] or not ev.get("parts", True) else ser(self.alter(d)).encode()

        def over(n):
            if n == ev["said"]:
                return raw if shown == raw or self.r.random() < 0.4 else shown
            return self.raws.get(n) or raw + b" "
        return shown, self.groups(ev, over)


def attach(r, groups):
    """the groups as they may travel: in any order, in one piece or several"""
    out = []
    if not any(els for _, els in groups):
        return ""
    for code, els in groups:
        if not els:
            if r.random() < 0.02:
                out.append(code + "AA")
            continue
        k = r.randrange(1, len(els)) if len(els) > 1 and r.random() < 0.15 else len(els)
        for x in (els[:k], els[k:]):
            if x:
                out.append(code + b64(len(x), 2) + "".join(x))
    r.shuffle(out)
    return "".join(out)


class Books:
    def __init__(self, t, rng, deep=False):
        self.t, self.r, self.deep = t, rng, deep
        self.o = Oracle(t.ex)

    def drawn(self, num, wits, offers=45, made=60):
        wd = tempfile.mkdtemp(prefix="vf-book-")
        try:
            out = os.path.join(wd, "out")
            cfg = (f'SPECIFICATION Spec\nCONSTANTS MaxOffers = {offers}\n MaxMade = {made}\n Witnesses = {wits}\n Active = {{1, 2, 3}}\n Under_ = FALSE\n Recording = TRUE\n'
                   f'INVARIANTS {" ".join(INVS)}\nPROPERTY Lasting\nCHECK_DEADLOCK FALSE\nPOSTCONDITION Written\n')
            r = run_tlc("MC_Book", cfg, env={"KOUT": out}, workers=1,
                        extra=["-simulate", f"num={num}", "-depth", str(6 * offers), "-seed", str(self.r.randrange(1 << 30))])
            if r.rc != 0:
                raise ToolError("MC_Book failed:\n" + r.out[-2000:])
            with open(out) as f:
                hs = [json.loads(x) for x in f]
            r.generated = sum(len(h["h"]) for h in hs)
            r.distinct = len(hs)
            self.t.models.append((f"MC_Book({wits} witnesses, drawn)", r))
            return hs
        finally:
            shutil.rmtree(wd, ignore_errors=True)

    def books(self, n):
        for wits in (0, 4):
            for h in self.drawn(n, wits):
                w = BookWorld(self.r, self.o, self.r.random() < 0.5)
                for ev in h["made"]:
                    w.settle(ev)
                yield w, h, [w.message(s["ev"]) for s in h["h"]], [s["ok"] for s in h["h"]]

    def bytes(self, ms, dom):
        f = (lambda s: s.encode()) if dom == "text" else quads
        return [d + f(attach(self.r, g)) for d, g in ms]

    def histories(self):
        for w, h, ms, want in self.books(60 if self.deep else 20):
            for dom in ("text", "bin") if self.deep else (self.r.choice(["text", "bin"]),):
                self.replay(w, "history", self.bytes(ms, dom), dom, want=want)

    def replay(self, w, tag, msgs, dom, **kw):
        self.t.do("book", tag, dom=dom, code=w.code, msgs=[list(m) for m in msgs], **kw)

    def damaged(self):
        """histories with messages and attachments cut, spliced, respelled and rearranged, and events that say something else"""
        r = self.r
        for w, h, ms, want in self.books(40 if self.deep else 14):
            keep = [(m, s["ev"]) for m, s, ok in zip(ms, h["h"], want) if ok]
            if len(keep) < 3:
                continue
            for _ in range(2):
                dom = r.choice(["text", "bin"])
                f = (lambda s: s.encode()) if dom == "text" else quads
                out = [d + f(attach(r, g)) for (d, g), _ in keep]
                # towards the end, so that what comes before stands
                for _ in range(r.choice([1, 2, 3])):
                    k = max(r.randrange(len(keep)), r.randrange(len(keep)))
                    (d, g), ev = keep[k]
                    how = r.choice(["flip", "cut", "swap", "twice", "drop", "tail", "groups", "groups", "said", "said", "said", "early"])
                    x = None
                    if how == "flip":
                        b = bytearray(out[k] if k < len(out) else out[-1])
                        b[r.randrange(len(b))] = r.choice(list(b'"{}[]:,0123456789abcdefABEF-_DGz'))
                        x = bytes(b)
                    elif how == "cut":
                        b = d + f(attach(r, g))
                        x = b[:r.randrange(len(d) // 2, len(b))]
                    elif how == "tail":
                        x = d + f(attach(r, g)) + f(r.choice(["-AAA", "-BAA", "-CAA", "-GAA", "-DAA", "-VAA", "-AAB", "AAAA", "-GAB"]))
                    elif how == "groups":
                        x = d + f(attach(r, self.regroup(w, g)))
                    elif how == "said":
                        x = self.resaid(w, d, ev, f)
                    elif how == "early":
                        x = out.pop(min(k, len(out) - 1))
                        out.insert(r.randrange(len(out) + 1), x)
                        continue
                    elif how == "swap":
                        j = r.randrange(len(out))
                        i = min(k, len(out) - 1)
                        out[i], out[j] = out[j], out[i]
                    elif how == "twice":
                        out.insert(r.randrange(len(out) + 1), out[min(k, len(out) - 1)])
                    elif how == "drop" and len(out) > 1:
                        out.pop(min(k, len(out) - 1))
                    if x is not None:
                        out.insert(min(k, len(out)), x)          # the genuine one follows
                self.replay(w, "damaged", out, dom)

    def regroup(self, w, g):
        """attachments under other counters, some missing, doubled or of other making"""
        r = self.r
        g = [(c, list(e)) for c, e in g]
        full = [k for k, (c, e) in enumerate(g) if e] or [0]
        k = r.choice(full)
        c, e = g[k]
        how = r.randrange(6)
        if how == 0:
            g[k] = (r.choice(["-A", "-B", "-C", "-D", "-E", "-G", "-I"]), e)
        elif how == 1:
            g[k] = (c, e[:-1])
        elif how == 2:
            g[k] = (c, e + e[:1])
        elif how == 3:
            g[k] = (c, [w.other() if c == "-G" else x[:-1] + r.choice("ABCDwxyz") for x in e])
        elif how == 4:
            g[k] = (c, list(reversed(e)))
        else:
            g.append(("-G", [text_of("0A", r.randrange(4).to_bytes(16, "big")) + r.choice(list(w.said.values()))]))
        return g

    def resaid(self, w, raw, ev, f):
        """an event that says something else, identified and signed afresh by whoever could"""
        r = self.r
        d = w.docs[ev["said"]]
        k = r.choice([bytes(x).decode() for x in d["k"] if bytes(x) not in (b"v", b"d", b"t")])
        names = list(w.said.values()) + list(w.pre.values())
        texts = [S(""), S("0"), S("1"), S("2"), S("00"), S("a"), S("x"), I(0), I(1), A([]), O(), S(r.choice(names)), S(r.choice(names)), S(w.other()),
                 S(w.key((9, r.randrange(1, 5)))[2]), A([S(w.key((9, r.randrange(1, 5)))[2]) for _ in range(r.randrange(4))])]
        v = get(d, k)
        if k == "a" and v["t"] == "a" and v["v"] and r.random() < 0.8:
            xs = list(v["v"])
            j = r.randrange(len(xs))
            s = xs[j]
            if s["t"] == "o" and s["k"]:
                q = r.choice([bytes(x).decode() for x in s["k"]])
                xs[j] = r.choice([put(s, q, r.choice(texts)), put(s, "zz", S("1")), O()])
            else:
                xs.pop(j)
            v = A(xs)
        elif k in ("a", "e") and v["t"] == "o" and r.random() < 0.8:
            q = r.choice([bytes(x).decode() for x in v["k"]] or ["d"])
            v = put(v, q, r.choice(texts + [O(("n", S(r.choice(names))))]))
        elif r.random() < 0.15:
            v = None
        else:
            v = r.choice(texts)
        x = put(d, k, v) if v is not None else O(*[(bytes(a).decode(), b) for a, b in zip(d["k"], d["v"]) if bytes(a) != k.encode()])
        both = ev["t"] in ("icp", "dip", "vcp") and get(d, "i") == get(d, "d")
        x = w.identify(x, w.code, both and k != "i")
        raw2 = ser(x).encode()
        return raw2 + f(attach(r, w.groups(dict(ev), lambda n: raw2 if n == ev["said"] else w.raws.get(n, raw2))))
