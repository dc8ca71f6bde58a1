"""Concatenated material for spec/Stream.tla to judge."""
import base64
from .cesrgen import A64, CLASSES, COUNTER, INDEXER, L, MATTER, NASTY, VAR, any_raw, b64, idx_raw_size, idx_text, text_of

SIGERS = [c for c in INDEXER if c[-1] in "ABCDEF" and c[0] not in "03"]
# weak keys and impossible dates are refused for reasons of their own
PLAIN = ["diger", "saider", "salter", "signer", "number", "seqner", "cigar", "bexter", "verfer", "prefixer"]


class Streams:
    def __init__(self, tr, rng, thorough=False):
        self.t, self.r, self.th = tr, rng, thorough

    def element(self):
        r = self.r
        k = r.random()
        if k < 0.25:
            code = r.choice(list(COUNTER))
            lim = 64 ** COUNTER[code][1]
            return "counter", code + b64(r.choice([0, 1, lim - 1, r.randrange(lim)]), COUNTER[code][1])
        if k < 0.5:
            kind = r.choice(["siger", "indexer"])
            code = r.choice(SIGERS if kind == "siger" else list(INDEXER))
            hs, ss, os_, fs, ls = INDEXER[code]
            lim = 64 ** (ss - os_)
            ix = r.choice([0, 1, 2, 7]) if fs is VAR else r.choice([0, 1, lim - 1, r.randrange(lim)])
            od = 0 if os_ == 0 or code[-1] in "BDF" else r.choice([0, ix % 64 ** os_, 64 ** os_ - 1])
            return kind, idx_text(code, ix, od, r.randbytes(idx_raw_size(code, ix)))
        if k < 0.75:
            kind = r.choice(PLAIN)
            code = r.choice(CLASSES[kind])
            return kind, text_of(code, any_raw(r, code))
        code = r.choice(list(MATTER))
        return "matter", text_of(code, any_raw(r, code))

    def read(self, dom, plan, data, tag):
        self.t.do("stream", dom=dom, plan=plan, data=L(data), tag=tag)

    def both(self, plan, text, tag):
        self.read(self.r.choice(["qb64", "qb64b"]), plan, text, tag)
        if all(c in A64 for c in text):
            whole = len(text) // 4 * 4
            self.read("qb2", plan, base64.urlsafe_b64decode(text[:whole]), tag)

    def some(self, n):
        els = [self.element() for _ in range(n)]
        return [k for k, _ in els], [t for _, t in els]

    def streams(self):
        r = self.r
        for n in [1, 2, 2, 3, 3, 4, 5, 6, 8, 12, 20]:
            for _ in range(14):
                plan, texts = self.some(n)
                text = "".join(texts)
                self.both(plan, text, "whole")
                for tail in r.sample(["A", "AAAA", "-AAB", "{\"v\":1}", "\n", "=", "0", "\u20ac"], 2):
                    self.read(r.choice(["qb64", "qb64b"]), plan, text + tail, "tail")
                self.read("qb2", plan, base64.urlsafe_b64decode(text) + r.randbytes(r.randrange(1, 4)), "tail")
                # a reader expecting something else at one place
                p2 = list(plan)
                p2[r.randrange(n)] = r.choice(PLAIN + ["counter", "siger", "indexer", "matter", "dater"])
                self.both(p2, text, "other-plan")
                self.both(plan + [r.choice(["counter", "siger", "matter"])], text, "more-expected")

    def long(self):
        """long elements between others, and many of them"""
        r = self.r
        var = [c for c, z in MATTER.items() if z[2] is VAR]
        small, big = [c for c in var if len(c) == 2], [c for c in var if len(c) == 4]
        for q in [63, 64, 65, 255, 257, 1023, 4094, 4095]:
            els = [("matter", text_of(c, any_raw(r, c, q))) for c in r.sample(small, 2) + r.sample(big, 2)]
            if q > 4000:
                els = els[:1] + els[2:3]
            mixed = []
            for e in els:
                mixed += [e, self.element()]
            self.both([k for k, _ in mixed], "".join(t for _, t in mixed), "long")
            text = "".join(t for _, t in mixed)
            cut = r.randrange(len(mixed[0][1]), len(text))
            self.both([k for k, _ in mixed], text[:cut], "long cut")
        for q in [4096, 5000]:
            c = r.choice(big)
            els = [self.element(), ("matter", text_of(c, any_raw(r, c, q))), self.element()]
            self.both([k for k, _ in els], "".join(t for _, t in els), "long")
        for n in [64, 100, 150]:
            plan, texts = self.some(n)
            self.both(plan, "".join(texts), "many")

    def cuts(self):
        r = self.r
        for _ in range(6):
            plan, texts = self.some(3)
            text = "".join(texts)
            bn = base64.urlsafe_b64decode(text)
            ends = {0, len(text)}
            for i in range(3):
                e = sum(map(len, texts[:i + 1]))
                ends |= {e + d for d in (-4, -3, -2, -1, 0, 1, 2, 3, 4, 5)}
            for k in sorted(x for x in ends | {r.randrange(len(text)) for _ in range(6)} if 0 <= x <= len(text)):
                self.read(r.choice(["qb64", "qb64b"]), plan, text[:k], "cut")
                self.read("qb2", plan, bn[:k * 3 // 4], "cut")

    def damaged(self):
        r = self.r
        for _ in range(50):
            plan, texts = self.some(r.randrange(2, 5))
            text = "".join(texts)
            starts = [sum(map(len, texts[:i])) for i in range(len(texts))]
            for p in {r.randrange(len(text))} | {s + r.randrange(4) for s in starts}:
                c = r.choice(NASTY + list(A64[::5]) + ["A", "-", "_"])
                self.both(plan, text[:p] + c + text[p + 1:], "damaged")
            # one character lost, one too many, two elements swapped
            p = r.randrange(len(text))
            self.both(plan, text[:p] + text[p + 1:], "lost")
            self.both(plan, text[:p] + r.choice(A64) + text[p:], "extra")
            if len(texts) > 1:
                i = r.randrange(len(texts) - 1)
                texts[i], texts[i + 1] = texts[i + 1], texts[i]
                self.both(plan, "".join(texts), "swapped")
