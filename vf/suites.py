"""One function per property: which models TLC explores and which behaviours of the real code it judges."""
from .core import Oracle, Trace, model_check, validate, validate2
from .bookgen import INVS as BOOK, Books
from .cesrgen import Cesr
from .docgen import Docs
from .hostilegen import Hostile
from .kelgen import INVS as KEL, Kels
from .keygen import Digs, Paths, Pres
from .msggen import Msgs
from .saidgen import Saids
from .signgen import Salts, Signs
from .streamgen import Streams
from .tholdgen import Tholds
from .valgen import Vals

ACC = "CONSTANT Accepts <- Acc\n"
ACC2 = ACC + "CONSTANT Needs <- NeedsOf\n"


def mc(ck, module, consts="", invs=(), props=(), spec="Spec", workers=8, heap="6g", timeout=800, deadlock=False):
    cfg = f"SPECIFICATION {spec}\n{consts}\n"
    if invs:
        cfg += "INVARIANTS " + " ".join(invs) + "\n"
    if props:
        cfg += "PROPERTIES " + " ".join(props) + "\n"
    cfg += f"CHECK_DEADLOCK {'TRUE' if deadlock else 'FALSE'}\n"
    ck.model(module, model_check(module, cfg, workers=workers, heap=heap, timeout=timeout))


def judge(ck, name, events, module, consts=ACC, size=12000, **kw):
    """validate in slices: TLC reads the whole trace file into memory"""
    for k in range(0, len(events), size):
        part = events[k:k + size]
        ck.trace(name if k == 0 else f"{name}+{k}", part, validate(module, part, consts, **kw))


def record(ck, name, gen):
    ex = ck.executor()
    t = Trace(ex, name)
    try:
        gen(t)
    finally:
        ex.stop()
    for m, r in t.models:
        ck.model(m, r)
    return t.events


def judge2(ck, name, events, module, size=6000, **kw):
    """the same where algorithms are uninterpreted in the specification"""
    ex = ck.executor()
    try:
        o = Oracle(ex)
        for k in range(0, len(events), size):
            part = events[k:k + size]
            ck.trace(name if k == 0 else f"{name}+{k}", part, validate2(module, part, o, ACC2, **kw))
    finally:
        ex.stop()


def suite(ck, cls, names, module, reps=1, how=None, **kw):
    """run the named generators of a class and judge what the library did"""
    def gen(t):
        for _ in range(reps):
            g = cls(t, ck.rng, ck.thorough)
            for n in names:
                getattr(g, n)()
    (how or judge)(ck, "+".join(names), record(ck, names[0], gen), module, **kw)


def cesr(ck, names, reps=1):
    def gen(t):
        for _ in range(reps):
            g = Cesr(t, ck.rng, ck.thorough)
            for n in names:
                getattr(g, n)()
    judge(ck, "+".join(names), record(ck, names[0], gen), "T_Cesr")


FLIPS_Q = "{0,1,2,4,8,16,31,32,48,52,55,61,62,63}"
FLIPS_T = "{" + ",".join(map(str, range(64))) + "}"


def mc_cesr(ck):
    mc(ck, "MC_Cesr", f"CONSTANT Flips = {FLIPS_T if ck.thorough else FLIPS_Q}",
       ["RoundTrip", "Canonical", "NoInvention"])


def mc_indexed(ck):
    ix = "{0,1,2,5,63,64,65,4095,4096,262143}" if ck.thorough else "{0,1,63,64,4095,262143}"
    mc(ck, "MC_Indexed", f"CONSTANT Flips = {FLIPS_T if ck.thorough else FLIPS_Q}\nCONSTANT Indices = {ix}",
       ["RoundTrip", "Canonical", "NoInvention", "CurrentOnlyHasNoOndex"])


def C01(ck):
    mc_cesr(ck)
    cesr(ck, ["roundtrip", "promotion", "large", "typed"], 8 if ck.thorough else 2)


def C02(ck):
    mc_cesr(ck)
    mc_indexed(ck)
    cesr(ck, ["mutated", "starts"], 6 if ck.thorough else 1)
    cesr(ck, ["indexers_mutated", "counters"], 3 if ck.thorough else 1)
    cesr(ck, ["typed_mutated"], 4 if ck.thorough else 1)


def C03(ck):
    mc(ck, "MC_Stream", f"CONSTANT MaxElems = {3 if ck.thorough else 2}",
       ["ReadsBack", "Composes", "Untouched", "Cuts", "Apart"])
    suite(ck, Streams, ["streams", "long", "cuts", "damaged"], "T_Stream", 4 if ck.thorough else 1,
          consts="CONSTANT Accepts <- StreamAcc\n")


def C04(ck):
    mc_indexed(ck)
    cesr(ck, ["indexers", "indexers_mutated"], 4 if ck.thorough else 1)


def C05(ck):
    mc_indexed(ck)
    cesr(ck, ["counters", "semvers"], 8 if ck.thorough else 2)


def C19(ck):
    mc_cesr(ck)
    cesr(ck, ["typed", "names"], 8 if ck.thorough else 2)
    cesr(ck, ["typed_indexed", "given"], 8 if ck.thorough else 2)


# ------------------------------------------------------------------------------- thresholds
def mc_thold(ck):
    w = "{0, 2, 3, 4, 6, 8, 12}" if ck.thorough else "{0, 4, 6, 12}"
    mc(ck, "MC_Thold", f"CONSTANT Wts = {w}\nCONSTANT MaxClause = 3\nCONSTANT MaxClauses = 2",
       ["Arithmetic", "Monotone", "Everyone", "Listing", "Notation"], heap="10g")


def C06(ck):
    mc_thold(ck)
    suite(ck, Tholds, ["weighted", "numeric", "malformed", "several", "many"], "T_Thold", 6 if ck.thorough else 1)


def C07(ck):
    mc_thold(ck)
    suite(ck, Tholds, ["weighted", "malformed", "numeric", "several", "limens"], "T_Thold", 6 if ck.thorough else 1)


# -------------------------------------------------------------------------------- documents
def C08(ck):
    codes, picks = ('{"E", "0D"}', "{1, 2, 3, 4}") if ck.thorough else ('{"E"}', "{1, 3}")
    mc(ck, "MC_Said", f"CONSTANT Codes = {codes}\nCONSTANT Picks = {picks}", ["Made", "Binds"])
    suite(ck, Saids, ["identify", "options", "wide", "computed", "verified"], "T_Said", 5 if ck.thorough else 1, judge2)


def mc_vers(ck):
    flips = "{" + ",".join(str(x) for x in (range(32, 127) if ck.thorough else (48, 65, 97, 95, 102, 103, 71, 32))) + "}"
    mc(ck, "MC_Vers", f"CONSTANT Sizes = {{0, 1, 255, 4096, 16777215, 16777216}}\nCONSTANT Flips = {flips}",
       ["ReadsBack", "Unique", "SizedOk"])


def C10(ck):
    mc_vers(ck)
    suite(ck, Docs, ["versions", "sniffs", "sizes", "large"], "T_Doc", 6 if ck.thorough else 1)


def C11(ck):
    n, d = (5, 4) if ck.thorough else (4, 3)
    mc(ck, "MC_Jval", "CONSTANT Chars = {91, 93, 123, 125, 34, 58, 44, 49, 48, 45, 46, 92, 117, 32}\n"
       f"CONSTANT MaxLen = {n}\nCONSTANT Deep = {d}", ["RoundTrip", "Stable", "PutKeeps"], heap="10g")
    suite(ck, Docs, ["json_texts", "values", "wide"], "T_Doc", 6 if ck.thorough else 1)


# --------------------------------------------------------------------------------- messages
def mc_msg(ck):
    mc(ck, "MC_Msg", "", ["Made", "Read"])


def C09(ck):
    mc_msg(ck)
    n = 4 if ck.thorough else 1
    suite(ck, Msgs, ["serders", "serders_bad", "serders_odd", "serders_types", "serders_held", "many", "crossed", "names"], "T_Msg", n)


def C21(ck):
    mc_msg(ck)
    suite(ck, Msgs, ["creders", "creders_bad", "creders_odd", "creders_held", "many", "crossed"], "T_Msg", 4 if ck.thorough else 1)


# ----------------------------------------------------------------------------------- values
def C17(ck):
    tl, nl = (9, 17) if ck.thorough else (7, 10)
    mc(ck, "MC_Vals", f"CONSTANT TextLen = {tl}\nCONSTANT NumLen = {nl}", ["NumberOk", "TooBig", "TextOk", "DateOk"])
    suite(ck, Vals, ["numbers", "dates", "texts"], "T_Vals", 4 if ck.thorough else 1, consts="CONSTANT Accepts <- ValAcc\n")


# ----------------------------------------------------------------- digests, prefixes and paths
def C14(ck):
    mc(ck, "MC_Pre", 'CONSTANT Codes = {"E", "D", "B"}', ["Made", "Binds"])
    suite(ck, Pres, ["derived", "wide", "verified"], "T_Pre", 4 if ck.thorough else 1, judge2)


def C15(ck):
    mc(ck, "MC_Path", f"CONSTANT MaxElems = {4 if ck.thorough else 3}", ["TextOk", "RootOk", "FollowOk"])
    suite(ck, Paths, ["made", "rooted", "resolved", "far", "tails"], "T_Path", 6 if ck.thorough else 1)


def C16(ck):
    mc(ck, "MC_Dig", f'CONSTANT Codes = {{"E", "F", "0D"}}\nCONSTANT MaxLen = {3 if ck.thorough else 2}',
       ["Own", "ReadsBack", "Symmetric", "Means", "Carried"])
    suite(ck, Digs, ["digests", "large"], "T_Dig", 4 if ck.thorough else 1, judge2)


# ----------------------------------------------------------------- keys, signatures and salts
def C12(ck):
    mc(ck, "MC_Sign", "CONSTANT Indices = {0, 1, 2, 62, 63, 64, 65, 127, 128, 4094, 4095, 4096, 8192, 262143}",
       ["Total", "Tells", "Small", "Keys", "Plain"])
    suite(ck, Signs, ["signed", "verified", "large"], "T_Sign", 10 if ck.thorough else 3, judge2)


def C13(ck):
    nums, counts = ("{0, 1, 9, 10, 15, 16, 17, 255, 256, 65535}", "{1, 2, 17, 33}") if ck.thorough else ("{0, 9, 15, 16, 255}", "{1, 17}")
    mc(ck, "MC_Salt", f"CONSTANT Nums = {nums}\nCONSTANT Counts = {counts}",
       ["Distinct", "TailIsSeries", "SeriesDistinct", "SeriesTail", "OwnStem", "TierMeant"])
    suite(ck, Salts, ["stretched", "derived", "created"], "T_Salt", 8 if ck.thorough else 3, judge2)
    suite(ck, Salts, ["dear"], "T_Salt", 1, judge2)
    cesr(ck, ["tiers"])


# ------------------------------------------------------------------------------- key event logs
def C20(ck):
    for steal in ("none", "old", "current", "next") if ck.thorough else ("old", "current"):
        thefts = 2 if ck.thorough or steal == "old" else 1
        mc(ck, "MC_Kel", f'CONSTANTS Gens = 2 KeysPer = 2 Steal = "{steal}" MaxThefts = {thefts} MaxSn = 2 MaxOffers = 6'
           ' Recording = FALSE Wild = FALSE Calm = FALSE', KEL)
    suite(ck, Kels, ["histories", "long", "damaged", "streams"], "T_Kel", 2 if ck.thorough else 1, judge2, size=1500)


def C22(ck):
    small = [("{1, 3}", "TRUE", 8, 4), ("{1, 3}", "FALSE", 4, 4)]
    large = [("{1, 3}", "TRUE", 9, 6), ("{1, 3}", "FALSE", 5, 5), ("{1, 2, 3}", "FALSE", 4, 4)]
    for active, under, made, offers in large if ck.thorough else small:
        mc(ck, "MC_Book", f"CONSTANTS Active = {active}\n Under_ = {under}\n MaxMade = {made}\n MaxOffers = {offers}\n"
           " Witnesses = 0\n Recording = FALSE", BOOK, ["Lasting"])
    mc(ck, "MC_Wit", f"CONSTANTS MaxWits = {7 if ck.thorough else 5}\n Cut = TRUE", ["Agreement", "Waiting", "Counted"])
    suite(ck, Books, ["histories", "damaged"], "T_Book", 2 if ck.thorough else 1, judge2, size=400)


# ------------------------------------------------------------------------------ outside material
def C18(ck):
    suite(ck, Hostile, ["short", "adversary", "damaged", "outsized"], "T_Total", 3 if ck.thorough else 1,
          consts="CONSTANT Accepts <- TotalAcc\n", size=400)


ALL = {k: v for k, v in list(globals().items()) if len(k) == 3 and k[0] == "C" and k[1:].isdigit()}
NOTES = {}
