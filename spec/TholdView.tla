----------------------------- MODULE TholdView ------------------------------
(* What a threshold object of the library must answer, given the threshold *)
EXTENDS Thold

QIs(a, v) == a.ok /\ a.v = v
Pad4(b) == Zeros(4 - Len(b)) \o b
SizeBytes(t) == IF t.w THEN Pad4(Strip(<<SizeOf(t) \div 65536, (SizeOf(t) \div 256) % 256, SizeOf(t) % 256>>))
                ELSE Pad4(t.n)
TholdShows(r, t) ==
  /\ r.weighted = t.w
  /\ r.size = SizeBytes(t)
  /\ Ser(r.thold) = Ser(TholdOf(t))
  /\ r.num.ok /\ IF t.w THEN ~r.num.some ELSE r.num.some /\ r.num.v = Pad4(t.n)
  /\ r.sith.ok /\ Ser(r.sith.v) = Ser(SithOf(t))
  /\ QIs(r.json, Ser(SithOf(t)))
  /\ QIs(r.limen, LimenOf(t))
  /\ r.number.ok /\ IF t.w THEN ~r.number.some ELSE r.number.some /\ r.number.v = LimenOf(t)
  /\ r.bexter.ok /\ IF t.w THEN r.bexter.some /\ r.bexter.v = LimenOf(t) /\ r.bexter.bext = BextText(t)
                    ELSE ~r.bexter.some
=============================================================================
