------------------------------ MODULE MC_Stream -----------------------------
(***************************************************************************)
(* Design level check of concatenation: a writer appends elements; at      *)
(* every point a reader of the text, of the binary, and of every cut of    *)
(* either gets the elements that are wholly there and nothing else.        *)
(***************************************************************************)
EXTENDS Stream

CONSTANT MaxElems
Ramp(n, k) == [i \in 1..n |-> (i * 37 + k * 101) % 256]
P(kind, code, size, raw) == [kind |-> kind, text |-> EncPrim(code, size, raw)]
X(kind, code, ix, ox, raw) == [kind |-> kind, text |-> EncIdx(code, ix, ox, raw)]
N(code, count) == [kind |-> "counter", text |-> EncCnt(code, count)]
Elements ==
  { P("number", "M", 0, <<1, 0>>), P("matter", "0H", 0, <<0, 0, 0, 7>>), P("bexter", "4A", 1, <<0, 1, 2>>),
    P("bexter", "6A", 1, <<9>>), P("matter", "5B", 2, Ramp(5, 3)), P("matter", "7AAB", 0, <<>>),
    P("verfer", "D", 0, Ramp(32, 1)), P("seqner", "0A", 0, Ramp(16, 2)), P("matter", "1AAF", 0, <<1, 2, 3>>),
    P("matter", "2AAA", 0, <<3, 4>>), P("matter", "3AAA", 0, <<255>>),
    X("siger", "A", 1, 1, Ramp(64, 4)), X("indexer", "0z", 2, 0, Ramp(6, 1)), X("siger", "2B", 4095, 0, Ramp(64, 2)),
    N("-A", 1), N("-V", 4095), N("-0V", 1073741823), N("--AAA", 100000) }
Junk == {<<>>, <<61>>, <<45>>, <<45, 65, 65>>, <<123, 34>>, <<48>>, <<126, 65, 65, 65>>}

VARIABLES els, junk
vars == <<els, junk>>
Init == els = <<>> /\ junk = <<>>
Next == /\ junk = <<>>
        /\ \/ Len(els) < MaxElems /\ (\E x \in Elements : els' = Append(els, x)) /\ UNCHANGED junk
           \/ junk' \in (Junk \ {<<>>}) /\ UNCHANGED els
Spec == Init /\ [][Next]_vars

Plan == [i \in 1..Len(els) |-> els[i].kind]
Text == Flat([i \in 1..Len(els) |-> els[i].text])
Bin  == Flat([i \in 1..Len(els) |-> B64Dec(els[i].text)])
Ends(k) == Cardinality({i \in 1..Len(els) : Len(Flat([q \in 1..i |-> els[q].text])) <= k})

Written(got) == /\ Len(got) = Len(els)
                /\ \A i \in 1..Len(els) : got[i].ok /\ ElemView(els[i].kind, got[i]).qb64 = els[i].text
ReadsBack == Written(ReadText(Plan, Text \o junk)) /\ Written(ReadBin(Plan, Bin \o junk))
\* converting the whole is converting the parts
Composes == B64Dec(Text) = Bin /\ B64Enc(Bin) = Text
Untouched == UsedBy(ReadText(Plan, Text \o junk)) = Len(Text)
CutAt(k) == LET got == ReadText(Plan, Take(Text, k)) whole == ReadText(Plan, Text) n == Ends(k) IN
            /\ Take(got, n) = Take(whole, n)
            /\ n < Len(els) => Len(got) = n + 1 /\ ~got[n + 1].ok
CutBin(k) == LET got == ReadBin(Plan, Take(Bin, k)) whole == ReadText(Plan, Text) n == Ends((k * 4) \div 3) IN
             /\ Take(got, n) = Take(whole, n)
             /\ n < Len(els) => Len(got) = n + 1 /\ ~got[n + 1].ok
Points(n) == LET lst == IF els = <<>> THEN 0 ELSE Len(els[Len(els)].text) IN
             {k \in 0..n : k + lst >= n /\ (k + lst <= n + 10 \/ k + 4 >= n)}
Cuts == junk = <<>> => (\A k \in Points(Len(Text)) : CutAt(k)) /\ (\A k \in Points(Len(Bin)) : CutBin(k))
\* a count code is never mistaken for material, nor material for a count code
Apart == \A i \in 1..Len(els) :
           LET t == els[i].text IN
           IF els[i].kind = "counter" THEN ~DecPrim(t).ok /\ ~DecIdx(t).ok ELSE ~DecCnt(t).ok
=============================================================================
