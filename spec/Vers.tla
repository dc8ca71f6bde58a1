-------------------------------- MODULE Vers --------------------------------
(***************************************************************************)
(* Version fields: protocol, version, serialization kind and size of a     *)
(* message, as 17 characters  PPPPvvKKKKssssss_                            *)
(***************************************************************************)
EXTENDS Jval, Cesr

Txt_v == <<118>>
KERI == <<75,69,82,73>>
ACDC == <<65,67,68,67>>
JSON == <<74,83,79,78>>
Protocols == {KERI, ACDC}
Kinds == {JSON}
VLen == 17

LowHex(c) == (c >= 48 /\ c <= 57) \/ (c >= 97 /\ c <= 102)
Upper(c) == c >= 65 /\ c <= 90
MatchAt(t, i) == /\ i + 16 <= Len(t)
                 /\ t[i+16] = 95
                 /\ Upper(t[i]) /\ Upper(t[i+1]) /\ Upper(t[i+2]) /\ Upper(t[i+3])
                 /\ LowHex(t[i+4]) /\ LowHex(t[i+5])
                 /\ \A k \in 6..9 : Upper(t[i+k])
                 /\ \A k \in 10..15 : LowHex(t[i+k])
\* where the first version field starts (0-based), or -1
RECURSIVE FindFrom(_, _)
FindFrom(t, i) == IF i + 16 > Len(t) THEN -1 ELSE IF MatchAt(t, i) THEN i - 1 ELSE FindFrom(t, i + 1)
FirstMatch(t) == FindFrom(t, 1)

RECURSIVE HexInt(_)
HexInt(t) == IF t = <<>> THEN 0 ELSE HexInt(SubSeq(t, 1, Len(t) - 1)) * 16 + HexVal(t[Len(t)])
Hex6(n) == [i \in 1..6 |-> HexDigit[(n \div Pow(16, 6 - i)) % 16]]

VerText(proto, major, minor, kind, size) ==
  proto \o <<HexDigit[major], HexDigit[minor]>> \o kind \o Hex6(size) \o <<95>>
MakeVer(proto, major, minor, kind, size) ==
  IF proto \in Protocols /\ kind \in Kinds /\ major < 16 /\ minor < 16 /\ size < 16777216
  THEN [ok |-> TRUE, text |-> VerText(proto, major, minor, kind, size)] ELSE Bad
ReadVer(t) ==
  IF Len(t) # VLen \/ ~MatchAt(t, 1) THEN Bad ELSE
  LET p == SubSeq(t, 1, 4) k == SubSeq(t, 7, 10) IN
  IF p \notin Protocols \/ k \notin Kinds THEN Bad ELSE
  [ok |-> TRUE, proto |-> p, major |-> HexVal(t[5]), minor |-> HexVal(t[6]), kind |-> k,
   size |-> HexInt(SubSeq(t, 11, 16))]

MaxStart == 12
\* recognise a message by its first bytes
SniffOf(t) ==
  IF Len(t) < MaxStart + VLen THEN Bad ELSE
  LET s == FirstMatch(Take(t, MaxStart + VLen)) IN
  IF s < 0 THEN Bad ELSE ReadVer(SubSeq(t, s + 1, s + VLen))

Current(v) == v.major = 1 /\ v.minor = 0
\* the message with its true size in the version field; kind: <<>> or <<kind>>
Sized(doc, kind) ==
  IF ~StrIs(doc, Txt_v) THEN Bad ELSE
  LET v == ReadVer(Fld(doc, Txt_v).v) IN
  IF ~v.ok THEN Bad ELSE
  IF ~Current(v) THEN Bad ELSE
  LET knd == IF kind = <<>> THEN v.kind ELSE kind[1] IN
  IF knd \notin Kinds THEN Bad ELSE
  LET raw0 == Ser(doc)
      s    == FirstMatch(raw0) IN
  IF s < 0 \/ s > MaxStart \/ Len(raw0) >= 16777216 THEN Bad ELSE
  LET vs   == VerText(v.proto, v.major, v.minor, knd, Len(raw0))
      out  == Put(doc, Txt_v, JStr(vs))
      raw  == Ser(out) IN
  \* the text found must have been the version field and nothing posing as one
  IF Take(raw0, s) \o vs \o Drop(raw0, s + VLen) # raw THEN Bad ELSE
  [ok |-> TRUE, doc |-> out, raw |-> raw, proto |-> v.proto, kind |-> knd, major |-> v.major,
   minor |-> v.minor, size |-> Len(raw)]
=============================================================================
