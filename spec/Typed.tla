-------------------------------- MODULE Typed -------------------------------
(***************************************************************************)
(* The typed primitives: which codes each family admits and what values a  *)
(* member of the family stands for.                                        *)
(***************************************************************************)
EXTENDS Cesr

SigerCodes  == {"A","B","C","D","E","F","2A","2B","2C","2D","2E","2F"}
KeyCodes    == {"B","D","1AAA","1AAB","1AAI","1AAJ"}
NumberCodes == {"M","0H","N","0A"}
TextCodes   == {"4A","5A","6A","7AAA","8AAA","9AAA"}

Family ==
  [base     |-> MatterCodes,
   verfer   |-> KeyCodes,
   cigar    |-> {"0B","0C","0I"},
   diger    |-> DigestCodes,
   saider   |-> DigestCodes,
   prefixer |-> KeyCodes \cup DigestCodes,
   salter   |-> {"0A"},
   signer   |-> {"A","J","Q"},
   number   |-> NumberCodes,
   seqner   |-> {"0A"},
   dater    |-> {"1AAG"},
   bexter   |-> TextCodes,
   pather   |-> TextCodes]

(* the code a family takes material for when none is named; the other families refuse it *)
DefaultOf == [verfer |-> "B", signer |-> "A", salter |-> "0A", seqner |-> "0A", number |-> "M", dater |-> "1AAG",
              bexter |-> "4A", pather |-> "4A"]

Admit(cls, x) == IF x.ok /\ x.code \in Family[cls] THEN x ELSE Bad

(* a date-time travels as its 32 characters with : . + written c d p *)
DateToB64(t) == [i \in 1..Len(t) |-> CASE t[i] = 58 -> 99 [] t[i] = 46 -> 100 [] t[i] = 43 -> 112 [] OTHER -> t[i]]
B64ToDate(t) == [i \in 1..Len(t) |-> CASE t[i] = 99 -> 58 [] t[i] = 100 -> 46 [] t[i] = 112 -> 43 [] OTHER -> t[i]]

(* Base64 text carried by a variable length code: left padded with 'A' to   *)
(* whole quadlets, the lead size telling how many characters were padding.  *)
(* A text whose length is a multiple of four and that begins with 'A' reads *)
(* back without that 'A' (the coding cannot tell it from padding).          *)
BextRaw(t) == LET ts == Len(t) % 4
                  ws == (4 - ts) % 4
                  ls == (3 - ts) % 3
              IN Drop(SextetsToBytes(Zeros(ws) \o ToSextets(t)), ls)
BextOf(code, raw) ==
  LET ls == MatterTab[code].ls
      t  == B64Enc(Zeros(ls) \o raw)
      ws == IF ls = 0 THEN IF t # <<>> /\ t[1] = 65 THEN 1 ELSE 0 ELSE (ls + 1) % 4
  IN Drop(t, ws)

Pad16(b) == Zeros(16 - Len(b)) \o b

TypedView(cls, x) ==
  PrimView(x) @@
  (CASE cls = "number" -> [num |-> Pad16(x.raw), numh |-> MinHex(x.raw), pos |-> Strip(x.raw) # <<>>]
     [] cls = "seqner" -> [num |-> x.raw, numh |-> MinHex(x.raw)]
     [] cls = "dater"  -> [dts |-> B64ToDate(Drop(EncPrim(x.code, x.size, x.raw), 4))]
     [] cls \in {"bexter", "pather"} -> [bext |-> BextOf(x.code, x.raw)]
     [] OTHER -> [ok |-> TRUE])
=============================================================================
