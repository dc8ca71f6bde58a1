-------------------------------- MODULE Cesr --------------------------------
(***************************************************************************)
(* The CESR coding of primitives, indexed signatures and count codes.      *)
(*                                                                         *)
(* The text coding is given by one definition per primitive kind; the      *)
(* binary coding is *defined* as the Base64URL decoding of the text one,   *)
(* which is CESR's composability law.  Decoders are total: they answer     *)
(* [ok |-> FALSE] or the primitive and how much of the input it took.      *)
(***************************************************************************)
EXTENDS Bytes

Bad == [ok |-> FALSE]
Var == -1                    \* full size of a variable length code

(******************************** Code tables ******************************)
M(hs, ss, fs, ls) == [hs |-> hs, ss |-> ss, fs |-> fs, ls |-> ls]

MatterTab ==
     [c \in {"A","B","C","D","E","F","G","H","I","J","O","Q"} |-> M(1,0,44,0)]
  @@ [c \in {"K","L"} |-> M(1,0,76,0)]
  @@ [c \in {"M"} |-> M(1,0,4,0)] @@ [c \in {"N"} |-> M(1,0,12,0)]
  @@ [c \in {"P"} |-> M(1,0,124,0)]
  @@ [c \in {"0A"} |-> M(2,0,24,0)] @@ [c \in {"0H"} |-> M(2,0,8,0)]
  @@ [c \in {"0B","0C","0D","0E","0F","0G","0I"} |-> M(2,0,88,0)]
  @@ [c \in {"1AAA","1AAB","1AAI","1AAJ"} |-> M(4,0,48,0)]
  @@ [c \in {"1AAC","1AAD"} |-> M(4,0,80,0)]
  @@ [c \in {"1AAE"} |-> M(4,0,56,0)] @@ [c \in {"1AAF"} |-> M(4,0,8,0)]
  @@ [c \in {"1AAG"} |-> M(4,0,36,0)] @@ [c \in {"1AAH"} |-> M(4,0,100,0)]
  @@ [c \in {"2AAA"} |-> M(4,0,8,1)]  @@ [c \in {"3AAA"} |-> M(4,0,8,2)]
  @@ [c \in {"4A","4B"} |-> M(2,2,Var,0)] @@ [c \in {"5A","5B"} |-> M(2,2,Var,1)]
  @@ [c \in {"6A","6B"} |-> M(2,2,Var,2)]
  @@ [c \in {"7AAA","7AAB"} |-> M(4,4,Var,0)]
  @@ [c \in {"8AAA","8AAB"} |-> M(4,4,Var,1)]
  @@ [c \in {"9AAA","9AAB"} |-> M(4,4,Var,2)]
MatterCodes == DOMAIN MatterTab

\* hard size by first character code; 0 when no primitive starts so
MatterHard(c) == CASE c >= 65 /\ c <= 90 -> 1
                   [] c >= 97 /\ c <= 122 -> 1
                   [] c \in {48, 52, 53, 54} -> 2
                   [] c \in {49, 50, 51, 55, 56, 57} -> 4
                   [] OTHER -> 0

I(hs, ss, os, fs, ls) == [hs |-> hs, ss |-> ss, os |-> os, fs |-> fs, ls |-> ls]
IndexTab ==
     [c \in {"A","B","C","D","E","F"} |-> I(1,1,0,88,0)]
  @@ [c \in {"0A","0B"} |-> I(2,2,1,156,0)]
  @@ [c \in {"2A","2B","2C","2D","2E","2F"} |-> I(2,4,2,92,0)]
  @@ [c \in {"3A","3B"} |-> I(2,6,3,160,0)]
  @@ [c \in {"0z"} |-> I(2,2,0,Var,0)]
  @@ [c \in {"1z"} |-> I(2,2,1,76,1)] @@ [c \in {"4z"} |-> I(2,6,3,80,1)]
IndexCodes == DOMAIN IndexTab
IndexHard(c) == CASE c >= 65 /\ c <= 90 -> 1
                  [] c >= 97 /\ c <= 122 -> 1
                  [] c >= 48 /\ c <= 52 -> 2
                  [] OTHER -> 0
\* signatures that count for the current key list only, and those that may
\* also count for the prior-next list (their other index defaults to index)
CurrentOnly == {"B","D","F","0B","2B","2D","2F","3B"}
BothLists   == {"A","C","E","0A","2A","2C","2E","3A"}

C(hs, ss, fs) == [hs |-> hs, ss |-> ss, fs |-> fs]
CounterTab ==
     [c \in {"-A","-B","-C","-D","-E","-F","-G","-H","-I","-J","-K","-L","-V"} |-> C(2,2,4)]
  @@ [c \in {"-0V"} |-> C(3,5,8)] @@ [c \in {"--AAA"} |-> C(5,3,8)]
CounterCodes == DOMAIN CounterTab
CounterHard(a, b) == IF a # 45 THEN 0
                     ELSE IF (b >= 65 /\ b <= 76) \/ b = 86 THEN 2
                     ELSE IF b = 48 THEN 3 ELSE IF b = 45 THEN 5 ELSE 0

DigestCodes   == {"E","F","G","H","I","0D","0E","0F","0G"}
NonTransCodes == {"B","1AAA","1AAC","1AAI"}

(********************************* Primitives ******************************)
RawSize(code) == LET z == MatterTab[code] IN ((z.fs - (z.hs + z.ss)) * 3) \div 4 - z.ls

\* text of a primitive [code, size, raw]
EncPrim(code, size, raw) ==
  LET z  == MatterTab[code]
      cs == z.hs + z.ss
      ps == cs % 4
      head == Ascii(code) \o ToText(IntToSextets(size, z.ss))
  IN IF ps # 0 THEN head \o Drop(B64Enc(Zeros(ps) \o raw), ps)
     ELSE head \o B64Enc(Zeros(z.ls) \o raw)

\* a primitive made from a requested code and raw material
LeadVariant(code, ls, big) ==
  LET first == SubSeq(code, 1, 1)
      small == <<"4","5","6">>  large == <<"7","8","9">>
  IN IF first \in {"4","5","6"}
     THEN IF big THEN large[ls+1] \o "AA" \o SubSeq(code, 2, 2)
                 ELSE small[ls+1] \o SubSeq(code, 2, 2)
     ELSE large[ls+1] \o SubSeq(code, 2, 4)
IsVarCode(code) == Len(code) > 0 /\ SubSeq(code, 1, 1) \in {"4","5","6","7","8","9"}
MakePrim(code, raw) ==
  IF IsVarCode(code) /\ (code \in MatterCodes)
  THEN LET ls == (3 - (Len(raw) % 3)) % 3
           sz == (Len(raw) + ls) \div 3
           c  == LeadVariant(code, ls, sz >= 4096)
       IN IF c \in MatterCodes /\ sz < 16777216
          THEN [ok |-> TRUE, code |-> c, size |-> sz, raw |-> raw] ELSE Bad
  ELSE IF code \notin MatterCodes THEN Bad
  ELSE IF Len(raw) < RawSize(code) THEN Bad
  ELSE [ok |-> TRUE, code |-> code, size |-> 0, raw |-> Take(raw, RawSize(code))]

\* decode the primitive a text begins with
DecPrim(t) ==
  IF t = <<>> THEN Bad ELSE
  LET hs == MatterHard(t[1]) IN
  IF hs = 0 \/ Len(t) < hs THEN Bad ELSE
  LET code == StrOf(SubSeq(t, 1, hs)) IN
  IF code \notin MatterCodes THEN Bad ELSE
  LET z  == MatterTab[code]
      cs == z.hs + z.ss IN
  IF Len(t) < cs THEN Bad ELSE
  LET soft == SubSeq(t, hs + 1, cs) IN
  IF ~IsB64Text(soft) THEN Bad ELSE
  LET size == SextetsToInt(ToSextets(soft))
      fs   == IF z.fs = Var THEN cs + 4 * size ELSE z.fs IN
  IF Len(t) < fs THEN Bad ELSE
  LET body == SubSeq(t, cs + 1, fs) IN
  IF ~IsB64Text(body) THEN Bad ELSE
  LET ps   == cs % 4
      paw  == SextetsToBytes(Zeros(ps) \o ToSextets(body))
      lead == IF ps # 0 THEN ps ELSE z.ls IN
  IF Len(paw) < lead \/ \E i \in 1..lead : paw[i] # 0 THEN Bad ELSE
  [ok |-> TRUE, code |-> code, size |-> size, raw |-> Drop(paw, lead), used |-> fs]

\* binary domain: decode the text the bytes stand for
TextOfBin(b) == B64Enc(Take(b, (Len(b) \div 3) * 3))
DecPrimBin(b) == DecPrim(TextOfBin(b))

PrimView(p) ==
  LET t == EncPrim(p.code, p.size, p.raw) IN
  [ok |-> TRUE, code |-> p.code, size |-> p.size, raw |-> p.raw,
   qb64 |-> t, qb2 |-> B64Dec(t), full |-> Len(t),
   dig |-> p.code \in DigestCodes, trans |-> p.code \notin NonTransCodes]

(****************************** Indexed signatures *************************)
IdxMs(z) == z.ss - z.os
IdxFs(code, index) == LET z == IndexTab[code] IN
                      IF z.fs = Var THEN z.hs + z.ss + 4 * index ELSE z.fs
IdxRawSize(code, index) == LET z == IndexTab[code] IN
                      ((IdxFs(code, index) - (z.hs + z.ss)) * 3) \div 4 - z.ls
EncIdx(code, index, ondex, raw) ==
  LET z  == IndexTab[code]
      ps == (z.hs + z.ss) % 4
      head == Ascii(code) \o ToText(IntToSextets(index, IdxMs(z)))
                          \o ToText(IntToSextets(ondex, z.os))
  IN IF ps # 0 THEN head \o Drop(B64Enc(Zeros(ps) \o raw), ps)
     ELSE head \o B64Enc(Zeros(z.ls) \o raw)

\* ondex: <<>> when not given, <<o>> when given
MakeIdx(code, index, ondex, raw) ==
  IF code \notin IndexCodes THEN Bad ELSE
  LET z == IndexTab[code] IN
  IF index >= Pow(64, IdxMs(z)) THEN Bad ELSE
  IF ondex # <<>> /\ z.os > 0 /\ ondex[1] >= Pow(64, z.os) THEN Bad ELSE
  IF code \in CurrentOnly /\ ondex # <<>> THEN Bad ELSE
  IF code \notin CurrentOnly /\ ondex # <<>> /\ z.os = 0 /\ code \notin BothLists
        /\ ondex[1] # index THEN Bad ELSE
  IF Len(raw) < IdxRawSize(code, index) THEN Bad ELSE
  [ok |-> TRUE, code |-> code, index |-> index,
   ondex |-> IF ondex # <<>> THEN ondex[1] ELSE IF code \in BothLists THEN index ELSE 0,
   raw |-> Take(raw, IdxRawSize(code, index))]

DecIdx(t) ==
  IF t = <<>> THEN Bad ELSE
  LET hs == IndexHard(t[1]) IN
  IF hs = 0 \/ Len(t) < hs THEN Bad ELSE
  LET code == StrOf(SubSeq(t, 1, hs)) IN
  IF code \notin IndexCodes THEN Bad ELSE
  LET z  == IndexTab[code]
      cs == z.hs + z.ss
      ms == IdxMs(z) IN
  IF Len(t) < cs \/ ~IsB64Text(SubSeq(t, hs + 1, cs)) THEN Bad ELSE
  LET index == SextetsToInt(ToSextets(SubSeq(t, hs + 1, hs + ms)))
      odx   == SextetsToInt(ToSextets(SubSeq(t, hs + ms + 1, cs)))
      fs    == IdxFs(code, index) IN
  IF code \in CurrentOnly /\ odx # 0 THEN Bad ELSE
  IF Len(t) < fs THEN Bad ELSE
  LET body == SubSeq(t, cs + 1, fs) IN
  IF ~IsB64Text(body) THEN Bad ELSE
  LET ps   == cs % 4
      paw  == SextetsToBytes(Zeros(ps) \o ToSextets(body))
      lead == IF ps # 0 THEN ps ELSE z.ls IN
  IF Len(paw) < lead \/ \E i \in 1..lead : paw[i] # 0 THEN Bad ELSE
  [ok |-> TRUE, code |-> code, index |-> index,
   ondex |-> IF z.os > 0 THEN odx ELSE IF code \in CurrentOnly THEN 0 ELSE index,
   raw |-> Drop(paw, lead), used |-> fs]
DecIdxBin(b) == DecIdx(TextOfBin(b))

IdxView(p) ==
  LET t == EncIdx(p.code, p.index, p.ondex, p.raw) IN
  [ok |-> TRUE, code |-> p.code, index |-> p.index, ondex |-> p.ondex, raw |-> p.raw,
   qb64 |-> t, qb2 |-> B64Dec(t), full |-> Len(t)]

(********************************* Count codes *****************************)
MakeCnt(code, count) ==
  IF code \in CounterCodes /\ (CounterTab[code].ss >= 5 \/ count < Pow(64, CounterTab[code].ss))
     /\ count < 1073741824
  THEN [ok |-> TRUE, code |-> code, count |-> count] ELSE Bad
EncCnt(code, count) == Ascii(code) \o ToText(IntToSextets(count, CounterTab[code].ss))
DecCnt(t) ==
  IF Len(t) < 2 THEN Bad ELSE
  LET hs == CounterHard(t[1], t[2]) IN
  IF hs = 0 \/ Len(t) < hs THEN Bad ELSE
  LET code == StrOf(SubSeq(t, 1, hs)) IN
  IF code \notin CounterCodes THEN Bad ELSE
  LET cs == hs + CounterTab[code].ss IN
  IF Len(t) < cs \/ ~IsB64Text(SubSeq(t, hs + 1, cs)) THEN Bad ELSE
  [ok |-> TRUE, code |-> code, count |-> SextetsToInt(ToSextets(SubSeq(t, hs + 1, cs))), used |-> cs]
DecCntBin(b) == DecCnt(TextOfBin(b))
CntView(p) ==
  LET t == EncCnt(p.code, p.count) IN
  [ok |-> TRUE, code |-> p.code, count |-> p.count, qb64 |-> t, qb2 |-> B64Dec(t),
   full |-> Len(t)]

\* up to three protocol version numbers packed one sextet each
SemVer(parts) == ToText(parts)
=============================================================================
