-------------------------------- MODULE Said --------------------------------
(***************************************************************************)
(* Self-addressing identifiers.  Hash algorithms are uninterpreted: the    *)
(* operator Hash is a parameter, applied to a code and a preimage this     *)
(* module determines.                                                      *)
(***************************************************************************)
EXTENDS Vers
CONSTANT Hash(_, _, _)        \* Hash(env, code, bytes): digest

Txt_d == <<100>>
DefaultDigest == "E"
Dummies(code) == Now([i \in 1..MatterTab[code].fs |-> 35])

\* what is hashed to identify the document, and the document ready to take the identifier
Preimage(doc, label, code, kind, ignore) ==
  IF ~IsObj(doc) \/ code \notin DigestCodes THEN Bad ELSE
  LET dummied == Put(doc, label, JStr(Dummies(code))) IN
  IF Has(dummied, Txt_v)
  THEN LET s == Sized(dummied, kind) IN
       IF ~s.ok THEN Bad
       ELSE [ok |-> TRUE, pre |-> Ser(Without(s.doc, ignore)), doc |-> s.doc]
  ELSE IF kind # <<>> /\ kind[1] \notin Kinds THEN Bad
       ELSE [ok |-> TRUE, pre |-> Ser(Without(dummied, ignore)), doc |-> dummied]

SaidText(env, code, pre) == EncPrim(code, 0, Hash(env, code, pre))

\* the identified document
Identified(env, doc, label, code, kind, ignore) ==
  IF ~IsObj(doc) THEN Bad ELSE
  IF ~Has(doc, label) THEN Bad ELSE
  LET p == Preimage(doc, label, code, kind, ignore) IN
  IF ~p.ok THEN Bad ELSE
  LET said == SaidText(env, code, p.pre) IN
  [ok |-> TRUE, said |-> said, doc |-> Put(p.doc, label, JStr(said))]

\* the digest code a document asks for: <<>> = take it from the embedded identifier
AskedCode(doc, label, code) ==
  IF ~IsObj(doc) THEN Bad ELSE
  IF ~Has(doc, label) THEN Bad ELSE
  IF code # <<>> THEN [ok |-> code[1] \in DigestCodes, code |-> code[1]] ELSE
  IF ~IsStr(Fld(doc, label)) THEN Bad ELSE
  LET t == Fld(doc, label).v IN
  IF t = <<>> THEN [ok |-> TRUE, code |-> DefaultDigest] ELSE
  LET p == DecPrim(t) IN
  IF ~p.ok THEN Bad ELSE [ok |-> p.code \in DigestCodes, code |-> p.code]

\* identifier computed from a document
SaidOf(env, doc, label, code, kind, ignore) ==
  LET a == AskedCode(doc, label, code) IN
  IF ~a.ok THEN Bad ELSE
  LET p == Preimage(doc, label, a.code, kind, ignore) IN
  IF ~p.ok THEN Bad ELSE [ok |-> TRUE, said |-> SaidText(env, a.code, p.pre)]

\* whether the identifier (its text) is the document's
Verifies(env, said, doc, label, kind, ignore, prefixed, versioned) ==
  LET id == DecPrim(said)
      p  == Preimage(doc, label, id.code, kind, ignore) IN
  IF ~p.ok THEN FALSE
  ELSE /\ Hash(env, id.code, p.pre) = id.raw
       /\ versioned /\ Has(doc, Txt_v) => Ser(Fld(doc, Txt_v)) = Ser(Fld(p.doc, Txt_v))
       /\ prefixed => StrIs(doc, label) /\ Fld(doc, label).v = said
=============================================================================
