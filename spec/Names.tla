------------------------------- MODULE Names --------------------------------
(***************************************************************************)
(* The names the protocols give to message types, fields, protocols,       *)
(* serialization kinds, security tiers and codes, under the names by which *)
(* the library offers them.                                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

IlkNames ==
  [icp |-> "icp", rot |-> "rot", ixn |-> "ixn", dip |-> "dip", drt |-> "drt", rct |-> "rct",
   ksn |-> "ksn", qry |-> "qry", rpy |-> "rpy", exn |-> "exn", pro |-> "pro", bar |-> "bar",
   vcp |-> "vcp", vrt |-> "vrt", iss |-> "iss", rev |-> "rev", bis |-> "bis", brv |-> "brv"]

FieldNames ==
  [dollar |-> "$id", at |-> "@id", id |-> "id", i |-> "i", d |-> "d", t |-> "t", k |-> "k",
   n |-> "n", b |-> "b", a |-> "a", s |-> "s", f |-> "f", v |-> "v", kt |-> "kt", nt |-> "nt",
   di |-> "di"]

ProtocolNames ==
  [ACDC |-> "ACDC", KERI |-> "KERI"]

KindNames ==
  [JSON |-> "JSON"]

TierNames ==
  [low |-> "low", med |-> "med", high |-> "high"]

MatterNames ==
  [Ed25519_Seed |-> "A", Ed25519N |-> "B", X25519 |-> "C", Ed25519 |-> "D", Blake3_256 |-> "E",
   Blake2b_256 |-> "F", Blake2s_256 |-> "G", SHA3_256 |-> "H", SHA2_256 |-> "I",
   ECDSA_256k1_Seed |-> "J", Ed448_Seed |-> "K", X448 |-> "L", Short |-> "M", Big |-> "N",
   X25519_Private |-> "O", X25519_Cipher_Seed |-> "P", ECDSA_256r1_Seed |-> "Q", Salt_128 |-> "0A",
   Ed25519_Sig |-> "0B", ECDSA_256k1_Sig |-> "0C", Blake3_512 |-> "0D", Blake2b_512 |-> "0E",
   SHA3_512 |-> "0F", SHA2_512 |-> "0G", Long |-> "0H", ECDSA_256r1_Sig |-> "0I",
   ECDSA_256k1N |-> "1AAA", ECDSA_256k1 |-> "1AAB", Ed448N |-> "1AAC", Ed448 |-> "1AAD",
   Ed448_Sig |-> "1AAE", Tern |-> "1AAF", DateTime |-> "1AAG", X25519_Cipher_Salt |-> "1AAH",
   ECDSA_256r1N |-> "1AAI", ECDSA_256r1 |-> "1AAJ", TBD1 |-> "2AAA", TBD2 |-> "3AAA",
   StrB64_L0 |-> "4A", StrB64_L1 |-> "5A", StrB64_L2 |-> "6A", StrB64_Big_L0 |-> "7AAA",
   StrB64_Big_L1 |-> "8AAA", StrB64_Big_L2 |-> "9AAA", Bytes_L0 |-> "4B", Bytes_L1 |-> "5B",
   Bytes_L2 |-> "6B", Bytes_Big_L0 |-> "7AAB", Bytes_Big_L1 |-> "8AAB", Bytes_Big_L2 |-> "9AAB"]

IndexerNames ==
  [Ed25519 |-> "A", Ed25519_Crt |-> "B", ECDSA_256k1 |-> "C", ECDSA_256k1_Crt |-> "D",
   ECDSA_256r1 |-> "E", ECDSA_256r1_Crt |-> "F", Ed448 |-> "0A", Ed448_Crt |-> "0B",
   Ed25519_Big |-> "2A", Ed25519_Big_Crt |-> "2B", ECDSA_256k1_Big |-> "2C",
   ECDSA_256k1_Big_Crt |-> "2D", ECDSA_256r1_Big |-> "2E", ECDSA_256r1_Big_Crt |-> "2F",
   Ed448_Big |-> "3A", Ed448_Big_Crt |-> "3B", TBD0 |-> "0z", TBD1 |-> "1z", TBD4 |-> "4z"]

SigNames ==
  [Ed25519 |-> "A", Ed25519_Crt |-> "B", ECDSA_256k1 |-> "C", ECDSA_256k1_Crt |-> "D",
   ECDSA_256r1 |-> "E", ECDSA_256r1_Crt |-> "F", Ed448 |-> "0A", Ed448_Crt |-> "0B",
   Ed25519_Big |-> "2A", Ed25519_Big_Crt |-> "2B", ECDSA_256k1_Big |-> "2C",
   ECDSA_256k1_Big_Crt |-> "2D", ECDSA_256r1_Big |-> "2E", ECDSA_256r1_Big_Crt |-> "2F",
   Ed448_Big |-> "3A", Ed448_Big_Crt |-> "3B"]

CurrentNames ==
  [Ed25519_Crt |-> "B", ECDSA_256k1_Crt |-> "D", ECDSA_256r1_Crt |-> "F", Ed448_Crt |-> "0B",
   Ed25519_Big_Crt |-> "2B", ECDSA_256k1_Big_Crt |-> "2D", ECDSA_256r1_Big_Crt |-> "2F",
   Ed448_Big_Crt |-> "3B"]

BothNames ==
  [Ed25519 |-> "A", ECDSA_256k1 |-> "C", ECDSA_256r1 |-> "E", Ed448 |-> "0A", Ed25519_Big |-> "2A",
   ECDSA_256k1_Big |-> "2C", ECDSA_256r1_Big |-> "2E", Ed448_Big |-> "3A"]

CounterNames ==
  [ControllerIdxSigs |-> "-A", WitnessIdxSigs |-> "-B", NonTransReceiptCouples |-> "-C",
   TransReceiptQuadruples |-> "-D", FirstSeenReplayCouples |-> "-E", TransIdxSigGroups |-> "-F",
   SealSourceCouples |-> "-G", TransLastIdxSigGroups |-> "-H", SealSourceTriples |-> "-I",
   SadPathSig |-> "-J", SadPathSigGroup |-> "-K", PathedMaterialQuadlets |-> "-L",
   AttachedMaterialQuadlets |-> "-V", BigAttachedMaterialQuadlets |-> "-0V",
   KERIProtocolStack |-> "--AAA"]

NumberNames ==
  [Short |-> "M", Long |-> "0H", Big |-> "N", Huge |-> "0A"]

NameTable(t) ==
  CASE t = "ilk" -> IlkNames
    [] t = "field" -> FieldNames
    [] t = "protocol" -> ProtocolNames
    [] t = "kind" -> KindNames
    [] t = "tier" -> TierNames
    [] t = "matter" -> MatterNames
    [] t = "indexer" -> IndexerNames
    [] t = "sig" -> SigNames
    [] t = "current" -> CurrentNames
    [] t = "both" -> BothNames
    [] t = "counter" -> CounterNames
    [] t = "number" -> NumberNames
CodesOf(t) == {NameTable(t)[x] : x \in DOMAIN NameTable(t)}
NamesOk(e) == /\ e.res.ok /\ e.res.names = NameTable(e.table)
              /\ e.table = "number" =>
                   e.res.has = SelectSeq(e.codes, LAMBDA c : c \in CodesOf("number"))
=============================================================================
