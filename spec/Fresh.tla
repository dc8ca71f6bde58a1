------------------------------- MODULE Fresh -------------------------------
(***************************************************************************)
(* Salts and private keys nobody gave the material of. The specification   *)
(* leaves open which they are; of many made in turn it demands the full    *)
(* length, no two alike in any stretch of eight bytes (of one or of two),  *)
(* and that each byte and each bit of it varies.                           *)
(* Many: 64 or more.  True random material fails with a probability below  *)
(* 2^-50.                                                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Enough == 64
RECURSIVE Half(_, _)
Half(b, k) == IF k = 0 THEN b ELSE Half(b \div 2, k - 1)
Pieces(raws, size) == {<<i, j>> : i \in 1..Len(raws), j \in 0..((size \div 8) - 1)}
Piece(raws, p) == SubSeq(raws[p[1]], p[2] * 8 + 1, p[2] * 8 + 8)
Varied(raws, size) ==
  /\ Len(raws) >= Enough
  /\ \A i \in 1..Len(raws) : Len(raws[i]) = size
  /\ Cardinality({Piece(raws, p) : p \in Pieces(raws, size)}) = Cardinality(Pieces(raws, size))
  /\ \A j \in 1..size : LET bs == {raws[i][j] : i \in 1..Len(raws)} IN
       /\ Cardinality(bs) >= 16
       /\ \A k \in 0..7 : {Half(b, k) % 2 : b \in bs} = {0, 1}
=============================================================================
