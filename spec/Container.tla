----------------------------- MODULE Container -----------------------------
(* The byte form of compressed data for letters of one byte, read byte by    *)
(* byte: padding byte, four length bytes, the tree, at least one data byte.  *)
(* The environment appends bytes out of the few that matter at each place,   *)
(* so that every prefix of every such file is a state: all truncations, all  *)
(* paddings, lengths too small, too large and out of reach. C06 and C07.     *)
EXTENDS HuffBase

CONSTANTS MaxLen

VARIABLES b,    \* the bytes so far
          ph,   \* the part the next byte belongs to
          tl,   \* the tree length as far as it is read
          tree, \* the tree bytes read
          data  \* the data bytes read
vars == <<b, ph, tl, tree, data>>

Paddings == {0, 7, 8, 15, 112, 117, 120, 128, 240, 255}
TreeBytes == {0, 48, 128, 152, 255}
DataBytes == {0, 165}
(* The length bytes of a real file, and ones no file can satisfy             *)
LenBytes(n) == IF n < 4 THEN {0, 1, 128} ELSE {0, 1, 2, 3, 4}

Init == b = <<>> /\ ph = "padding" /\ tl = 0 /\ tree = <<>> /\ data = <<>>

Offered == CASE ph = "padding" -> Paddings
             [] ph = "length" -> IF Len(b) < 4 /\ Len(SelectSeq(Tail(b), LAMBDA x : x # 0)) > 0 THEN {0} ELSE LenBytes(Len(b))
             [] ph = "tree" -> TreeBytes
             [] ph = "data" -> DataBytes

Byte(v) ==
    /\ Len(b) < MaxLen
    /\ v \in Offered
    /\ b' = Append(b, v)
    /\ tl' = IF ph = "length" THEN (IF tl >= 65536 THEN 65536 ELSE tl * 256 + v) ELSE tl
    /\ ph' = CASE ph = "padding" -> "length"
               [] ph = "length" -> IF Len(b) < 4 THEN "length" ELSE IF tl' = 0 THEN "data" ELSE "tree"
               [] ph = "tree" -> IF Len(tree) + 1 = tl THEN "data" ELSE "tree"
               [] ph = "data" -> "data"
    /\ tree' = IF ph = "tree" THEN Append(tree, v) ELSE tree
    /\ data' = IF ph = "data" THEN Append(data, v) ELSE data
Next == \E v \in 0..255 : Byte(v)
Spec == Init /\ [][Next]_vars

AnyLetter(l) == TRUE
TreePad == b[1] \div 16
DataPad == b[1] % 16
TreeOf == ParseTree(SubSeq(BitsOf(tree, 8), 1, 8 * tl - TreePad), 1, 8, AnyLetter)
(* What reading gives if the bytes end here                                  *)
Verdict ==
    IF ph \in {"padding", "length"} THEN "refused"
    ELSE IF tl < 2 \/ ph = "tree" \/ data = <<>> \/ DataPad > 7 THEN "refused"
    ELSE IF TreePad > 7 THEN "either"
    ELSE IF TreeOf.res = "ok" THEN "accepted" ELSE "refused"

---------------------------------------------------------------------------
ParseAgrees ==
    LET p == ParseContainer(b, 1, AnyLetter)
    IN /\ (Verdict = "accepted") <=> (p.res = "ok")
       /\ (Verdict = "either") <=> (p.res = "either")
       /\ Verdict = "accepted" => p.toks = TreeOf.toks /\ p.data = data /\ p.pad = DataPad
(* What is accepted is what writing would give, but for the bits used as     *)
(* padding of the tree, which need not be 0, and superfluous bytes           *)
WriteReads == Verdict = "accepted" =>
    LET w == Container(TreeOf.toks, data, DataPad)
    IN ParseContainer(w, 1, AnyLetter) = ParseContainer(b, 1, AnyLetter)
(* No truncation of something accepted is accepted, short of the data        *)
Truncated == (Verdict = "accepted" /\ Len(data) = 1) =>
    \A n \in 0..(Len(b) - 1) : ParseContainer(SubSeq(b, 1, n), 1, AnyLetter).res \notin {"ok", "either"}
Emit == PrintT("VEC " \o ToString(b))
=============================================================================
