------------------------------ MODULE TreeBin ------------------------------
(* The binary form of a tree, read bit by bit by an automaton that counts    *)
(* the branches still to come. The input is any bit vector: the environment  *)
(* appends bits until it ends the input. C04 and C05.                        *)
(*                                                                           *)
(* Letters have Size bytes of W bits; if LastInvalid, the one of all ones    *)
(* cannot be converted.                                                      *)
EXTENDS HuffBase

CONSTANTS Size, W, MaxBits, LastInvalid

VARIABLES bits,       \* the vector so far
          need,       \* branches still to come
          lbits,      \* bits of the letter being read, or <<2>> outside of one
          toks,       \* branches read
          res         \* "run", "ok", "small", "big", "letter"
vars == <<bits, need, lbits, toks, res>>

LW == Size * W
Valid(l) == ~(LastInvalid /\ l = [n \in 1..Size |-> 2^W - 1])

Init == bits = <<>> /\ need = 1 /\ lbits = <<2>> /\ toks = <<>> /\ res = "run"

(* A letter branch is complete                                               *)
Took(l) == IF ~Valid(l) THEN res' = "letter" /\ UNCHANGED <<need, toks>>
           ELSE /\ toks' = Append(toks, LeafTok(l))
                /\ need' = need - 1
                /\ res' = IF need = 1 THEN "ok" ELSE "run"

Bit(v) ==
    /\ Len(bits) < MaxBits
    /\ res # "end"
    /\ bits' = Append(bits, v)
    /\ CASE res = "ok" -> res' = "big" /\ UNCHANGED <<need, lbits, toks>>
         [] res \in {"big", "letter"} -> UNCHANGED <<need, lbits, toks, res>>
         [] OTHER ->
              IF lbits = <<2>>
              THEN IF v = 1 THEN need' = need + 1 /\ toks' = Append(toks, Joint) /\ UNCHANGED <<lbits, res>>
                   ELSE IF LW = 0 THEN Took(<<>>) /\ UNCHANGED lbits
                   ELSE lbits' = <<>> /\ UNCHANGED <<need, toks, res>>
              ELSE LET l == Append(lbits, v)
                   IN IF Len(l) < LW THEN lbits' = l /\ UNCHANGED <<need, toks, res>>
                      ELSE lbits' = <<2>> /\ Took(BytesOf(l, W))
Next == Bit(0) \/ Bit(1)
Spec == Init /\ [][Next]_vars

(* What the automaton says if the vector ends here                           *)
Verdict == IF res = "run" THEN "small" ELSE res

---------------------------------------------------------------------------
(* Every tree whose encoding fits                                            *)
RECURSIVE Shapes(_)      \* trees with n letter branches, each letter open
Shapes(n) == IF n = 1 THEN {<<LeafTok(l)>> : l \in [1..Size -> 0..(2^W - 1)]}
             ELSE UNION {{<<Joint>> \o l \o r : l \in Shapes(m), r \in Shapes(n - m)} : m \in 1..(n - 1)}
MaxLeaves == (MaxBits + 1) \div (LW + 2)
AllTrees == UNION {Shapes(n) : n \in 1..MaxLeaves}
ValidTree(t) == \A l \in ToSet(LeafSeq(t)) : Valid(l)
Encodings == TLCEval({TreeBits(t, W) : t \in {x \in AllTrees : ValidTree(x)}})

(* C05: accepted exactly the encodings, and as the encoded tree              *)
AcceptsEncodings == (Verdict = "ok") <=> (bits \in Encodings)
TreeOfEncoding == Verdict = "ok" => TreeBits(toks, W) = bits /\ IsTree(toks)
(* C04: different trees have different encodings, none a prefix of another   *)
Injective == Cardinality(Encodings) = Cardinality({x \in AllTrees : ValidTree(x)})
NoPrefix == (Verdict = "big") => bits \notin Encodings
(* The operator the traces are judged with agrees with the automaton         *)
ParseAgrees ==
    LET p == ParseTree(bits, Size, W, Valid)
    IN /\ (p.res = "ok") <=> (Verdict = "ok")
       /\ Verdict = "ok" => p.toks = toks
ASSUME Injective
Emit == PrintT("VEC " \o ToString(bits))
=============================================================================
