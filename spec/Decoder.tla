------------------------------ MODULE Decoder ------------------------------
(* Decompression of any bytes with any tree. The reader takes the bits of    *)
(* every byte, of the last one all but the padding, and goes from branch to  *)
(* branch. Bytes have W bits. C20.                                           *)
EXTENDS HuffBase, Json

CONSTANTS W,         \* bits per byte
          NL,        \* letters 1..NL, and a letter may stand on several leaves
          MaxLeaves,
          MaxLen     \* 1..MaxLen bytes

VARIABLES toks, data, pad,
          j,     \* the next bit
          at,    \* the branch
          got
vars == <<toks, data, pad, j, at, got>>

RECURSIVE Trees(_)
Trees(n) ==
    IF n = 1 THEN {<<LeafTok(<<l>>)>> : l \in 1..NL}
    ELSE UNION {{<<Joint>> \o l \o r : l \in Trees(m), r \in Trees(n - m)} : m \in 1..(n - 1)}

Init == /\ toks \in UNION {Trees(n) : n \in 1..MaxLeaves}
        /\ \E n \in 1..MaxLen : data \in [1..n -> 0..(2^W - 1)]
        /\ pad \in 0..(W - 1)
        /\ j = 1 /\ at = 1 /\ got = <<>>

AllBits == SubSeq(BitsOf(data, W), 1, Len(data) * W - pad)
Bit == data[((j - 1) \div W) + 1] \div 2^(W - 1 - ((j - 1) % W)) % 2

(* Where the right child of a joint branch begins                            *)
RECURSIVE EndOf(_)
EndOf(n) == IF IsJoint(toks[n]) THEN EndOf(EndOf(n + 1) + 1) ELSE n
Go == IF ~IsJoint(toks[at]) THEN at
      ELSE IF Bit = 0 THEN at + 1 ELSE EndOf(at + 1) + 1

Read == /\ j <= Len(data) * W - pad
        /\ j' = j + 1
        /\ IF IsJoint(toks[Go]) THEN at' = Go /\ got' = got
           ELSE at' = 1 /\ got' = Append(got, LetterOf(toks[Go]))
        /\ UNCHANGED <<toks, data, pad>>
Next == Read
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

---------------------------------------------------------------------------
Done == j > Len(data) * W - pad

(* At every moment what has been read is the codes of the letters given so   *)
(* far and a beginning of a code, for some choice among the codes of a letter*)
LeafAt(path) == CHOOSE n \in 1..Len(toks) : Paths(toks)[n] = path
RECURSIVE Splits(_, _)
Splits(bits, ls) ==
    \* bits consist of codes of the letters ls in order and the path to `at'
    IF ls = <<>> THEN bits = Paths(toks)[at]
    ELSE \E n \in 1..Len(toks) :
            /\ toks[n] = LeafTok(ls[1])
            /\ LET p == Paths(toks)[n]
               IN Len(p) <= Len(bits) /\ SubSeq(bits, 1, Len(p)) = p /\ Splits(SubSeq(bits, Len(p) + 1, Len(bits)), Tail(ls))
Consumed == Len(toks) > 1 => Splits(SubSeq(AllBits, 1, j - 1), got)
(* The operators records are judged with agree with the machine              *)
DecodeAgrees == Done => /\ Decode(toks, AllBits) = got
                        /\ Whole(toks, AllBits) <=> (at = 1 /\ (Len(toks) = 1 => \A k \in 1..Len(AllBits) : AllBits[k] = 0))
(* What is whole is what compressing the letters gives, and nothing else is  *)
CodesOnly == (Done /\ NoDup(LeafSeq(toks))) =>
              (Whole(toks, AllBits) <=> Encode(got, CodeMap(toks)) = AllBits)
Terminates == <>Done

(* A vector for the real code                                                *)
Emit == j = 1 => PrintT("VEC " \o ToJson([tree |-> TreeBits(toks, 8), bits |-> AllBits]))
=============================================================================
