------------------------------- MODULE Blocks -------------------------------
(* How huff compresses a file block by block and decompresses one block by   *)
(* block: each block is compressed on its own and joined to the last byte    *)
(* written, which has some bits to spare; a reader block may end anywhere in *)
(* a code, and only the last one ends with padding. Bytes have W bits.       *)
(* C11 and C12: whatever the two block sizes, the file written is the same   *)
(* and the file restored is the source.                                      *)
EXTENDS HuffBase, Json

CONSTANTS W, NL, MaxLen

VARIABLES toks, src, b1, b2,
          phase,            \* "write", "read", "done"
          left,             \* source letters (then file bytes) not yet read
          file,             \* the data part of the file
          prevByte, prevPad,\* the last byte written, and its spare bits
          at, got           \* place in the tree, letters restored
vars == <<toks, src, b1, b2, phase, left, file, prevByte, prevPad, at, got>>

RECURSIVE TreesOver(_)
TreesOver(ls) ==
    IF Len(ls) = 1 THEN {<<LeafTok(ls[1])>>}
    ELSE UNION {{<<Joint>> \o l \o r : l \in TreesOver(SubSeq(ls, 1, m)), r \in TreesOver(SubSeq(ls, m + 1, Len(ls)))}
                 : m \in 1..(Len(ls) - 1)}

Init == /\ \E m \in 1..NL : toks \in TreesOver([k \in 1..m |-> <<k>>])
        /\ \E k \in 1..MaxLen : src \in [1..k -> ToSet(LeafSeq(toks))]
        /\ b1 \in 1..(Len(src) + 1)
        /\ b2 = 0
        /\ phase = "write" /\ left = Len(src) /\ file = <<>>
        /\ prevByte = 0 /\ prevPad = 0 /\ at = 1 /\ got = <<>>

Lesser(x, y) == IF x < y THEN x ELSE y

(* Bytes moved s bits to the right, into one more byte if they no longer fit *)
Offset(bytes, s) == BytesOf([k \in 1..s |-> 0] \o BitsOf(bytes, W), W)

WriteBlock ==
    /\ phase = "write" /\ left > 0
    /\ LET n == Lesser(b1, left)
           from == Len(src) - left
           bits == Encode(SubSeq(src, from + 1, from + n), CodeMap(toks))
           own == BytesOf(bits, W)
           ownPad == PadOf(Len(bits), W)
           moved == Offset(own, W - prevPad)
           first == [moved EXCEPT ![1] = @ + prevByte]
           pad == ownPad + prevPad
           cut == IF pad >= W THEN Front(first) ELSE first
           bytes == IF prevPad = 0 THEN own ELSE cut
           kept == IF prevPad = 0 THEN file ELSE Front(file)
       IN /\ file' = kept \o bytes
          /\ prevPad' = IF prevPad = 0 THEN ownPad ELSE pad % W
          /\ prevByte' = bytes[Len(bytes)]
          /\ left' = left - n
    /\ UNCHANGED <<toks, src, b1, b2, phase, at, got>>

StartRead == /\ phase = "write" /\ left = 0
             /\ phase' = "read" /\ left' = Len(file)
             /\ b2' \in 1..(Len(file) + 1)
             /\ UNCHANGED <<toks, src, b1, file, prevByte, prevPad, at, got>>

ReadBlock ==
    /\ phase = "read" /\ left > 0
    /\ LET n == Lesser(b2, left)
           from == Len(file) - left
           all == BitsOf(SubSeq(file, from + 1, from + n), W)
           bits == IF left = n THEN SubSeq(all, 1, Len(all) - prevPad) ELSE all
           rc == RightChild(toks)
           Step(acc, v) ==
             LET nx == IF Len(toks) = 1 THEN 1 ELSE IF v = 0 THEN acc.at + 1 ELSE rc[acc.at]
             IN IF IsJoint(toks[nx]) THEN [acc EXCEPT !.at = nx]
                ELSE [at |-> 1, out |-> Append(acc.out, LetterOf(toks[nx]))]
           r == FoldLeft(Step, [at |-> at, out |-> <<>>], bits)
       IN at' = r.at /\ got' = got \o r.out
    /\ left' = left - Lesser(b2, left)
    /\ UNCHANGED <<toks, src, b1, b2, phase, file, prevByte, prevPad>>

Done == /\ phase = "read" /\ left = 0 /\ phase' = "done"
        /\ UNCHANGED <<toks, src, b1, b2, left, file, prevByte, prevPad, at, got>>

Next == WriteBlock \/ StartRead \/ ReadBlock \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

---------------------------------------------------------------------------
(* At every block boundary the file holds what one block would have written  *)
SameFile == phase = "write" =>
    LET bits == Encode(SubSeq(src, 1, Len(src) - left), CodeMap(toks))
    IN file = BytesOf(bits, W) /\ prevPad = PadOf(Len(bits), W)
Restored == phase = "done" => got = src
OneData == phase # "write" => Len(file) > 0 /\ prevPad < W
Terminates == <>(phase = "done")

(* A vector for the real program: a source and two block sizes               *)
Emit == (phase = "read" /\ left = Len(file) /\ got = <<>>) =>
        PrintT("VEC " \o ToJson([src |-> [n \in 1..Len(src) |-> src[n][1]], b1 |-> b1, b2 |-> b2]))
=============================================================================
