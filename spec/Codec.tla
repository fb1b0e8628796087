------------------------------- MODULE Codec -------------------------------
(* Compression and decompression with a tree, bit by bit: the writer shifts  *)
(* the bits of each letter's code into the current byte and pushes it when   *)
(* full, and counts what is left of the last one as padding; the reader      *)
(* walks the tree and stops before the padding. Bytes have W bits, so that   *)
(* every padding and every way codes straddle bytes is reached by short      *)
(* sequences. C01, C06 (packing) and C10.                                    *)
EXTENDS HuffBase, Json

CONSTANTS W,      \* bits per byte
          NL,     \* letters 1..NL
          MaxLen  \* sequences of 1..MaxLen letters

VARIABLES toks, src,          \* the tree and the letters
          phase,              \* "enc", "dec", "done", "missing"
          k, b,               \* next letter and next bit of its code
          byte, ptr, out, pad,\* the byte being filled, its next bit, the bytes
          j, at, got          \* next bit to read, place in the tree, letters
vars == <<toks, src, phase, k, b, byte, ptr, out, pad, j, at, got>>

(* Every tree over the letters of a sequence, in that order                  *)
RECURSIVE TreesOver(_)
TreesOver(ls) ==
    IF Len(ls) = 1 THEN {<<LeafTok(ls[1])>>}
    ELSE UNION {{<<Joint>> \o l \o r : l \in TreesOver(SubSeq(ls, 1, m)), r \in TreesOver(SubSeq(ls, m + 1, Len(ls)))}
                 : m \in 1..(Len(ls) - 1)}
Orders(S) == {f \in [1..Cardinality(S) -> S] : \A x, y \in DOMAIN f : x # y => f[x] # f[y]}
LetterSet == {<<n>> : n \in 1..NL}
AllTrees == UNION {UNION {TreesOver(o) : o \in Orders(S)} : S \in (SUBSET LetterSet) \ {{}}}

Init == /\ toks \in AllTrees
        /\ \E n \in 1..MaxLen : src \in [1..n -> LetterSet]
        /\ phase = "enc" /\ k = 1 /\ b = 1
        /\ byte = 0 /\ ptr = W - 1 /\ out = <<>> /\ pad = 0
        /\ j = 1 /\ at = 1 /\ got = <<>>

Plain(s) == [n \in 1..Len(s) |-> s[n][1]]
Codes == CodeMap(toks)
Has(l) == l \in ToSet(LeafSeq(toks))

PutBit == /\ phase = "enc" /\ k <= Len(src) /\ Has(src[k])
          /\ LET v == byte + Codes[src[k]][b] * 2^ptr
             IN IF ptr = 0 THEN byte' = 0 /\ ptr' = W - 1 /\ out' = Append(out, v)
                ELSE byte' = v /\ ptr' = ptr - 1 /\ out' = out
          /\ IF b = Len(Codes[src[k]]) THEN k' = k + 1 /\ b' = 1 ELSE k' = k /\ b' = b + 1
          /\ UNCHANGED <<toks, src, phase, pad, j, at, got>>

Missing == /\ phase = "enc" /\ k <= Len(src) /\ ~Has(src[k])
           /\ phase' = "missing"
           /\ UNCHANGED <<toks, src, k, b, byte, ptr, out, pad, j, at, got>>

EndEnc == /\ phase = "enc" /\ k > Len(src)
          /\ pad' = IF ptr = W - 1 THEN 0 ELSE ptr + 1
          /\ out' = IF ptr = W - 1 THEN out ELSE Append(out, byte)
          /\ phase' = "dec"
          /\ UNCHANGED <<toks, src, k, b, byte, ptr, j, at, got>>

GetBit == /\ phase = "dec" /\ j <= Len(out) * W - pad
          /\ LET v == BitsOf(out, W)[j]
                 rc == RightChild(toks)
                 nx == IF Len(toks) = 1 THEN 1 ELSE IF v = 0 THEN at + 1 ELSE rc[at]
             IN IF IsJoint(toks[nx]) THEN at' = nx /\ got' = got
                ELSE at' = 1 /\ got' = Append(got, LetterOf(toks[nx]))
          /\ j' = j + 1
          /\ UNCHANGED <<toks, src, phase, k, b, byte, ptr, out, pad>>

EndDec == /\ phase = "dec" /\ j > Len(out) * W - pad
          /\ phase' = "done"
          /\ UNCHANGED <<toks, src, k, b, byte, ptr, out, pad, j, at, got>>

Next == PutBit \/ Missing \/ EndEnc \/ GetBit \/ EndDec
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

---------------------------------------------------------------------------
Covered == \A n \in 1..Len(src) : Has(src[n])

RoundTrip == phase = "done" => got = src                                 \* C01
Packed == phase \in {"dec", "done"} =>                                   \* C06
    LET bits == Encode(src, Codes)
    IN out = BytesOf(bits, W) /\ pad = PadOf(Len(bits), W) /\ pad < W /\ out # <<>>
ReportsFirst == /\ phase = "missing" => (~Has(src[k]) /\ \A n \in 1..(k - 1) : Has(src[n]))  \* C10
                /\ phase \in {"dec", "done"} => Covered
(* The operators the traces are judged with agree with the machine           *)
DecodeAgrees == phase = "done" => Decode(toks, SubSeq(BitsOf(out, W), 1, Len(out) * W - pad)) = got
Terminates == <>(phase \in {"done", "missing"})

(* A vector for the real code: the binary form of the tree, and the letters  *)
Emit == (phase = "enc" /\ k = 1 /\ b = 1) => PrintT("VEC " \o ToJson([tree |-> TreeBits(toks, 8), src |-> Plain(src)]))
=============================================================================
