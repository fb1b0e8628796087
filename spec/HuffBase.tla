------------------------------ MODULE HuffBase ------------------------------
(* The mathematics every other module shares: bits and bytes, trees as the   *)
(* depth-first sequence of their branches, the codes a tree assigns, the     *)
(* documented encodings, large weights, and the cost of an optimal code.     *)
(*                                                                           *)
(* Sequences of thousands of elements are handled, so everything is written  *)
(* with folds (TLC evaluates those natively) or divide-and-conquer.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

---------------------------------------------------------------------------
(* Concatenation of a sequence of sequences, O(n log n)                      *)
RECURSIVE CatR(_, _, _)
CatR(ss, lo, hi) ==
    IF lo > hi THEN <<>>
    ELSE IF lo = hi THEN ss[lo]
    ELSE LET m == (lo + hi) \div 2 IN CatR(ss, lo, m) \o CatR(ss, m + 1, hi)
Cat(ss) == CatR(TLCEval(ss), 1, Len(ss))

(* What a fold of s puts out: Step gives <<next state, what is put out>>.    *)
(* (Appending copies, so that it is done in pieces.)                         *)
Collect(Step(_, _), init, s) ==
    LET Add(acc, x) ==
            LET r == Step(acc.st, x)
            IN IF Len(acc.cur) = 512
               THEN [st |-> r[1], cur |-> <<r[2]>>, all |-> Append(acc.all, acc.cur)]
               ELSE [st |-> r[1], cur |-> Append(acc.cur, r[2]), all |-> acc.all]
        f == FoldLeft(Add, [st |-> init, cur |-> <<>>, all |-> <<>>], s)
    IN Cat(Append(f.all, f.cur))

(* Is A a part of B? (Comparing B with itself first puts it in order, which  *)
(* makes it fast to search.)                                                 *)
Within(A, B) == LET S == B IN S = S /\ A \subseteq S

SumSeq(s) == FoldLeft(+, 0, s)
Iota(n) == [i \in 1..n |-> i]
NoDup(s) == Cardinality(ToSet(s)) = Len(s)

---------------------------------------------------------------------------
(* Bytes of w bits each, most significant bit first (w = 8 for real bytes)   *)
BitsOf(bytes, w) ==
    [i \in 1..(Len(bytes) * w) |->
        (bytes[((i - 1) \div w) + 1] \div 2^(w - 1 - ((i - 1) % w))) % 2]
PadOf(nbits, w) == (w - (nbits % w)) % w
(* Packed from the most significant bit, zeros filling up the last byte      *)
BytesOf(bits, w) ==
    LET n == (Len(bits) + w - 1) \div w
        B == TLCEval(bits)
        bit(i) == IF i <= Len(B) THEN B[i] ELSE 0
        ws == Iota(w)
    IN [k \in 1..n |-> FoldLeft(LAMBDA a, j : 2 * a + bit((k - 1) * w + j), 0, ws)]

---------------------------------------------------------------------------
(* Trees. A letter is a sequence of bytes; a tree is the depth-first (left   *)
(* child first) sequence of its branches, each <<0>> for a joint branch or   *)
(* <<1>> followed by the letter for a letter branch.                         *)
Joint == <<0>>
LeafTok(l) == <<1>> \o l
IsJoint(t) == t[1] = 0
LetterOf(t) == Tail(t)

LeafSeq(toks) == LET s == TLCEval(SelectSeq(toks, LAMBDA t : ~IsJoint(t)))
                 IN TLCEval([i \in 1..Len(s) |-> LetterOf(s[i])])

(* Is it the traversal of exactly one tree: every joint has its two children *)
IsTree(toks) ==
    FoldLeft(LAMBDA need, t : IF need = 0 THEN -1
                              ELSE IF need < 0 THEN need
                              ELSE IF IsJoint(t) THEN need + 1 ELSE need - 1,
             1, toks) = 0

(* The path to the next branch in depth-first order after a letter branch    *)
Advance(p) ==
    LET k == SelectLastInSeq(p, LAMBDA b : b = 0)
    IN IF k = 0 THEN <<>> ELSE Append(SubSeq(p, 1, k - 1), 1)
(* The path from the root to every branch, left 0, right 1                   *)
Paths(toks) ==
    Collect(LAMBDA p, t : <<IF IsJoint(t) THEN Append(p, 0) ELSE Advance(p), p>>, <<>>, toks)
(* The codes of the letter branches, in order: their paths, but the only     *)
(* branch of a one-letter tree has the code 0                                *)
LeafCodes(toks) ==
    IF Len(toks) = 1 THEN << <<0>> >>
    ELSE LET ps == TLCEval(Paths(toks))
             ix == TLCEval(SelectSeq(Iota(Len(toks)), LAMBDA i : ~IsJoint(toks[i])))
         IN TLCEval([k \in 1..Len(ix) |-> ps[ix[k]]])
(* The code a tree gives to each of its letters                              *)
CodeMap(toks) ==
    LET ls == LeafSeq(toks)
        cs == LeafCodes(toks)
    IN IF Len(ls) < 3000 THEN TLCEval([l \in ToSet(ls) |-> cs[SelectInSeq(ls, LAMBDA x : x = l)]])
       ELSE \* found faster among those with the same end
            LET end(l) == IF l = <<>> THEN 0 ELSE l[Len(l)]
                at == TLCEval([b \in 0..255 |-> SelectSeq(Iota(Len(ls)), LAMBDA k : end(ls[k]) = b)])
            IN TLCEval([l \in ToSet(ls) |->
                  LET ks == at[end(l)] IN cs[ks[SelectInSeq(ks, LAMBDA k : ls[k] = l)]]])

(* How deep the tree is nested                                               *)
Depth(toks) ==
    FoldLeft(LAMBDA acc, t :
                IF IsJoint(t)
                THEN [d |-> acc.d + 1, st |-> Append(acc.st, acc.d + 1),
                      mx |-> IF acc.d + 1 > acc.mx THEN acc.d + 1 ELSE acc.mx]
                ELSE IF acc.st = <<>> THEN acc
                ELSE [acc EXCEPT !.d = acc.st[Len(acc.st)], !.st = Front(acc.st)],
             [d |-> 0, st |-> <<>>, mx |-> 0], toks).mx
(* A tree of n joints is at most n levels deep                               *)
DeeperThan(toks, n) == Len(toks) > 2 * n + 1 /\ Depth(toks) > n

---------------------------------------------------------------------------
(* The documented binary form of a tree                                      *)
TreeBits(toks, w) ==
    Cat([i \in 1..Len(toks) |->
            IF IsJoint(toks[i]) THEN <<1>> ELSE <<0>> \o BitsOf(LetterOf(toks[i]), w)])

(* Reading a tree of letters of size bytes (w bits each): one step per       *)
(* branch. Accepted iff the bits are exactly one encoding.                   *)
ParseTree(bits, size, w, Valid(_)) ==
    LET B    == TLCEval(bits)
        n    == Len(B)
        lw   == size * w
        full(st) == IF Len(st.toks) = 512 THEN Append(st.all, st.toks) ELSE st.all
        put(st, t) == IF Len(st.toks) = 512 THEN <<t>> ELSE Append(st.toks, t)
        Step(st, i) ==
            IF st.res # "run" THEN st
            \* each branch still needed takes a bit at least
            ELSE IF st.pos + st.need > n + 1 THEN [st EXCEPT !.res = "small"]
            ELSE IF B[st.pos] = 1
            THEN [st EXCEPT !.pos = @ + 1, !.need = @ + 1, !.toks = put(st, Joint), !.all = full(st)]
            ELSE IF st.pos + lw > n THEN [st EXCEPT !.res = "small"]
            ELSE LET l == BytesOf(SubSeq(B, st.pos + 1, st.pos + lw), w)
                 IN IF ~Valid(l) THEN [st EXCEPT !.res = "letter"]
                    ELSE [pos |-> st.pos + 1 + lw, need |-> st.need - 1,
                          toks |-> put(st, LeafTok(l)), all |-> full(st),
                          res |-> IF st.need > 1 THEN "run"
                                  ELSE IF st.pos + lw = n THEN "ok" ELSE "big"]
        r == FoldLeft(Step, [pos |-> 1, need |-> 1, toks |-> <<>>, all |-> <<>>, res |-> "run"], Iota(n + 1))
    IN [res |-> r.res, pos |-> r.pos, toks |-> Cat(r.all) \o r.toks]

---------------------------------------------------------------------------
(* The codes of letters in order                                             *)
Encode(letters, codes) == Cat([i \in 1..Len(letters) |-> codes[letters[i]]])

(* Where the right child of every joint is, walking the traversal backwards  *)
RightChild(toks) ==
    LET Step(st, t) ==
            LET i == Len(toks) + 1 - t[2] IN
            IF IsJoint(t[1])
            THEN \* the two subtrees that follow: starts are on the stack, left on top
                 <<Append(SubSeq(st, 1, Len(st) - 2), i), st[Len(st) - 1]>>
            ELSE <<Append(st, i), 0>>
        n == Len(toks)
    IN TLCEval(Reverse(Collect(Step, <<>>, [k \in 1..n |-> <<toks[n + 1 - k], k>>])))
(* The letters whose codes the bits hold; bits left in the middle of a code  *)
(* stand for no letter                                                       *)
Walk(toks, bits) ==
    LET rc == RightChild(toks)
        Step(acc, b) ==
            LET nx == IF b = 0 THEN acc.at + 1 ELSE rc[acc.at]
            IN IF IsJoint(toks[nx]) THEN [acc EXCEPT !.at = nx]
               ELSE [at |-> 1, out |-> Append(acc.out, LetterOf(toks[nx]))]
    IN FoldLeft(Step, [at |-> 1, out |-> <<>>], bits)
Decode(toks, bits) ==
    IF Len(toks) = 1 THEN [i \in 1..Len(bits) |-> LetterOf(toks[1])]
    ELSE Walk(toks, bits).out
(* Do the bits consist of codes and nothing else                             *)
Whole(toks, bits) ==
    IF Len(toks) = 1 THEN \A i \in 1..Len(bits) : bits[i] = 0
    ELSE Walk(toks, bits).at = 1

---------------------------------------------------------------------------
(* The documented byte form of compressed data                               *)
Be4(n) == <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
Container(toks, data, pad) ==
    LET tb == TLCEval(TreeBits(toks, 8))
        tree == BytesOf(tb, 8)
    IN <<PadOf(Len(tb), 8) * 16 + pad>> \o Be4(Len(tree)) \o tree \o data

(* Reading it. res: "ok"; "either" for a tree padding above 7, which may be  *)
(* accepted or refused; anything else says why it has to be refused          *)
ParseContainer(b, size, Valid(_)) ==
    LET no(r) == [res |-> r, toks |-> <<>>, data |-> <<>>, pad |-> 0]
    IN IF Len(b) < 5 THEN no("header")
       ELSE IF b[2] >= 64 THEN no("tree cut")          \* more than any input here has
       ELSE LET tl == ((b[2] * 256 + b[3]) * 256 + b[4]) * 256 + b[5]
                tp == b[1] \div 16
                dp == b[1] % 16
            IN IF tl < 2 THEN no("tree length")
               ELSE IF Len(b) < 5 + tl THEN no("tree cut")
               ELSE IF Len(b) = 5 + tl THEN no("no data")
               ELSE IF dp > 7 THEN no("data padding")
               ELSE IF tp > 7 THEN no("either")
               ELSE LET t == ParseTree(SubSeq(BitsOf(SubSeq(b, 6, 5 + tl), 8), 1, 8 * tl - tp), size, 8, Valid)
                    IN IF t.res # "ok" THEN no("tree")
                       ELSE [res |-> "ok", toks |-> t.toks, data |-> SubSeq(b, 6 + tl, Len(b)), pad |-> dp]

---------------------------------------------------------------------------
(* Integers and their big-endian bytes. A number is <<1 if negative, 0 if    *)
(* not>> followed by its digits in base d; it has n bytes of base k each.    *)
(* Magnitudes are folded into base k, most significant first.                *)
Shift(v, d, x, k) ==
    LET n == Len(v)
        Step(acc, j) == LET p == n + 1 - j
                            t == acc.v[p] * d + acc.c
                        IN [v |-> [acc.v EXCEPT ![p] = t % k], c |-> t \div k]
    IN FoldLeft(Step, [v |-> v, c |-> x], Iota(n)).v
Magnitude(digits, d, n, k) == FoldLeft(LAMBDA v, x : Shift(v, d, x, k), [j \in 1..n |-> 0], digits)
(* Two's complement                                                          *)
Complement(v, k) == Shift([j \in 1..Len(v) |-> k - 1 - v[j]], 1, 1, k)
NumberBytes(num, d, n, k) ==
    LET m == Magnitude(Tail(num), d, n, k)
    IN IF num[1] = 1 THEN Complement(m, k) ELSE m

---------------------------------------------------------------------------
(* Weights: six digits to the base 32768, least significant first, so that   *)
(* sums and products of anything that fits in 64 bits can be formed          *)
Base == 32768
BZero == <<0, 0, 0, 0, 0, 0>>
BigOf(n) == <<n % Base, (n \div Base) % Base, n \div (Base * Base), 0, 0, 0>>
BCarry(a) ==
    LET a1 == a[1]
        a2 == a[2] + a1 \div Base
        a3 == a[3] + a2 \div Base
        a4 == a[4] + a3 \div Base
        a5 == a[5] + a4 \div Base
        a6 == a[6] + a5 \div Base
    IN <<a1 % Base, a2 % Base, a3 % Base, a4 % Base, a5 % Base, a6>>
BAdd(a, b) == BCarry(<<a[1] + b[1], a[2] + b[2], a[3] + b[3], a[4] + b[4], a[5] + b[5], a[6] + b[6]>>)
(* k below 65536                                                             *)
BMul(a, k) == BCarry(<<a[1] * k, a[2] * k, a[3] * k, a[4] * k, a[5] * k, a[6] * k>>)
BLess(a, b) ==
    IF a[6] # b[6] THEN a[6] < b[6] ELSE IF a[5] # b[5] THEN a[5] < b[5]
    ELSE IF a[4] # b[4] THEN a[4] < b[4] ELSE IF a[3] # b[3] THEN a[3] < b[3]
    ELSE IF a[2] # b[2] THEN a[2] < b[2] ELSE a[1] < b[1]
BSum(s) == FoldLeft(BAdd, BZero, s)
(* a < 2^64 iff it fits in the machine word: 2^64 = 16 * Base^4              *)
BFits64(a) == a[6] = 0 /\ a[5] < 16

(* In increasing order. (A set of tuples happens to be listed in that order, *)
(* which is a good deal faster than sorting; if not, it is sorted.)          *)
SortedWeights(ws) ==
    LET all == TLCEval(SetToSeq({<<ws[k][6], ws[k][5], ws[k][4], ws[k][3], ws[k][2], ws[k][1], k>> : k \in 1..Len(ws)}))
        S == TLCEval([k \in 1..Len(ws) |-> Reverse(SubSeq(all[k], 1, 6))])
    IN IF \A k \in 2..Len(ws) : ~BLess(S[k], S[k - 1]) THEN S ELSE TLCEval(SortSeq(ws, BLess))

(* The least total weighted code length any prefix code can reach: merge the *)
(* two least, over and over, keeping the merged ones in a second queue       *)
HuffCost(ws) ==
    LET n == Len(ws)
        S == SortedWeights(ws)
        fromS(st) == st.j > Len(st.q) \/ (st.i <= n /\ ~BLess(st.q[st.j], S[st.i]))
        take(st) == IF fromS(st) THEN [v |-> S[st.i], st |-> [st EXCEPT !.i = @ + 1]]
                    ELSE [v |-> st.q[st.j], st |-> [st EXCEPT !.j = @ + 1]]
        Step(st, k) ==
            LET a == take(st)
                b == take(a.st)
                m == BAdd(a.v, b.v)
            IN [b.st EXCEPT !.q = Append(@, m), !.cost = BAdd(@, m)]
    IN FoldLeft(Step, [i |-> 1, j |-> 1, q |-> <<>>, cost |-> BZero], Iota(n - 1)).cost

(* What a code costs: codes[i] is the code of a letter weighing ws[i]        *)
CodeCost(ws, codes) == BSum([i \in 1..Len(ws) |-> BMul(ws[i], Len(codes[i]))])
=============================================================================
