----------------------------- MODULE HuffBuild -----------------------------
(* How a tree is built from weights: every letter starts as a branch of its  *)
(* own in a heap; while there are two or more, the two lightest are merged.  *)
(* Which of several equally light branches the heap yields is left open, so  *)
(* TLC explores every tie order a heap or a hash map could produce.          *)
(*                                                                           *)
(* The properties say that whatever the ties, the codes are a complete       *)
(* prefix code over exactly the letters (C02), of minimal cost, with weights *)
(* that add up (C03).                                                        *)
EXTENDS HuffBase

CONSTANTS MaxLetters, \* alphabets of 1..MaxLetters letters
          MaxWeight   \* weights 0..MaxWeight

VARIABLES ws,   \* the weight of each letter 1..n, in non-decreasing order:
                \* the letters' names do not matter to anything below
          heap, \* the branches not yet merged
          tree  \* the finished tree, or <<>>
vars == <<ws, heap, tree>>

Sorted(f) == \A x, y \in DOMAIN f : x <= y => f[x] <= f[y]
N == Len(ws)

Init == /\ \E n \in 1..MaxLetters : ws \in {f \in [1..n -> 0..MaxWeight] : Sorted(f)}
        /\ heap = {[toks |-> <<LeafTok(<<k>>)>>, w |-> ws[k]] : k \in 1..N}
        /\ tree = <<>>

Lightest(h) == {x \in h : \A y \in h : x.w <= y.w}

Merge == /\ Cardinality(heap) > 1
         /\ \E a \in Lightest(heap) : \E b \in Lightest(heap \ {a}) :
               heap' = (heap \ {a, b}) \cup {[toks |-> <<Joint>> \o a.toks \o b.toks, w |-> a.w + b.w]}
         /\ UNCHANGED <<ws, tree>>

Finish == /\ Cardinality(heap) = 1
          /\ tree = <<>>
          /\ tree' = (CHOOSE x \in heap : TRUE).toks
          /\ heap' = {}
          /\ UNCHANGED ws

Next == Merge \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

---------------------------------------------------------------------------
Done == tree # <<>>

(* While merging: the branches are trees sharing out the letters, each       *)
(* weighing what its letters weigh                                           *)
Sharing == ~Done =>
    /\ \A x \in heap : IsTree(x.toks) /\ NoDup(LeafSeq(x.toks))
                       /\ x.w = SumSeq([k \in 1..Len(LeafSeq(x.toks)) |-> ws[LeafSeq(x.toks)[k][1]]])
    /\ UNION {ToSet(LeafSeq(x.toks)) : x \in heap} = {<<k>> : k \in 1..N}
    /\ \A x, y \in heap : x # y => ToSet(LeafSeq(x.toks)) \cap ToSet(LeafSeq(y.toks)) = {}

(* C02 *)
Strict(p, q) == Len(p) < Len(q) /\ SubSeq(q, 1, Len(p)) = p
CompletePrefixCode == Done =>
    LET cs == CodeMap(tree) IN
    /\ DOMAIN cs = {<<k>> : k \in 1..N}
    /\ Len(LeafSeq(tree)) = N
    /\ \A x, y \in DOMAIN cs : x # y => cs[x] # cs[y] /\ ~Strict(cs[x], cs[y])
    /\ \A x \in DOMAIN cs : Len(cs[x]) \in 1..N
    /\ N > 1 => SumSeq([k \in 1..N |-> 2^(N - Len(cs[<<k>>]))]) = 2^N      \* nothing left over

(* C03: against every assignment of code lengths a prefix code can have      *)
Cost(l) == SumSeq([k \in 1..N |-> ws[k] * l[k]])
Lengths == {l \in [1..N -> 1..(N - 1)] : SumSeq([k \in 1..N |-> 2^(N - l[k])]) <= 2^N}
Least == LET cost == {Cost(l) : l \in Lengths} IN CHOOSE m \in cost : \A x \in cost : m <= x
Optimal == (Done /\ N > 1) =>
    LET cs == CodeMap(tree)
        c == Cost([k \in 1..N |-> Len(cs[<<k>>])])
    IN c = Least
(* The way the trace specifications compute the least cost is right          *)
HuffCostIsLeast == (Done /\ N > 1) => HuffCost([k \in 1..N |-> BigOf(ws[k])]) = BigOf(Least)
CodeCostIsCost == (Done /\ N > 1) =>
    LET cs == CodeMap(tree) IN
    CodeCost([k \in 1..N |-> BigOf(ws[k])], [k \in 1..N |-> cs[<<k>>]])
        = BigOf(Cost([k \in 1..N |-> Len(cs[<<k>>])]))

Terminates == <>Done

(* A vector for the real code: weights in every order are replayed from it   *)
Emit == Cardinality(heap) = N => PrintT("VEC " \o ToString(ws))
=============================================================================
