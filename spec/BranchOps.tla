----------------------------- MODULE BranchOps -----------------------------
(* Branches made and changed by hand. A branch is the depth-first (left child *)
(* first) sequence of the nodes below and including it; a node says whether  *)
(* it has children, its letter (<<>> or <<l>>), its weight and its code (<<>> *)
(* or <<bits>>). C19.                                                        *)
EXTENDS HuffBase

Node(kids, l, w, c) == [kids |-> kids, l |-> l, w |-> w, c |-> c]

(* Where what is below node n ends                                           *)
SpanEnd(ns, n) ==
    FoldLeft(LAMBDA acc, k : IF k < n \/ acc.need = 0 THEN acc
                             ELSE [need |-> acc.need + (IF ns[k].kids THEN 1 ELSE -1), at |-> k],
             [need |-> 1, at |-> n], Iota(Len(ns))).at
(* The node a path leads to, 0 if none                                       *)
NodeAt(ns, path) ==
    FoldLeft(LAMBDA n, b : IF n = 0 THEN 0 ELSE IF ~ns[n].kids THEN 0
                           ELSE IF b = 0 THEN n + 1 ELSE SpanEnd(ns, n + 1) + 1,
             1, path)
Below(ns, n) == SubSeq(ns, n, SpanEnd(ns, n))
Instead(ns, n, new) == SubSeq(ns, 1, n - 1) \o new \o SubSeq(ns, SpanEnd(ns, n) + 1, Len(ns))

Leaf(l, w) == <<Node(FALSE, l, w, <<>>)>>
Join(l, w, a, b) == <<Node(TRUE, l, w, <<>>)>> \o a \o b
SetKids(ns, n, a, b) == Instead(ns, n, <<[ns[n] EXCEPT !.kids = TRUE]>> \o a \o b)
DropKids(ns, n) == Instead(ns, n, <<[ns[n] EXCEPT !.kids = FALSE]>>)
SetCode(ns, n, code) == [ns EXCEPT ![n].c = <<code>>]

(* The tree it is, as the other modules know trees                           *)
TokensOf(ns) == TLCEval([k \in 1..Len(ns) |-> IF ns[k].kids THEN Joint ELSE LeafTok(ns[k].l[1])])
(* Fit to be a tree: letters where there are no children and only there, and *)
(* every letter's code its path (the only letter of a tree needs none)       *)
Proper(ns) ==
    /\ \A k \in 1..Len(ns) : ns[k].kids <=> ns[k].l = <<>>
    /\ LET ps == TLCEval(Paths(TokensOf(ns)))
       IN Len(ns) = 1 \/ \A k \in 1..Len(ns) : ~ns[k].kids => ns[k].c = <<ps[k]>>
=============================================================================
