------------------------------ MODULE Branches ------------------------------
(* Histories of branches made and changed by hand. Here a branch is a        *)
(* function from paths to nodes: what a child of what is plain to see. The   *)
(* same history is followed with the node sequences records are judged by,   *)
(* and both have to agree. C19.                                              *)
EXTENDS BranchOps, Json

CONSTANTS Letters, MaxOps, MaxNodes

VARIABLES f,    \* f[r]: the branch in register r, a function from paths
          ns,   \* ns[r]: the same as a sequence of nodes
          hist
vars == <<f, ns, hist>>

Item(l, w, c) == [l |-> l, w |-> w, c |-> c]
Under(p, b) == {p \o q : q \in DOMAIN b}
Put(p, b) == [q \in Under(p, b) |-> b[SubSeq(q, Len(p) + 1, Len(q))]]
Starts(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Without(b, p) == [q \in {q \in DOMAIN b : ~(Starts(p, q) /\ q # p)} |-> b[q]]
Union(a, b) == [q \in DOMAIN a \cup DOMAIN b |-> IF q \in DOMAIN b THEN b[q] ELSE a[q]]

Init == f = <<>> /\ ns = <<>> /\ hist = <<>>

Keep(nf, nn, op) == f' = nf /\ ns' = nn /\ hist' = Append(hist, op)
Room == Len(hist) < MaxOps
Small(r, s) == Len(ns[r]) + Len(ns[s]) < MaxNodes

NewLeaf == \E l \in Letters, w \in {1, 2} :
    Keep(Append(f, [q \in {<<>>} |-> Item(<<l>>, w, <<>>)]), Append(ns, Leaf(<<l>>, w)), <<"leaf", l, w>>)
NewJoin == \E a, b \in DOMAIN f :
    /\ Small(a, b)
    /\ Keep(Append(f, Union([q \in {<<>>} |-> Item(<<>>, 3, <<>>)], Union(Put(<<0>>, f[a]), Put(<<1>>, f[b])))),
            Append(ns, Join(<<>>, 3, ns[a], ns[b])), <<"join", a, b>>)
Clone == \E r \in DOMAIN f : Keep(Append(f, f[r]), Append(ns, ns[r]), <<"clone", r>>)
Kids == \E r, a, b \in DOMAIN f : \E p \in DOMAIN f[r] :
    /\ Len(ns[r]) + Len(ns[a]) + Len(ns[b]) <= MaxNodes
    /\ Keep([f EXCEPT ![r] = Union(Without(f[r], p), Union(Put(p \o <<0>>, f[a]), Put(p \o <<1>>, f[b])))],
            [ns EXCEPT ![r] = SetKids(ns[r], NodeAt(ns[r], p), ns[a], ns[b])], <<"kids", r, p, a, b>>)
Drop == \E r \in DOMAIN f : \E p \in DOMAIN f[r] :
    Keep([f EXCEPT ![r] = Without(f[r], p)], [ns EXCEPT ![r] = DropKids(ns[r], NodeAt(ns[r], p))], <<"drop", r, p>>)
Code == \E r \in DOMAIN f : \E p \in DOMAIN f[r] :
    Keep([f EXCEPT ![r][p].c = <<p>>], [ns EXCEPT ![r] = SetCode(ns[r], NodeAt(ns[r], p), p)], <<"code", r, p>>)

Next == Room /\ (NewLeaf \/ NewJoin \/ Clone \/ Kids \/ Drop \/ Code)
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* Children come in pairs, below their parents                               *)
Shape == \A r \in DOMAIN f : \A q \in DOMAIN f[r] :
    q # <<>> => LET up == SubSeq(q, 1, Len(q) - 1)
                IN up \in DOMAIN f[r] /\ (up \o <<0>>) \in DOMAIN f[r] /\ (up \o <<1>>) \in DOMAIN f[r]

(* Depth first, left child first                                             *)
RECURSIVE Order(_, _)
Order(b, p) == IF (p \o <<0>>) \in DOMAIN b THEN <<p>> \o Order(b, p \o <<0>>) \o Order(b, p \o <<1>>) ELSE <<p>>
Agree == \A r \in DOMAIN f :
    LET o == Order(f[r], <<>>)
    IN ns[r] = [k \in 1..Len(o) |-> LET x == f[r][o[k]] IN Node((o[k] \o <<0>>) \in DOMAIN f[r], x.l, x.w, x.c)]
Found == \A r \in DOMAIN f : LET o == Order(f[r], <<>>) IN
    /\ \A k \in 1..Len(o) : NodeAt(ns[r], o[k]) = k
    /\ \A p \in DOMAIN f[r], b \in {0, 1} : (Append(p, b)) \notin DOMAIN f[r] => NodeAt(ns[r], Append(p, b)) = 0

(* A vector for the real code                                                *)
Emit == Len(hist) = MaxOps => PrintT("VEC " \o ToJson(hist))
=============================================================================
