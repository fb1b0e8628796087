---------------------------- MODULE ThreadCount ----------------------------
(* Counting bytes with several threads: the slice is divided into rations,   *)
(* the last taking the remainder (one ration only if there are fewer bytes   *)
(* than threads); each thread counts its ration; the counts are joined in    *)
(* the order the threads were spawned in and added up. C09.                  *)
EXTENDS HuffBase, Json

CONSTANTS Values,    \* byte values
          MaxLen,    \* slices of 0..MaxLen bytes
          MaxThreads

VARIABLES src, n,    \* the slice and the thread count
          pc,        \* "ration", "count", "join", "done"
          rations,   \* what every thread counts
          pos, cnt,  \* how far every thread is, and its counts
          joined, sum
vars == <<src, n, pc, rations, pos, cnt, joined, sum>>

Zero == [v \in Values |-> 0]
Init == /\ \E k \in 0..MaxLen : src \in [1..k -> Values]
        /\ n \in 1..MaxThreads
        /\ pc = "ration" /\ rations = <<>> /\ pos = <<>> /\ cnt = <<>>
        /\ joined = 0 /\ sum = Zero

Ration ==
    /\ pc = "ration"
    /\ LET per == Len(src) \div n
           rs == IF per = 0 THEN <<src>>
                 ELSE [t \in 1..n |-> SubSeq(src, (t - 1) * per + 1, IF t = n THEN Len(src) ELSE t * per)]
       IN /\ rations' = rs
          /\ pos' = [t \in 1..Len(rs) |-> 0]
          /\ cnt' = [t \in 1..Len(rs) |-> Zero]
    /\ pc' = "count"
    /\ UNCHANGED <<src, n, joined, sum>>

(* Any thread takes a step at any time                                       *)
CountOne(t) == /\ pc = "count"
               /\ pos[t] < Len(rations[t])
               /\ pos' = [pos EXCEPT ![t] = @ + 1]
               /\ cnt' = [cnt EXCEPT ![t][rations[t][pos[t] + 1]] = @ + 1]
               /\ UNCHANGED <<src, n, pc, rations, joined, sum>>

(* Joining waits for the next thread in spawn order, while others still run  *)
Join == /\ pc = "count"
        /\ joined < Len(rations)
        /\ LET t == joined + 1 IN
             /\ pos[t] = Len(rations[t])
             /\ sum' = [v \in Values |-> sum[v] + cnt[t][v]]
        /\ joined' = joined + 1
        /\ UNCHANGED <<src, n, pc, rations, pos, cnt>>
Done == /\ pc = "count" /\ joined = Len(rations)
        /\ pc' = "done"
        /\ UNCHANGED <<src, n, rations, pos, cnt, joined, sum>>

Next == Ration \/ (\E t \in 1..Len(rations) : CountOne(t)) \/ Join \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

---------------------------------------------------------------------------
Partition == pc # "ration" => Cat(rations) = src /\ Len(rations) \in {1, n}
Exact == pc = "done" => \A v \in Values : sum[v] = Len(SelectSeq(src, LAMBDA x : x = v))
Terminates == <>(pc = "done")

(* A vector for the real code                                                *)
Emit == pc = "ration" => PrintT("VEC " \o ToJson([src |-> src, n |-> n]))
=============================================================================
