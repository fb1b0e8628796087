------------------------------ MODULE Sharing ------------------------------
(* Threads that compress at the same time with trees that they share. A      *)
(* thread looks up its tree's codes and then puts the code of one letter     *)
(* after the other into a buffer, all threads' steps falling between one     *)
(* another as they please; at the end the buffer is what it gives. C25.      *)
(*                                                                           *)
(* Where what a thread works with is its own ("own"), or one thread has what *)
(* there is for as long as its call takes ("locked"), each gets what it      *)
(* would get alone. A buffer that all use and that is only held for a step   *)
(* ("steps"), or remembered codes that are looked up by tree in one step and *)
(* taken in another ("memory"), break that: Alone fails.                     *)
EXTENDS HuffBase, Json

CONSTANTS Design, Workers, NL, MaxLen

VARIABLES tree,   \* tree[w]: the worker's tree, the same one or another
          src,    \* src[w]: its letters
          at,     \* "begin", "look", "put", "done"
          k,      \* the next letter
          own,    \* own[w]: its buffer
          codes,  \* codes[w]: the codes it uses
          one,    \* the buffer all use
          mem,    \* <<tree>> whose codes are remembered, and the codes
          held,   \* who has the lock
          out     \* out[w]: what it got
vars == <<tree, src, at, k, own, codes, one, mem, held, out>>

W == 1..Workers
LetterSet == {<<n>> : n \in 1..NL}
(* Two trees of all the letters that differ in every code                    *)
RECURSIVE Comb(_)
Comb(ls) == IF Len(ls) = 1 THEN <<LeafTok(ls[1])>> ELSE <<Joint, LeafTok(ls[1])>> \o Comb(Tail(ls))
Trees == {Comb([n \in 1..NL |-> <<n>>]), Comb([n \in 1..NL |-> <<NL + 1 - n>>])}

Init == /\ tree \in [W -> Trees]
        /\ src \in [W -> UNION {[1..n -> LetterSet] : n \in 1..MaxLen}]
        /\ at = [w \in W |-> "begin"] /\ k = [w \in W |-> 1]
        /\ own = [w \in W |-> <<>>] /\ codes = [w \in W |-> <<>>]
        /\ one = <<>> /\ mem = <<>> /\ held = 0
        /\ out = [w \in W |-> <<>>]

Locks == Design = "locked"
Shared == Design \in {"locked", "steps"}

Begin(w) == /\ at[w] = "begin"
            /\ Locks => held = 0
            /\ held' = IF Locks THEN w ELSE held
            /\ one' = IF Shared THEN <<>> ELSE one
            /\ at' = [at EXCEPT ![w] = "look"]
            \* the tree is the one last used: its codes are there
            /\ mem' = IF Design = "memory" /\ (mem = <<>> \/ mem[1] # tree[w]) THEN <<tree[w], CodeMap(tree[w])>> ELSE mem
            /\ UNCHANGED <<tree, src, k, own, codes, out>>
Look(w) == /\ at[w] = "look"
           /\ codes' = [codes EXCEPT ![w] = IF Design = "memory" THEN mem[2] ELSE CodeMap(tree[w])]
           /\ at' = [at EXCEPT ![w] = "put"]
           /\ UNCHANGED <<tree, src, k, own, one, mem, held, out>>
Put(w) == /\ at[w] = "put" /\ k[w] <= Len(src[w])
          /\ LET c == codes[w][src[w][k[w]]]
             IN IF Shared THEN one' = one \o c /\ own' = own
                ELSE own' = [own EXCEPT ![w] = @ \o c] /\ one' = one
          /\ k' = [k EXCEPT ![w] = @ + 1]
          /\ UNCHANGED <<tree, src, at, codes, mem, held, out>>
End(w) == /\ at[w] = "put" /\ k[w] > Len(src[w])
          /\ out' = [out EXCEPT ![w] = IF Shared THEN one ELSE own[w]]
          /\ held' = IF Locks THEN 0 ELSE held
          /\ at' = [at EXCEPT ![w] = "done"]
          /\ UNCHANGED <<tree, src, k, own, codes, one, mem>>

Next == \E w \in W : Begin(w) \/ Look(w) \/ Put(w) \/ End(w)
Spec == Init /\ [][Next]_vars /\ \A w \in W : SF_vars(Begin(w)) /\ WF_vars(Look(w) \/ Put(w) \/ End(w))

---------------------------------------------------------------------------
Alone == \A w \in W : at[w] = "done" => out[w] = Encode(src[w], CodeMap(tree[w]))
OneHolds == Locks => \A w \in W : at[w] \in {"look", "put"} <=> held = w
Terminates == <>(\A w \in W : at[w] = "done")

(* A vector for the real code: what each thread is to compress, with what    *)
Emit == (\A w \in W : at[w] = "begin") =>
    PrintT("VEC " \o ToJson([w \in W |-> [tree |-> TreeBits(tree[w], 8), src |-> [n \in 1..Len(src[w]) |-> src[w][n][1]]]]))
=============================================================================
