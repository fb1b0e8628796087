----------------------------- MODULE ByteCounts -----------------------------
(* Byte count collections: an array of counts indexed by byte, of which a    *)
(* zero means that the byte is absent, and iterators that are an index into  *)
(* it. Registers hold collections; histories of counting, adding and         *)
(* updating in place act on them. C08.                                       *)
EXTENDS HuffBase, Json

CONSTANTS Bytes,    \* how many bytes there are: 0..Bytes-1
          Regs,     \* how many collections
          MaxOps,   \* length of histories
          Counted,  \* the longest slice counted in one operation
          MaxCount  \* updates write 0..MaxCount

VARIABLES w,    \* w[r][b]: count of byte b in collection r
          hist, \* the operations so far
          it    \* an iterator: [r |-> collection, ix |-> index, got |-> yielded]
vars == <<w, hist, it>>

B == 0..(Bytes - 1)
Slices == UNION {[1..n -> B] : n \in 0..Counted}
Nth(s, b) == Len(SelectSeq(s, LAMBDA x : x = b))
None == [r |-> 0, ix |-> 0, got |-> <<>>]

Init == w = [r \in 1..Regs |-> [b \in B |-> 0]] /\ hist = <<>> /\ it = None

Put(r, f, op) == /\ Len(hist) < MaxOps
                 /\ w' = [w EXCEPT ![r] = f]
                 /\ hist' = Append(hist, op)
                 /\ it' = None
From(r, s) == Put(r, [b \in B |-> Nth(s, b)], <<"from", r, s>>)
Add(r, x, y) == Put(r, [b \in B |-> w[x][b] + w[y][b]], <<"add", r, x, y>>)
(* An update in place goes through a reference that only a present byte has  *)
Set(r, b, v) == Put(r, IF w[r][b] = 0 THEN w[r] ELSE [w[r] EXCEPT ![b] = v], <<"set", r, b, v>>)

Start(r) == it = None /\ it' = [r |-> r, ix |-> 0, got |-> <<>>] /\ UNCHANGED <<w, hist>>
(* One call of next: skip what is absent, yield what is present              *)
Step == /\ it.r # 0 /\ it.ix < Bytes
        /\ it' = IF w[it.r][it.ix] = 0 THEN [it EXCEPT !.ix = @ + 1]
                 ELSE [it EXCEPT !.ix = @ + 1, !.got = Append(@, <<it.ix, w[it.r][it.ix]>>)]
        /\ UNCHANGED <<w, hist>>

Next == \/ \E r \in 1..Regs :
              \/ \E s \in Slices : From(r, s)
              \/ \E x, y \in 1..Regs : Add(r, x, y)
              \/ \E b \in B, v \in 0..MaxCount : Set(r, b, v)
              \/ Start(r)
        \/ Step
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Present(r) == {b \in B : w[r][b] # 0}
Length(r) == Cardinality(Present(r))
(* What an iterator that is done yielded: every present byte once, in order  *)
Yields == (it.r # 0 /\ it.ix = Bytes) =>
    /\ Len(it.got) = Length(it.r)
    /\ \A k \in 1..Len(it.got) : it.got[k][2] = w[it.r][it.got[k][1]] /\ it.got[k][1] \in Present(it.r)
    /\ \A x, y \in 1..Len(it.got) : x < y => it.got[x][1] < it.got[y][1]
(* The view a trace is compared with is the one the iterator has             *)
Entries(f) == LET P == {b \in B : f[b] # 0}
              IN SetToSortSeq({<<b, f[b]>> : b \in P}, LAMBDA x, y : x[1] < y[1])
EntriesAgree == (it.r # 0 /\ it.ix = Bytes) => it.got = Entries(w[it.r])
Emit == (it = None /\ Len(hist) = MaxOps) => PrintT("VEC " \o ToJson(hist))
=============================================================================
