---------------------------- MODULE TraceWeights ----------------------------
(* Judges recorded histories of byte count collections and of counting. Each *)
(* event is one call with its arguments and, for a call that changes or      *)
(* makes a collection, every view of the collection afterwards: both kinds   *)
(* of lookup for all 256 bytes, length, emptiness, the three iterators, and  *)
(* the same through the Weights trait. The specification keeps, for every    *)
(* collection, only the number each byte must have; all views must be that   *)
(* mapping.                                                                  *)
EXTENDS HuffBase, Json

CONSTANTS TraceFile, Prop

Cases == ndJsonDeserialize(TraceFile)

VARIABLES c, i,
          w,   \* w[r][b]: the count of byte b in collection r, a big number
          bad
vars == <<c, i, w, bad>>

Case == Cases[c]
Fail(p, ok, msg) == IF (Prop \in p \/ Prop = "C25") /\ ~ok THEN {msg} ELSE {}
B == 0..255

(* Every byte with a count, in increasing order                              *)
Entries(f) == LET bs == SelectSeq([k \in 1..256 |-> k - 1], LAMBDA b : f[b] # BZero)
              IN [k \in 1..Len(bs) |-> <<bs[k], f[bs[k]]>>]
Counted(bytes) ==
    FoldLeft(LAMBDA f, b : [f EXCEPT ![b] = @ + 1], TLCEval([b \in B |-> 0]), bytes)
From(bytes) == LET n == TLCEval(Counted(bytes)) IN TLCEval([b \in B |-> BigOf(n[b])])
Sum(f, g) == TLCEval([b \in B |-> IF g[b] = BZero THEN f[b] ELSE BAdd(f[b], g[b])])
Zero == TLCEval([b \in B |-> BZero])

ViewBad(p, v, f) ==
    LET es == TLCEval(Entries(f))
        n == Len(es)
    IN UNION {
        Fail(p, v.gets = es, "get disagrees with the counts"),
        Fail(p, v.mgets = es, "get_mut disagrees with the counts"),
        Fail(p, v.tgets = es, "Weights::get disagrees with the counts"),
        Fail(p, v.iter = es, "iter disagrees with the counts"),
        Fail(p, v.refiter = es, "the iterator of a reference disagrees with the counts"),
        Fail(p, v.intoiter = es, "into_iter disagrees with the counts"),
        Fail(p, v.evens = [k \in 1..3 |-> [j \in 1..((n + 1) \div 2) |-> es[2 * j - 1]]], "an iterator skips wrongly"),
        Fail(p, v.counts = [k \in 1..3 |-> <<n, n, IF n = 0 THEN -1 ELSE es[n][1]>>],
             "an iterator counts, ends or hints wrongly"),
        Fail(p, v.fused, "an iterator goes on after its end"),
        Fail(p, v.len = n, "len disagrees with the counts"),
        Fail(p, v.tlen = n, "Weights::len disagrees with the counts"),
        Fail(p, v.empty = (n = 0), "is_empty disagrees with the counts"),
        Fail(p, v.tempty = (n = 0), "Weights::is_empty disagrees with the counts") }

(* What the collection written by an event has to hold                       *)
Want(e) ==
    CASE e.op \in {"new", "default"}       -> Zero
      [] e.op \in {"from", "threaded"}     -> From(e.bytes)
      [] e.op \in {"bigfrom", "bigthreaded"} -> TLCEval([b \in B |->
            LET k == SelectInSeq(e.bytes, LAMBDA p : p[1] = b) IN IF k = 0 THEN BZero ELSE e.bytes[k][2]])
      [] e.op = "add"                      -> Sum(w[e.a], w[e.b])
      [] e.op \in {"addassign", "addref"}  -> Sum(w[e.d], w[e.b])
      [] e.op = "copy"                     -> w[e.a]
      [] e.op \in {"set", "tset"}          -> IF w[e.d][e.byte] = BZero THEN w[e.d]
                                              ELSE [w[e.d] EXCEPT ![e.byte] = e.w]
Judges(e) == IF e.op \in {"threaded", "bigthreaded"} THEN {"C08", "C09"} ELSE {"C08"}

(* The letters with the number of times each occurs                          *)
CountOf(letters) == {<<l, BigOf(Len(SelectSeq(letters, LAMBDA x : x = l)))>> : l \in ToSet(letters)}

OnWrite(e) ==
    LET f == Want(e)
    IN [bad |-> IF e.res # "ok" THEN Fail(Judges(e), FALSE, e.op \o " panicked")
                ELSE (IF e.op \in {"set", "tset"}
                      THEN Fail({"C08"}, (e.hit = 1) <=> (w[e.d][e.byte] # BZero), "get_mut gives a reference to something else than a present byte")
                      ELSE {})
                     \cup ViewBad(Judges(e), e.view, f),
        w |-> [r \in DOMAIN w \cup {e.d} |-> IF r = e.d THEN f ELSE w[r]]]
OnEq(e) ==
    [bad |-> Fail({"C08"}, e.res = "ok" /\ (e.eq <=> w[e.a] = w[e.b]) /\ (e.ne <=> w[e.a] # w[e.b]), "equality disagrees with the counts"),
     w |-> w]
OnCount(e) ==
    [bad |-> Fail({"C08"}, e.res = "ok" /\ ToSet(e.map) = CountOf(e.letters) /\ Len(e.map) = Cardinality(ToSet(e.letters)),
                  "counting letters is not exact"),
     w |-> w]
(* A long sequence, of which only how often each letter occurs is recorded   *)
OnBigCount(e) ==
    [bad |-> Fail({"C08"}, e.res = "ok" /\ ToSet(e.map) = ToSet(e.w) /\ Len(e.map) = Len(e.w), "counting letters is not exact"),
     w |-> w]
On(e) == CASE e.op = "bigcount" -> OnBigCount(e)
           [] e.op = "eq"    -> OnEq(e)
           [] e.op = "count" -> OnCount(e)
           [] e.op = "died"  -> [bad |-> {"the process died or hung"}, w |-> w]
           [] OTHER          -> OnWrite(e)

---------------------------------------------------------------------------
Init == /\ c \in 1..Len(Cases)
        /\ i = 1
        /\ w = <<>>
        /\ bad = {}

Event == /\ bad = {}
         /\ i <= Len(Case.ev)
         /\ LET r == TLCEval(On(Case.ev[i]))
            IN /\ bad' = r.bad
               /\ w' = r.w
               /\ (r.bad # {} => PrintT("FAIL " \o ToJson([id |-> Case.id, ev |-> i, why |-> SetToSeq(r.bad)])))
         /\ i' = i + 1
         /\ UNCHANGED c
Next == Event
Spec == Init /\ [][Next]_vars
Holds == bad = {}

(* What is shown of a behaviour that breaks it                               *)
Short == [session |-> c, event |-> i, bad |-> bad]
=============================================================================
