---------------------------- MODULE TraceBranch ----------------------------
(* Judges recorded histories of branches and trees made and changed by hand. *)
(* After every call the record shows all the branches and trees there are;   *)
(* the specification follows the history with the operators of BranchOps,    *)
(* and everything shown must be what it then has, so that a call does what   *)
(* it should where it should and nothing anywhere else. C19.                 *)
EXTENDS BranchOps, Json

CONSTANTS TraceFile, Prop
ASSUME Prop \in {"C19", "C25"}

Cases == ndJsonDeserialize(TraceFile)

VARIABLES c, i,
          regs, \* the branches (a tree is its root) as node sequences
          bad
vars == <<c, i, regs, bad>>

Case == Cases[c]
Fail(ok, msg) == IF ok THEN {} ELSE {msg}

(* A recorded branch: <<joint, letter, weight, has a code, code, has a letter>> *)
NodeOf(b) == Node(b[1] = 1, IF b[6] = 1 THEN <<b[2]>> ELSE <<>>, b[3], IF b[4] = 1 THEN <<b[5]>> ELSE <<>>)
NodesOf(d) == TLCEval([k \in 1..Len(d) |-> NodeOf(d[k])])

(* All branches after the event                                              *)
At(e) == NodeAt(regs[e.r], e.path)
After(e) ==
    CASE e.op = "leaf"  -> Append(regs, Leaf(e.l, e.w))
      [] e.op = "join"  -> Append(regs, Join(e.l, e.w, regs[e.a], regs[e.b]))
      [] e.op \in {"clone", "tree"} -> Append(regs, regs[e.r])
      \* what the library makes of weights is taken as it is
      [] e.op = "weigh" -> Append(regs, NodesOf(e.all[Len(e.all)]))
      [] e.op = "kids"  -> IF At(e) = 0 THEN regs ELSE [regs EXCEPT ![e.r] = SetKids(regs[e.r], At(e), regs[e.a], regs[e.b])]
      [] e.op = "drop"  -> IF At(e) = 0 THEN regs ELSE [regs EXCEPT ![e.r] = DropKids(regs[e.r], At(e))]
      [] e.op = "code"  -> IF At(e) = 0 THEN regs ELSE [regs EXCEPT ![e.r] = SetCode(regs[e.r], At(e), e.code)]
      [] e.op = "below" -> IF At(e) = 0 THEN regs ELSE Append(regs, Below(regs[e.r], At(e)))
      [] OTHER          -> regs

(* Branches and leaves are compared by their weights alone                   *)
Compared(v, w) ==
    LET lt == BLess(v, w)
        gt == BLess(w, v)
        b(x) == IF x THEN 1 ELSE 0
        o == IF lt THEN -1 ELSE IF gt THEN 1 ELSE 0
    IN <<b(~lt /\ ~gt), b(lt \/ gt), b(lt), b(~gt), b(gt), b(~lt), o, o>>

CmpBad(e) ==
    LET want == Compared(regs[e.a][1].w, regs[e.b][1].w)
    IN Fail(e.branches = want, "branches are not compared by weight")
       \cup Fail(e.leaves = want, "leaves are not compared by weight")

(* What a tree with this root is good for                                    *)
UseBad(e) ==
    LET ns == regs[e.r]
        lettered == \A k \in 1..Len(ns) : ns[k].kids <=> ns[k].l = <<>>
        toks == TokensOf(ns)
        ls == LeafSeq(toks)
        codes == TLCEval(CodeMap(toks))
        have == ToSet(ls)
        miss == SelectInSeq(e.letters, LAMBDA l : l \notin have)
        bits == TLCEval(Encode(e.letters, codes))
    IN IF ~lettered THEN {}
       ELSE Fail(e.hasbits # 2 /\ (e.hasbits = 1 => e.bits = TreeBits(toks, 8)), "the binary form is not that of the branches")
            \cup (IF ~(NoDup(ls) /\ Proper(ns)) THEN {}
                  ELSE Fail(e.coded = 1 /\ Len(e.codes) = Len(ls) /\ ToSet(e.codes) = {<<l, codes[l]>> : l \in have},
                            "the codes are not those of the branches")
                       \cup (IF miss # 0
                             THEN Fail(e.comp = "err" /\ e.missing = e.letters[miss], "the first missing letter was not reported")
                             ELSE Fail(e.comp = "ok" /\ e.data = BytesOf(bits, 8) /\ e.pad = PadOf(Len(bits), 8),
                                       "the letters are not compressed with the branches' codes")
                                  \cup Fail(e.comp = "ok" /\ e.back = e.letters, "decompressing does not give the letters back")))

On(e, after) ==
    Fail(e.odds = 0, "the views of a branch's children disagree")
    \cup Fail(Len(e.all) = Len(after) /\ \A r \in 1..Len(e.all) : NodesOf(e.all[r]) = after[r], "a branch is not what was made of it")
    \cup (IF e.op \in {"kids", "drop", "code", "below"} THEN Fail((e.hit = 1) <=> At(e) # 0, "a child is missing or made up") ELSE {})
    \cup (IF e.op = "cmp" THEN CmpBad(e) ELSE {})
    \cup (IF e.op = "use" THEN UseBad(e) ELSE {})

---------------------------------------------------------------------------
Init == /\ c \in 1..Len(Cases)
        /\ i = 1
        /\ regs = <<>>
        /\ bad = {}

Event == /\ bad = {}
         /\ i <= Len(Case.ev)
         /\ LET e == Case.ev[i]
                fine == e.op # "died" /\ e.res = "ok"
                after == TLCEval(IF fine THEN After(e) ELSE regs)
                b == TLCEval(IF e.op = "died" THEN {"the process died or hung"}
                             ELSE IF ~fine THEN {"a call panicked"} ELSE On(e, after))
            IN /\ regs' = after
               /\ bad' = b
               /\ (b # {} => PrintT("FAIL " \o ToJson([id |-> Case.id, ev |-> i, why |-> SetToSeq(b)])))
         /\ i' = i + 1
         /\ UNCHANGED c
Next == Event
Spec == Init /\ [][Next]_vars
Holds == bad = {}

(* What is shown of a behaviour that breaks it                               *)
Short == [session |-> c, event |-> i, bad |-> bad]
=============================================================================
