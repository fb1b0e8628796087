------------------------------ MODULE TraceLib ------------------------------
(* Judges recorded sessions with the library. A session builds trees, writes *)
(* and reads their binary form, compresses, serialises, reads back and       *)
(* decompresses; every object a call yields goes into the next register.     *)
(* Every call is one event, recorded when it returned, with its arguments    *)
(* and the full projection of its result. The specification replays the      *)
(* calls over abstract objects and says at each event in which way, if any,  *)
(* the recorded result is not one property Prop allows.                      *)
(*                                                                           *)
(* Choices the library is free to make (which of the optimal trees it        *)
(* builds) are taken from the record and checked to be legal; everything     *)
(* that is determined is computed here.                                      *)
EXTENDS HuffBase, Json

CONSTANTS TraceFile, \* one JSON session per line
          Prop       \* the property judged

Cases == ndJsonDeserialize(TraceFile)

VARIABLES c,    \* the session
          i,    \* its next event
          regs, \* the abstract objects so far
          bad   \* how the last event breaks Prop
vars == <<c, i, regs, bad>>

---------------------------------------------------------------------------
(* C25: threads that work at the same time get what each would get alone, so *)
(* that what the other properties say of a session holds of each thread's    *)
Judged(ps) == Prop = "C25" \/ Prop \in ps
Fail(p, ok, msg) == IF Judged({p}) /\ ~ok THEN {msg} ELSE {}

Case == Cases[c]
ValidLetter(l) == IF Case.ty = "fal" THEN l[1] < 240 ELSE TRUE

(* A recorded branch: <<joint, letter, weight, has a code, code, has a letter>> *)
TokOf(b) == IF b[1] = 1 THEN Joint ELSE LeafTok(b[2])
ToksOf(e) == TLCEval([k \in 1..Len(e.tree) |-> TokOf(e.tree[k])])
WeightsOf(e) == TLCEval([k \in 1..Len(e.tree) |-> e.tree[k][3]])

(* Every branch carries its path as its code (the root of a larger tree,     *)
(* whose path is empty, need not carry one)                                  *)
BranchCodesOk(e, toks) ==
    LET ps == TLCEval(IF Len(toks) = 1 THEN << <<0>> >> ELSE Paths(toks))
    IN \A k \in 1..Len(toks) :
          \/ e.tree[k][4] = 1 /\ e.tree[k][5] = ps[k]
          \/ k = 1 /\ Len(toks) > 1 /\ e.tree[k][4] = 0
(* The code list is exactly the letter branches' paths                       *)
CodesOk(e, toks) ==
    LET ls == LeafSeq(toks)
        cs == LeafCodes(toks)
    IN /\ Len(e.codes) = Len(ls)
       /\ ToSet(e.codes) = {<<ls[k], cs[k]>> : k \in 1..Len(ls)}
SoundTree(e) == /\ e.odd = 0 /\ Len(e.tree) > 0
                /\ \A k \in 1..Len(e.tree) : e.tree[k][6] # e.tree[k][1]
                /\ IsTree(ToksOf(e))

(* Joint branches weigh what their children weigh, letters what they should  *)
WeightsAdd(e, toks, pairs) ==
    LET ws == WeightsOf(e)
        n == Len(toks)
        Step(acc, k) ==
            LET x == n + 1 - k IN
            IF IsJoint(toks[x])
            THEN LET m == Len(acc.st)
                     s == BAdd(acc.st[m], acc.st[m - 1])
                 IN [st |-> Append(SubSeq(acc.st, 1, m - 2), ws[x]), ok |-> acc.ok /\ s = ws[x]]
            ELSE [st |-> Append(acc.st, ws[x]), ok |-> acc.ok]
    IN /\ {<<LetterOf(toks[k]), ws[k]>> : k \in {x \in 1..n : ~IsJoint(toks[x])}} = {<<pairs[k][1], pairs[k][2]>> : k \in 1..Len(pairs)}
       /\ FoldLeft(Step, [st |-> <<>>, ok |-> TRUE], Iota(n)).ok

(* What the codes recorded for the weighted letters cost                     *)
OptimalCodes(e, toks, pairs) ==
    IF Len(pairs) > 3000 /\ CodesOk(e, toks)
    THEN \* with the codes in the order of the letters and their weights on them
         LET ix == TLCEval(SelectSeq(Iota(Len(toks)), LAMBDA k : ~IsJoint(toks[k])))
             ws == TLCEval([k \in 1..Len(ix) |-> e.tree[ix[k]][3]])
         IN CodeCost(ws, LeafCodes(toks)) = HuffCost([k \in 1..Len(pairs) |-> pairs[k][2]])
    ELSE
    LET n == Len(pairs)
        cl == TLCEval([k \in 1..Len(e.codes) |-> e.codes[k][1]])
        at == TLCEval([k \in 1..n |-> SelectInSeq(cl, LAMBDA x : x = pairs[k][1])])
    IN /\ \A k \in 1..n : at[k] # 0
       /\ n > 1 =>
            CodeCost([k \in 1..n |-> pairs[k][2]], [k \in 1..n |-> e.codes[at[k]][2]])
               = HuffCost([k \in 1..n |-> pairs[k][2]])

(* The letters of a sequence with the number of times each occurs            *)
Count(letters) ==
    LET ls == SetToSeq(ToSet(letters))
    IN [k \in 1..Len(ls) |->
          <<ls[k], BigOf(Len(SelectSeq(letters, LAMBDA x : x = ls[k])))>>]

(* A tree built from pairs of letters and weights                            *)
BuildBad(e, pairs) ==
    LET toks == ToksOf(e)
        letters == {pairs[k][1] : k \in 1..Len(pairs)}
    IN IF e.res # "ok" THEN Fail("C02", FALSE, "building a tree panicked")
                            \cup Fail("C03", FALSE, "building a tree panicked")
       ELSE IF ~SoundTree(e) THEN Fail("C02", FALSE, "the branches do not form a tree")
                            \cup Fail("C03", FALSE, "the branches do not form a tree")
       ELSE LET ls == LeafSeq(toks)
                exact == Len(ls) = Len(pairs) /\ ToSet(ls) = letters
            IN UNION {
                Fail("C02", exact, "the letter branches are not the weighted letters"),
                Fail("C02", BranchCodesOk(e, toks), "a branch's code is not its path"),
                Fail("C02", CodesOk(e, toks), "the reported codes are not the letter branches' paths"),
                Fail("C03", exact /\ WeightsAdd(e, toks, pairs), "branch weights do not add up"),
                Fail("C03", OptimalCodes(e, toks, pairs), "the codes are not optimal") }

(* Compressed data: exactly the codes, packed, with minimal padding          *)
PackedOk(e, toks, letters) ==
    LET bits == TLCEval(Encode(letters, CodeMap(toks)))
    IN e.data = BytesOf(bits, 8) /\ e.pad = PadOf(Len(bits), 8)

---------------------------------------------------------------------------
(* Each operator gives <<ways the event breaks Prop, object it yields>>;     *)
(* no object (<<>>) ends the session                                         *)
Tree(toks) == <<[k |-> "tree", toks |-> toks]>>
Bits(bits, from) == <<[k |-> "bits", bits |-> bits, from |-> from]>>
Comp(toks, data, pad, letters) ==
    <<[k |-> "comp", toks |-> toks, data |-> data, pad |-> pad, letters |-> letters, read |-> FALSE]>>
Bytes(b, from) == <<[k |-> "bytes", bytes |-> b, from |-> from]>>

ResultTree(e) == IF e.res = "ok" /\ SoundTree(e) THEN Tree(ToksOf(e)) ELSE <<>>

OnBuild(e)  == <<BuildBad(e, e.w), ResultTree(e)>>
OnBuildL(e) == <<BuildBad(e, TLCEval(Count(e.letters))), ResultTree(e)>>

OnAsBin(e) ==
    LET toks == regs[e.s].toks
    IN <<Fail("C04", e.res = "ok" /\ e.bits = TreeBits(toks, 8), "the binary form is not the documented one"),
         IF e.res = "ok" THEN Bits(e.bits, toks) ELSE <<>> >>

OnBits(e) == <<{}, Bits(e.bits, <<>>)>>

OnFromBin(e) ==
    LET src == regs[e.s]
        toks == ToksOf(e)
        p == ParseTree(src.bits, Case.sz, 8, ValidLetter)
        same(want) == e.res = "ok" /\ SoundTree(e) /\ toks = want
        c5 == IF e.res \notin {"ok", "err"} THEN "reading a tree panicked"
              ELSE IF p.res # "ok" THEN (IF e.res = "ok" THEN "bits that are no encoding were accepted" ELSE "")
              ELSE IF e.res = "ok" THEN (IF same(p.toks) THEN "" ELSE "the tree read is not the encoded one")
              ELSE IF DeeperThan(p.toks, 255) THEN "" ELSE "an encoding was refused"
        c4 == IF ~same(src.from) THEN "the tree read back is not the one written"
              ELSE IF ~(BranchCodesOk(e, toks) /\ CodesOk(e, toks)) THEN "the tree read back has other codes"
              ELSE IF \E k \in 1..Len(e.tree) : e.tree[k][3] # BZero THEN "the tree read back has weights"
              ELSE ""
    IN <<IF Judged({"C05"}) /\ c5 # "" THEN {c5}
         ELSE IF Judged({"C04"}) /\ src.from # <<>> /\ c4 # "" THEN {c4} ELSE {},
         ResultTree(e)>>

CompClauses(e, toks, letters) ==
    Fail("C06", PackedOk(e, toks, letters), "the compressed bytes are not the letters' codes packed")
OnComp(e) ==
    LET toks == ToksOf(e)
        sound == e.res = "ok" /\ SoundTree(e)
        covers == Within(ToSet(e.letters), ToSet(LeafSeq(toks)))
    IN <<Fail("C01", e.res = "ok", "compressing panicked")
         \cup Fail("C06", sound /\ covers, "compressing did not give a tree with the letters")
         \cup (IF sound /\ covers THEN CompClauses(e, toks, e.letters) ELSE {})
         \cup (IF Judged({"C02", "C03"}) THEN BuildBad(e, TLCEval(Count(e.letters))) ELSE {}),
         IF e.res = "ok" THEN Comp(toks, e.data, e.pad, e.letters) ELSE <<>> >>

OnCompT(e) ==
    LET have == ToSet(LeafSeq(regs[e.s].toks))
        miss == SelectInSeq(e.letters, LAMBDA l : l \notin have)
        toks == ToksOf(e)
    IN <<IF miss # 0
         THEN Fail("C10", e.res # "panic", "compressing with a tree lacking a letter panicked")
              \cup Fail("C10", e.res # "ok", "a letter missing from the tree was not reported")
              \cup Fail("C10", e.res = "err" => e.missing = e.letters[miss],
                        "the letter reported missing is not the first missing one")
         ELSE Fail("C10", e.res # "panic", "compressing with a covering tree panicked")
              \cup Fail("C10", e.res # "err", "compressing with a covering tree failed")
              \cup Fail("C01", e.res = "ok", "compressing with a covering tree failed")
              \cup Fail("C06", e.res = "ok", "compressing with a covering tree failed")
              \cup (IF e.res = "ok"
                    THEN Fail("C06", SoundTree(e) /\ toks = regs[e.s].toks, "compressed data holds another tree")
                         \cup CompClauses(e, regs[e.s].toks, e.letters)
                    ELSE {}),
         IF e.res = "ok" THEN Comp(regs[e.s].toks, e.data, e.pad, e.letters) ELSE <<>> >>

OnToBytes(e) ==
    LET x == regs[e.s]
    IN <<Fail("C06", e.res = "ok" /\ e.bytes = Container(x.toks, x.data, x.pad), "the bytes do not have the documented layout"),
         IF e.res = "ok" THEN Bytes(e.bytes, <<x>>) ELSE <<>> >>

OnBytes(e) == <<{}, Bytes(e.bytes, <<>>)>>

OnFromBytes(e) ==
    LET src == regs[e.s]
        toks == ToksOf(e)
        p == ParseContainer(src.bytes, Case.sz, ValidLetter)
        same(x) == e.res = "ok" /\ SoundTree(e) /\ toks = x.toks /\ e.data = x.data /\ e.pad = x.pad
        c7 == IF e.res \notin {"ok", "err"} THEN "reading compressed data panicked"
              ELSE IF p.res = "either" THEN ""
              ELSE IF p.res # "ok"
              THEN (IF e.res = "ok" THEN "malformed bytes were accepted: " \o p.res ELSE "")
              ELSE IF e.res = "ok"
              THEN (IF same(p) THEN "" ELSE "the compressed data read is not the stored one")
              ELSE IF DeeperThan(p.toks, 255) THEN "" ELSE "well-formed bytes were refused"
    IN <<IF Judged({"C07"}) /\ c7 # "" THEN {c7}
         ELSE IF src.from # <<>> THEN Fail("C06", same(src.from[1]), "compressed data read back is not what was written")
         ELSE {},
         IF e.res # "ok" THEN <<>>
         ELSE IF src.from # <<>> THEN <<[src.from[1] EXCEPT !.read = TRUE]>>
         ELSE <<[k |-> "comp", toks |-> toks, data |-> e.data, pad |-> e.pad, letters |-> <<>>, read |-> TRUE]>> >>

OnDecomp(e) ==
    LET x == regs[e.s]
        known == x.letters # <<>>
        bits == TLCEval(SubSeq(BitsOf(x.data, 8), 1, 8 * Len(x.data) - x.pad))
    IN <<Fail("C07", e.res = "ok", "decompressing what was read panicked")
         \cup (IF Judged({"C20"}) /\ Whole(x.toks, bits)
               THEN Fail("C20", e.res = "ok" /\ e.letters = Decode(x.toks, bits), "decompressing does not give the letters the bits stand for")
               ELSE {})
         \cup (IF known /\ ~x.read THEN Fail("C01", e.res = "ok" /\ e.letters = x.letters, "decompressing does not give the letters back") ELSE {})
         \cup (IF known /\ x.read THEN Fail("C06", e.res = "ok" /\ e.letters = x.letters, "reading back and decompressing does not give the letters") ELSE {}),
         <<[k |-> "letters"]>> >>

(* Compressed data put together by hand                                      *)
OnMkComp(e) ==
    LET toks == regs[e.s].toks
        fine == e.bytes # <<>> /\ e.want <= 7
    IN <<Fail("C20", (e.res = "ok") <=> fine, "compressed data was refused or accepted wrongly")
         \cup Fail("C20", fine => /\ e.res = "ok" /\ SoundTree(e) /\ ToksOf(e) = toks
                                 /\ e.data = e.bytes /\ e.pad = e.want, "compressed data is not what it was made of"),
         IF e.res = "ok" THEN <<[k |-> "comp", toks |-> toks, data |-> e.bytes, pad |-> e.want, letters |-> <<>>, read |-> FALSE]>> ELSE <<>> >>

(* Letters and their bytes                                                   *)
OnLBytes(e) ==
    <<Fail("C21", e.res = "ok" /\ e.bytes = NumberBytes(e.v, 10, Case.sz, 256), "the bytes are not the number in big-endian"),
      <<[k |-> "letters"]>> >>
OnLFrom(e) ==
    <<IF Len(e.bytes) = Case.sz
      THEN Fail("C21", e.res = "ok" /\ NumberBytes(e.v, 10, Case.sz, 256) = e.bytes
                       /\ (e.v[1] = 1 <=> (Case.ty \in {"i8", "i16", "i32", "i64", "i128", "isize"} /\ e.bytes[1] >= 128)), "the number is not the one the bytes stand for")
      ELSE Fail("C21", e.res = "err", "bytes of another number were not refused"),
      <<[k |-> "letters"]>> >>

(* A long sequence of letters compressed, with its own tree (s = 0) or with   *)
(* one made before. Of the sequence the record holds how often each letter   *)
(* occurs (w), where it occurs first (first), and four windows: short runs   *)
(* of letters with the census of all letters before them and the bytes that  *)
(* stand from the place on where their codes have to begin.                  *)
TotalBits(w, codes) == CodeCost([k \in 1..Len(w) |-> w[k][2]], [k \in 1..Len(w) |-> codes[w[k][1]]])
WindowOk(x, codes) ==
    LET at == TotalBits(x.pre, codes)
        bits == TLCEval(BitsOf(x.bytes, 8))
        want == TLCEval(Encode(x.ls, codes))
        skip == at[1] % 8
    IN /\ at = BAdd(BMul(BigOf(x.off), 8), BigOf(skip))
       /\ Len(bits) >= skip + Len(want)
       /\ SubSeq(bits, skip + 1, skip + Len(want)) = want
BigCovered(e, toks) ==
    LET codes == TLCEval(CodeMap(toks))
        bits == TotalBits(e.w, codes)
        pad == PadOf(bits[1] % 8, 8)
    IN UNION {
        Fail("C01", e.back = -1, "decompressing does not give the letters back"),
        Fail("C06", e.pad = pad /\ BAdd(bits, BigOf(pad)) = BMul(BigOf(e.dlen), 8), "the compressed bytes are not as many as the codes fill"),
        Fail("C06", \A k \in 1..Len(e.wins) : WindowOk(e.wins[k], codes), "the compressed bytes are not the letters' codes packed"),
        Fail("C06", e.cont = 0 \/ (e.cont = 1 /\ e.tail = 1 /\ e.prefix = Container(toks, <<>>, e.pad)), "the bytes do not have the documented layout"),
        Fail("C06", e.cont = 0 \/ e.again = -1, "reading back and decompressing does not give the letters") }
OnBig(e) ==
    LET own == e.s = 0
        toks == TLCEval(IF own THEN ToksOf(e) ELSE regs[e.s].toks)
        have == IF own THEN {} ELSE ToSet(LeafSeq(toks))
        miss == {k \in 1..Len(e.w) : e.w[k][1] \notin have}
        fst == CHOOSE k \in miss : \A m \in miss : e.first[k] <= e.first[m]
        sound == e.res = "ok" /\ SoundTree(e)
    IN <<IF ~own /\ miss # {}
         THEN Fail("C10", e.res = "err" /\ e.missing = e.w[fst][1], "the first missing letter was not reported")
         ELSE Fail("C10", own \/ e.res = "ok", "compressing with a covering tree failed")
              \cup Fail("C01", e.res = "ok", "compressing failed")
              \cup Fail("C06", sound /\ Within({e.w[k][1] : k \in 1..Len(e.w)}, ToSet(LeafSeq(ToksOf(e)))), "compressing did not give a tree with the letters")
              \cup Fail("C06", own \/ (sound /\ ToksOf(e) = toks), "compressed data holds another tree")
              \cup (IF own /\ Judged({"C02", "C03"}) THEN BuildBad(e, e.w) ELSE {})
              \cup (IF sound /\ Judged({"C01", "C06"}) /\ Within({e.w[k][1] : k \in 1..Len(e.w)}, ToSet(LeafSeq(ToksOf(e))))
                    THEN BigCovered(e, ToksOf(e)) ELSE {}),
         \* nothing is done with it afterwards but to take its tree
         IF e.res = "ok" /\ SoundTree(e) THEN Tree(ToksOf(e)) ELSE <<>> >>

On(e) ==
    CASE e.op = "big" -> OnBig(e)
      [] e.op = "build"     -> OnBuild(e)
      [] e.op = "buildl"    -> OnBuildL(e)
      [] e.op = "asbin"     -> OnAsBin(e)
      [] e.op = "bits"      -> OnBits(e)
      [] e.op = "frombin"   -> OnFromBin(e)
      [] e.op = "comp"      -> OnComp(e)
      [] e.op = "compt"     -> OnCompT(e)
      [] e.op = "tobytes"   -> OnToBytes(e)
      [] e.op = "bytes"     -> OnBytes(e)
      [] e.op = "frombytes" -> OnFromBytes(e)
      [] e.op = "decomp"    -> OnDecomp(e)
      [] e.op = "mkcomp"    -> OnMkComp(e)
      [] e.op = "lbytes"    -> OnLBytes(e)
      [] e.op = "lfrom"     -> OnLFrom(e)
      [] e.op = "died"      -> <<{"the process died or hung"}, <<>> >>

---------------------------------------------------------------------------
Init == /\ c \in 1..Len(Cases)
        /\ i = 1
        /\ regs = <<>>
        /\ bad = {}

Event == /\ bad = {}
         /\ i <= Len(Case.ev)
         /\ LET r == On(Case.ev[i])
            IN /\ bad' = r[1]
               /\ regs' = regs \o r[2]
               /\ i' = IF r[2] = <<>> THEN Len(Case.ev) + 1 ELSE i + 1
               /\ (r[1] # {} => PrintT("FAIL " \o ToJson([id |-> Case.id, ev |-> i, why |-> SetToSeq(r[1])])))
         /\ UNCHANGED c

Next == Event
Spec == Init /\ [][Next]_vars

(* The property: no session ever shows a result it does not allow            *)
Holds == bad = {}

(* What is shown of a behaviour that breaks it                               *)
Short == [session |-> c, event |-> i, bad |-> bad]
=============================================================================
