-------------------------------- MODULE Huff --------------------------------
(* The command-line program as a state machine over a small file system: the *)
(* source, the destination, and the steps between reading the arguments and  *)
(* exiting. The environment decides what the arguments lead to, answers the  *)
(* question, makes any input or output operation fail, and may kill the      *)
(* program between any two steps. C13-C18 are invariants of every state.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Chunks,    \* reads, and writes, a run takes at most
          MaxFaults  \* operations that fail

VARIABLES env,   \* what the arguments lead to, fixed at the start
          src,   \* "orig", "gone", "ruined"
          dst,   \* "none", "old", "partial", "complete"; the source itself is neither
          pc, todo,        \* where the program is, chunks still to transfer
          asked, consent,  \* the question, and the answer being yes
          faults, exit     \* operations that failed; "run", "ok", "fail", "killed"
vars == <<env, src, dst, pc, todo, asked, consent, faults, exit>>

Sources == {"good", "missing", "dir", "empty", "badext", "badheader", "nodata"}
Dests   == {"none", "old", "same", "dir"}

(* A source that cannot be used in the mode                                  *)
Unusable(e) == \/ e.srcKind \in {"missing", "dir"}
               \/ ~e.decomp /\ e.srcKind = "empty"
               \/ e.decomp /\ e.srcKind \in {"empty", "badext", "badheader", "nodata"}
Usable(e) == ~Unusable(e)

Init == /\ env \in [decomp : BOOLEAN, noask : BOOLEAN, replace : BOOLEAN, sizeOk : BOOLEAN,
                    srcKind : Sources, dstKind : Dests, answer : {"yes", "no", "none"}]
        /\ env.decomp \/ env.srcKind \notin {"badext", "badheader", "nodata"}
        /\ src = IF env.srcKind = "missing" THEN "gone" ELSE "orig"
        /\ env.dstKind = "same" => env.srcKind # "missing"
        /\ dst = IF env.dstKind = "old" THEN "old" ELSE "none"
        /\ pc = "args" /\ todo = 0 /\ asked = FALSE /\ consent = FALSE
        /\ faults = 0 /\ exit = "run"

Running == exit = "run"
Exit(how) == exit' = how /\ pc' = "exit"
Goto(p) == pc' = p /\ exit' = exit
Keep == UNCHANGED <<env, src, dst, todo, asked, consent, faults>>
At(p) == Running /\ pc = p

(* The block size, the kinds of the paths, and the two being the same file   *)
Args == At("args") /\ (IF env.sizeOk THEN Goto("check") ELSE Exit("fail")) /\ Keep
Check == /\ At("check")
         /\ IF \/ env.srcKind \in {"dir", "badext"}
               \/ env.dstKind = "same"
               \/ env.decomp /\ env.dstKind = "dir"
            THEN Exit("fail") ELSE Goto("ask")
         /\ Keep

Exists == env.dstKind \in {"old", "dir"}
Ask == /\ At("ask")
       /\ IF Exists /\ ~env.noask
          THEN /\ asked' = TRUE
               /\ IF env.answer = "yes" THEN consent' = TRUE /\ Goto("open")
                  ELSE consent' = FALSE /\ Exit("ok")
          ELSE Goto("open") /\ UNCHANGED <<asked, consent>>
       /\ UNCHANGED <<env, src, dst, todo, faults>>

(* A fault of any operation ends the run with failure                        *)
Fault == /\ Running /\ pc \in {"open", "header", "create", "read", "write", "flush", "patch", "remove"}
         /\ faults < MaxFaults
         /\ faults' = faults + 1
         /\ Exit("fail")
         /\ UNCHANGED <<env, src, dst, todo, asked, consent>>

Open == /\ At("open")
        /\ IF env.srcKind = "missing" \/ (env.srcKind = "empty" /\ ~env.decomp) THEN Exit("fail")
           ELSE Goto(IF env.decomp THEN "header" ELSE "create")
        /\ Keep
(* Decompressing reads and checks the whole header first                     *)
Header == /\ At("header")
          /\ (IF env.srcKind \in {"empty", "badheader", "nodata"} THEN Exit("fail") ELSE Goto("create"))
          /\ Keep
Create == /\ At("create")
          /\ IF env.dstKind = "dir" THEN Exit("fail") /\ Keep
             ELSE /\ dst' = "partial"
                  /\ Goto("read")
                  /\ todo' \in 1..Chunks
                  /\ UNCHANGED <<env, src, asked, consent, faults>>
(* Compressing reads the source twice; the second time is modelled           *)
Read == At("read") /\ Goto("write") /\ Keep
Write == /\ At("write")
         /\ todo' = todo - 1
         /\ Goto(IF todo > 1 THEN "read" ELSE IF env.decomp THEN "flush" ELSE "patch")
         /\ UNCHANGED <<env, src, dst, asked, consent, faults>>
(* The padding byte is written last                                          *)
Patch == At("patch") /\ Goto("flush") /\ Keep
Flush == /\ At("flush")
         /\ dst' = "complete"
         /\ (IF env.replace THEN Goto("remove") ELSE Exit("ok"))
         /\ UNCHANGED <<env, src, todo, asked, consent, faults>>
Remove == /\ At("remove")
          /\ src' = "gone"
          /\ Exit("ok")
          /\ UNCHANGED <<env, dst, todo, asked, consent, faults>>
Kill == /\ Running /\ Exit("killed") /\ Keep

Next == Args \/ Check \/ Ask \/ Fault \/ Open \/ Header \/ Create \/ Read \/ Write \/ Patch
        \/ Flush \/ Remove \/ Kill
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

---------------------------------------------------------------------------
Ended == exit # "run"
Before == [src |-> IF env.srcKind = "missing" THEN "gone" ELSE "orig",
           dst |-> IF env.dstKind = "old" THEN "old" ELSE "none"]
Unchanged == src = Before.src /\ dst = Before.dst
Declined == asked /\ ~consent

(* C13 *)
SourceSafe == env.srcKind # "missing" => (src = "orig" \/ (src = "gone" /\ dst = "complete" /\ env.replace))
(* C14 *)
Honest == /\ (exit = "ok" /\ ~Declined) => dst = "complete"
          /\ (faults > 0 /\ Ended) => exit # "ok"
(* C15 *)
Consent == /\ (dst # Before.dst /\ Before.dst = "old") => (env.noask \/ consent)
           /\ asked => Exists /\ ~env.noask
           /\ (Ended /\ Declined) => Unchanged
(* C16 *)
Refusal == Unusable(env) => /\ Unchanged
                            /\ (Ended /\ ~Declined) => exit # "ok"
(* C17 *)
BadSize == ~env.sizeOk => Unchanged /\ exit # "ok" /\ ~asked
(* C16/C17: what is usable is not refused without a reason                   *)
Accepted == (exit = "fail" /\ faults = 0) =>
    \/ Unusable(env) \/ ~env.sizeOk \/ env.dstKind \in {"same", "dir"}

(* What the file system may look like from one moment to the next, whoever   *)
(* watches: this is what recorded snapshots are held against                 *)
FsStep == \/ UNCHANGED <<src, dst>>
          \/ src' = src /\ dst \in {"none", "old"} /\ dst' = "partial"
          \/ src' = src /\ dst = "partial" /\ dst' = "complete"
          \/ src = "orig" /\ src' = "gone" /\ dst = "complete" /\ dst' = dst /\ env.replace
FsSteps == [][FsStep]_vars

Terminates == <>Ended

(* A vector for the real program: everything a run can start from            *)
Emit == (pc = "args" /\ exit = "run") => PrintT("VEC " \o ToJson(env))
=============================================================================
