-------------------------------- MODULE Pair --------------------------------
(* Two runs of the program at the same time in one directory, their          *)
(* operations on it interleaved in every way: opening the source, creating   *)
(* the destination, reading through the source, reading and writing it chunk *)
(* by chunk, removing it. Files are inodes: whoever has one open keeps it    *)
(* when its name goes. What a run makes of a chunk is the chunk itself. C23. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS LenA, LenB,   \* chunks in the sources a and b
          Tie,          \* 0: any two runs, 1: only independent ones
          Switches      \* < 0: any interleaving; else: at most that many, recorded

VARIABLES env,          \* per run: its source, destination, whether the source is to go
          dir, data,    \* names to inodes (0: none), inodes to contents
          pc, fd, off, out, exit,  \* per run
          turn, stops   \* whose turn it is, where runs were interrupted
vars == <<env, dir, data, pc, fd, off, out, exit, turn, stops>>

Runs == {1, 2}
Names == {"a", "b", "c", "d"}
Inodes == 1..6
Orig(n) == IF n = "a" THEN [k \in 1..LenA |-> k] ELSE [k \in 1..LenB |-> 100 + k]
Other(p) == 3 - p

(* When runs have nothing to do with each other: other destinations, neither *)
(* the other's source, and a source both read stays                          *)
Apart(e) == /\ e[1].dst # e[2].dst
            /\ e[1].dst # e[2].src /\ e[2].dst # e[1].src
            /\ e[1].src = e[2].src => ~e[1].replace /\ ~e[2].replace

Init == /\ env \in [Runs -> {e \in [src : {"a", "b"}, dst : Names, replace : BOOLEAN] : e.src # e.dst}]
        /\ Tie = 1 => Apart(env)
        /\ dir = [n \in Names |-> CASE n = "a" -> 1 [] n = "b" -> 2 [] n = "c" -> 0 [] n = "d" -> 3]
        /\ data = [x \in Inodes |-> CASE x = 1 -> Orig("a") [] x = 2 -> Orig("b") [] x = 3 -> <<999>> [] OTHER -> <<>>]
        /\ pc = [p \in Runs |-> "open"]
        /\ fd = [p \in Runs |-> 0] /\ out = [p \in Runs |-> 0] /\ off = [p \in Runs |-> 0]
        /\ exit = [p \in Runs |-> "run"]
        /\ turn = 1 /\ stops = <<>>

Running(p) == exit[p] = "run"
Goto(p, l) == pc' = [pc EXCEPT ![p] = l] /\ exit' = exit
End(p, how) == pc' = [pc EXCEPT ![p] = "end"] /\ exit' = [exit EXCEPT ![p] = how]
Unused == CHOOSE x \in Inodes : /\ \A n \in Names : dir[n] # x
                                /\ \A p \in Runs : fd[p] # x /\ out[p] # x

Step(p) ==
    CASE pc[p] = "open" ->
            /\ IF dir[env[p].src] = 0 THEN End(p, "fail") /\ UNCHANGED fd
               ELSE Goto(p, "create") /\ fd' = [fd EXCEPT ![p] = dir[env[p].src]]
            /\ UNCHANGED <<dir, data, off, out>>
      [] pc[p] = "create" ->
            LET n == env[p].dst
                x == IF dir[n] # 0 THEN dir[n] ELSE Unused
            IN /\ dir' = [dir EXCEPT ![n] = x]
               /\ data' = [data EXCEPT ![x] = <<>>]
               /\ out' = [out EXCEPT ![p] = x]
               /\ Goto(p, "scan")
               /\ UNCHANGED <<fd, off>>
      [] pc[p] = "scan" -> Goto(p, "read") /\ UNCHANGED <<dir, data, fd, off, out>>
      [] pc[p] = "read" ->
            /\ Goto(p, IF off[p] < Len(data[fd[p]]) THEN "write" ELSE IF env[p].replace THEN "remove" ELSE "close")
            /\ UNCHANGED <<dir, data, fd, off, out>>
      [] pc[p] = "write" ->
            /\ off' = [off EXCEPT ![p] = @ + 1]
            /\ data' = IF off[p] < Len(data[fd[p]]) THEN [data EXCEPT ![out[p]] = Append(@, data[fd[p]][off[p] + 1])] ELSE data
            /\ Goto(p, "read")
            /\ UNCHANGED <<dir, fd, out>>
      [] pc[p] = "remove" ->
            /\ dir' = [dir EXCEPT ![env[p].src] = 0]
            /\ End(p, "ok")
            /\ UNCHANGED <<data, fd, off, out>>
      [] pc[p] = "close" -> End(p, "ok") /\ UNCHANGED <<dir, data, fd, off, out>>

(* The other run takes over before the operation this one is about to do     *)
Switch == /\ Switches > 0
          /\ Len(stops) < Switches
          /\ Running(turn) /\ Running(Other(turn))
          /\ stops' = Append(stops, [op |-> pc[turn], nth |-> off[turn] + 1])
          /\ turn' = Other(turn)
          /\ UNCHANGED <<env, dir, data, pc, fd, off, out, exit>>
Next == \/ \E p \in Runs : /\ Running(p)
                           /\ Switches > 0 => (p = turn \/ ~Running(turn))
                           /\ Step(p)
                           /\ UNCHANGED <<env, turn, stops>>
        \/ Switch
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

---------------------------------------------------------------------------
Ended == \A p \in Runs : ~Running(p)
Contents(n) == IF dir[n] = 0 THEN <<>> ELSE data[dir[n]]
(* Each ends as if it had been alone                                         *)
AsAlone == (Ended /\ Apart(env)) =>
    \A p \in Runs : /\ exit[p] = "ok"
                    /\ Contents(env[p].dst) = Orig(env[p].src)
                    /\ (dir[env[p].src] = 0) <=> (\E q \in Runs : env[q].src = env[p].src /\ env[q].replace)
(* and at no time is there anything else in its destination than its own     *)
Own == Apart(env) =>
    \A p \in Runs : pc[p] \notin {"open", "create"} =>
        Contents(env[p].dst) = SubSeq(Orig(env[p].src), 1, off[p])
(* Files no run writes to or removes stay                                    *)
Rest == \A n \in Names : (\A p \in Runs : n # env[p].dst /\ ~(n = env[p].src /\ env[p].replace)) =>
            Contents(n) = (CASE n = "a" -> Orig("a") [] n = "b" -> Orig("b") [] n = "c" -> <<>> [] n = "d" -> <<999>>)
Terminates == <>Ended

(* That being apart is needed: this does not hold                            *)
Wanton == Ended => \A p \in Runs : exit[p] = "ok" /\ Contents(env[p].dst) = Orig(env[p].src)

Emit == (Ended /\ Switches > 0 /\ stops # <<>>) => PrintT("VEC " \o ToJson([runs |-> <<env[1], env[2]>>, stops |-> stops]))
=============================================================================
