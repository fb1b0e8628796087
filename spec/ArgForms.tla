------------------------------ MODULE ArgForms ------------------------------
(* Command lines put together word by word, from every word there is. Every  *)
(* one means one thing; where flags stand and how they are written does not  *)
(* matter, and whatever can be meant can be said in every form. C24.         *)
EXTENDS Args, Json

CONSTANT MaxWords

VARIABLES argv, shown
vars == <<argv, shown>>

Long1(l) == DashDash \o (CHOOSE x \in Longs : x[2] = l)[1]
Short1(l) == <<Dash, l>>
Five == <<53>>
Src == <<115>>          \* s
Dst == <<111>>          \* o
Words == {Short1(l) : l \in Flags} \cup {Long1(l) : l \in Flags}
         \cup {<<Dash, L_b>>, Long1(L_b), <<Dash, L_b, 53>>, <<Dash, L_b, Equal, 53>>, Long1(L_b) \o <<Equal, 53>>}
         \cup {<<Dash, L_n, L_d>>, <<Dash, L_d, L_n, L_r>>, <<Dash, L_r, L_t, L_b, 53>>, <<Dash, L_n, L_b>>, <<Dash, L_t, L_n, L_b, Equal, 53>>}
         \cup {Src, Dst, Five, <<Dash>>, DashDash}
         \cup {<<Dash, 120>>, <<Dash, L_n, 120>>, DashDash \o <<110, 111>>, Short1(L_h), Long1(L_V)}
         \cup {<<>>, <<Dash, 53>>, <<Dash, 68>>, <<Dash, Equal>>, <<Dash, Dash, Dash>>, SubSeq(Long1(L_d), 1, 11), Long1(L_b) \o <<Equal>>}

Init == argv = <<>> /\ shown = FALSE
Say == ~shown /\ Len(argv) < MaxWords /\ \E w \in Words : argv' = Append(argv, w) /\ shown' = FALSE
Show == ~shown /\ argv # <<>> /\ shown' = TRUE /\ UNCHANGED argv
Next == Say \/ Show
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
M == Meaning(argv)
IsFlag(w) == w \in {Short1(l) : l \in Flags} \cup {Long1(l) : l \in Flags}
Swap(k) == [argv EXCEPT ![k] = argv[k + 1], ![k + 1] = argv[k]]
(* A flag may change places with its neighbour, unless that takes it as a    *)
(* value, or is -- or asks for help                                          *)
Moves == \A k \in 1..(Len(argv) - 1) :
    (/\ IsFlag(argv[k]) \/ IsFlag(argv[k + 1])
     /\ \A j \in {k, k + 1} : argv[j] # DashDash
     /\ M.kind = "run" /\ ~\E j \in 1..k : argv[j] = DashDash
     /\ Meaning(Swap(k)).kind # "open")
    => Meaning(Swap(k)) = M
(* The short and the long form are the same, and so are the size's forms     *)
Spelled(w) ==
    CASE \E l \in Flags : w = Short1(l) -> <<Long1(w[2])>>
      [] w = <<Dash, L_b, 53>> -> <<Long1(L_b) \o <<Equal, 53>>>>
      [] w = <<Dash, L_b, Equal, 53>> -> <<<<Dash, L_b>>, Five>>
      [] w = <<Dash, L_n, L_d>> -> <<Short1(L_n), Long1(L_d)>>
      [] w = <<Dash, L_d, L_n, L_r>> -> <<Short1(L_r), Short1(L_n), Long1(L_d)>>
      [] w = <<Dash, L_r, L_t, L_b, 53>> -> <<Short1(L_t), Long1(L_r), Long1(L_b), Five>>
      [] OTHER -> <<w>>
Forms == LET dd == SelectInSeq(argv, LAMBDA w : w = DashDash)
             spelled == FlattenSeq([k \in 1..Len(argv) |-> IF dd # 0 /\ k > dd THEN <<argv[k]>> ELSE Spelled(argv[k])])
         IN M.kind = "run" => Meaning(spelled) = M
(* Nothing is run without a source                                           *)
Sourced == M.kind = "run" => M.given \in {1, 2}
(* More words do not undo an error                                           *)
Final == [][(Meaning(argv).kind = "error" /\ Meaning(argv).given > 0 /\ Len(argv') > Len(argv)) => Meaning(argv').kind \in {"error", "help", "open"}]_vars

Emit == shown => PrintT("VEC " \o ToJson([argv |-> argv]))
=============================================================================
