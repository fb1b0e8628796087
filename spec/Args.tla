-------------------------------- MODULE Args --------------------------------
(* What a command line means. Its words are sequences of characters (bytes). *)
(* Flags are single letters, alone or several behind one dash, or long       *)
(* words; the block size is given to -b or --block-size in the same word or  *)
(* in the next one; what is behind -- is no flag. C24.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Dash == 45
Equal == 61
L_b == 98
L_d == 100
L_h == 104
L_n == 110
L_r == 114
L_t == 116
L_V == 86
Flags == {L_d, L_n, L_r, L_t}
Asking == {L_h, L_V}
DashDash == <<45, 45>>
(* The long words and the letters they stand for                             *)
Longs == { <<<<100, 101, 99, 111, 109, 112, 114, 101, 115, 115>>, L_d>>,        \* decompress
           <<<<110, 111, 97, 115, 107>>, L_n>>,                                \* noask
           <<<<114, 101, 112, 108, 97, 99, 101>>, L_r>>,                       \* replace
           <<<<116, 105, 109, 101>>, L_t>>,                                    \* time
           <<<<98, 108, 111, 99, 107, 45, 115, 105, 122, 101>>, L_b>>,         \* block-size
           <<<<104, 101, 108, 112>>, L_h>>,                                    \* help
           <<<<118, 101, 114, 115, 105, 111, 110>>, L_V>> }                    \* version

(* s: what was seen so far. on: flags; twice: something was given twice;     *)
(* wants: the last word was the block size's flag; kind: "" while all is     *)
(* well, "error" and "help" as soon as they are certain, "open" where what   *)
(* comes of it is not said: a block size's flag without one, a flag with a   *)
(* value.                                                                    *)
Start == [on |-> {}, b |-> <<>>, hasB |-> FALSE, twice |-> FALSE, paths |-> <<>>, wants |-> FALSE, rest |-> FALSE, kind |-> ""]

Value(s, v) == [s EXCEPT !.b = v, !.twice = @ \/ s.hasB, !.hasB = TRUE, !.wants = FALSE]
Path(s, w) == IF Len(s.paths) = 2 THEN [s EXCEPT !.kind = "error"] ELSE [s EXCEPT !.paths = Append(@, w)]
Flag(s, l) == IF l \in s.on THEN [s EXCEPT !.twice = TRUE] ELSE [s EXCEPT !.on = @ \cup {l}]

(* Letters behind a dash                                                     *)
RECURSIVE Letters(_, _)
Letters(s, w) ==
    IF w = <<>> \/ s.kind # "" THEN s
    ELSE IF w[1] \in Asking THEN [s EXCEPT !.kind = "help"]
    ELSE IF w[1] \in Flags THEN Letters(Flag(s, w[1]), Tail(w))
    ELSE IF w[1] # L_b THEN [s EXCEPT !.kind = "error"]
    ELSE IF Len(w) = 1 THEN [s EXCEPT !.wants = TRUE]
    ELSE Value(s, IF w[2] = Equal THEN SubSeq(w, 3, Len(w)) ELSE Tail(w))

Long(s, w) ==
    LET k == SelectInSeq(w, LAMBDA ch : ch = Equal)
        name == IF k = 0 THEN w ELSE SubSeq(w, 1, k - 1)
        ls == {x[2] : x \in {y \in Longs : y[1] = name}}
    IN IF ls = {} THEN [s EXCEPT !.kind = "error"]
       ELSE LET l == CHOOSE x \in ls : TRUE
            IN IF l = L_b THEN IF k = 0 THEN [s EXCEPT !.wants = TRUE] ELSE Value(s, SubSeq(w, k + 1, Len(w)))
               ELSE IF k # 0 THEN [s EXCEPT !.kind = "open"]
               ELSE IF l \in Asking THEN [s EXCEPT !.kind = "help"]
               ELSE Flag(s, l)

IsDashed(w) == Len(w) > 1 /\ w[1] = Dash
Word(s, w) ==
    IF s.kind # "" THEN s
    ELSE IF s.wants THEN IF w # <<>> /\ w[1] = Dash THEN [s EXCEPT !.kind = "open"] ELSE Value(s, w)
    ELSE IF s.rest \/ ~IsDashed(w) THEN Path(s, w)
    ELSE IF w = DashDash THEN [s EXCEPT !.rest = TRUE]
    ELSE IF w[2] = Dash THEN Long(s, SubSeq(w, 3, Len(w)))
    ELSE Letters(s, Tail(w))

Twogig == <<50, 71>>
Meaning(argv) ==
    LET s == FoldLeft(Word, Start, argv)
        kind == CASE s.kind # "" -> s.kind
                  [] s.wants -> "open"
                  [] s.twice \/ s.paths = <<>> -> "error"
                  [] OTHER -> "run"
    IN [kind |-> kind, t |-> L_t \in s.on, given |-> Len(s.paths), empty |-> Len(s.paths) = 2 /\ s.paths[2] = <<>>,
        args |-> [d |-> L_d \in s.on, n |-> L_n \in s.on, r |-> L_r \in s.on,
                  b |-> IF s.hasB THEN s.b ELSE Twogig,
                  src |-> IF s.paths = <<>> THEN <<>> ELSE s.paths[1],
                  dst |-> IF Len(s.paths) < 2 THEN <<>> ELSE s.paths[2]]]
=============================================================================
