------------------------------- MODULE Paths -------------------------------
(* File system and paths. A path is the sequence of its characters (bytes);  *)
(* a location is the sequence of names that leads to it from the root, each  *)
(* a sequence of characters. A file system is a function from locations to   *)
(* nodes [k |-> "dir" | "file" | "link", ino, data, to]: files with the same *)
(* ino are the same file under two names; a link leads to the path to.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Slash == 47
Dot == 46
HffExt == <<104, 102, 102>>             \* "hff"
DotHff == <<46, 104, 102, 102>>         \* ".hff"

(* The names between the slashes; empty ones and single dots say nothing     *)
Names(p) ==
    LET r == FoldLeft(LAMBDA acc, ch : IF ch = Slash THEN [ns |-> Append(acc.ns, acc.cur), cur |-> <<>>]
                                       ELSE [acc EXCEPT !.cur = Append(@, ch)],
                      [ns |-> <<>>, cur |-> <<>>], p)
    IN SelectSeq(Append(r.ns, r.cur), LAMBDA n : n # <<>> /\ n # <<Dot>>)
Absolute(p) == p # <<>> /\ p[1] = Slash
DotDot == <<Dot, Dot>>

(* The file name of a path: its last name, unless that is ..; <<>> if none   *)
FileName(p) == LET ns == Names(p)
               IN IF ns = <<>> \/ ns[Len(ns)] = DotDot THEN <<>> ELSE ns[Len(ns)]
(* Where the extension of a name starts (its dot), 0 if it has none          *)
ExtDot(n) == LET k == SelectLastInSeq(n, LAMBDA ch : ch = Dot) IN IF k > 1 THEN k ELSE 0
Ext(n) == IF ExtDot(n) = 0 THEN <<>> ELSE SubSeq(n, ExtDot(n) + 1, Len(n))
HasHff(n) == ExtDot(n) # 0 /\ Ext(n) = HffExt
WithoutExt(n) == IF ExtDot(n) = 0 THEN n ELSE SubSeq(n, 1, ExtDot(n) - 1)

(* No location: no name holds a NUL                                         *)
None == << <<0>> >>
(* The location a path leads to from a directory, following links. The last  *)
(* name need not exist. Fuel bounds the links followed.                      *)
RECURSIVE Walk(_, _, _, _)
Walk(fs, at, ns, fuel) ==
    IF ns = <<>> THEN at
    ELSE IF fuel = 0 \/ at \notin DOMAIN fs \/ fs[at].k # "dir" THEN None
    ELSE IF Head(ns) = DotDot THEN Walk(fs, IF at = <<>> THEN at ELSE Front(at), Tail(ns), fuel)
    ELSE LET nx == Append(at, Head(ns))
         IN IF nx \in DOMAIN fs /\ fs[nx].k = "link"
            THEN Walk(fs, IF Absolute(fs[nx].to) THEN <<>> ELSE at,
                      Names(fs[nx].to) \o Tail(ns), fuel - 1)
            ELSE IF Len(ns) > 1 /\ nx \notin DOMAIN fs THEN None
            ELSE Walk(fs, nx, Tail(ns), fuel)
Locate(fs, cwd, p) == IF p = <<>> THEN None
                      ELSE Walk(fs, IF Absolute(p) THEN <<>> ELSE cwd, Names(p), 20)
(* The location of the last name itself, even where it is a link             *)
NameLoc(fs, cwd, p) ==
    IF FileName(p) = <<>> THEN Locate(fs, cwd, p)
    ELSE LET d == Walk(fs, IF Absolute(p) THEN <<>> ELSE cwd, Front(Names(p)), 20)
         IN IF d = None THEN None ELSE Append(d, FileName(p))
Exists(fs, loc) == loc # None /\ loc \in DOMAIN fs
IsDir(fs, loc) == Exists(fs, loc) /\ fs[loc].k = "dir"
IsFile(fs, loc) == Exists(fs, loc) /\ fs[loc].k = "file"
SameFile(fs, a, b) == IsFile(fs, a) /\ IsFile(fs, b) /\ fs[a].ino = fs[b].ino
(* A location whose directory exists                                         *)
Creatable(fs, loc) == loc # None /\ loc # <<>> /\ IsDir(fs, Front(loc))
=============================================================================
