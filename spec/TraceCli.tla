------------------------------ MODULE TraceCli ------------------------------
(* Judges recorded runs of the huff program. A session is a directory and a  *)
(* sequence of runs in it; each event is one run, recorded when the program  *)
(* ended: its arguments, its input, its exit and the complete directory      *)
(* before and after. A run may have had a fault injected or been killed.     *)
(*                                                                           *)
(* The specification works out from the arguments and the file system what   *)
(* the run had to do (Plan), and says in which way, if any, the record       *)
(* departs from it in a way property Prop does not allow. It keeps what each *)
(* .hff file was made from, so that a later run restoring it can be judged.  *)
EXTENDS HuffBase, Paths, BlockSize, Args, Json

CONSTANTS TraceFile, Prop

Cases == ndJsonDeserialize(TraceFile)

VARIABLES c, i,
          fs,     \* the file system after the last run
          origin, \* pairs <<file data, what it was made from>>
          bad
vars == <<c, i, fs, origin, bad>>

Case == Cases[c]
(* C24 is about command lines: what they mean has to come of them in full    *)
Mine(p) == Prop \in p \/ (Prop = "C24" /\ p \cap {"C14", "C15", "C16", "C18"} # {})
Fail(p, ok, msg) == IF Mine(p) /\ ~ok THEN {msg} ELSE {}

(* Recorded: [p |-> location, k, ino, data, to]                              *)
FsOf(entries) ==
    LET locs == TLCEval([n \in 1..Len(entries) |-> entries[n].p])
    IN TLCEval([l \in ToSet(locs) |->
          LET e == entries[SelectInSeq(locs, LAMBDA x : x = l)]
          IN [k |-> e.k, ino |-> e.ino, data |-> e.data, to |-> e.to]])

(* The contents of a long file are recorded as its length, a hash, its first *)
(* bytes and how often it holds each byte:                                   *)
(* <<-1>> \o length \o hash \o the counts of 0..255 \o beginning             *)
HeadLen == 2048
IsLong(data) == data # <<>> /\ data[1] = -1
Beginning(data) == IF IsLong(data) THEN SubSeq(data, 24 + 256 * 6, Len(data)) ELSE data
LengthOf(data) == IF IsLong(data) THEN SubSeq(data, 2, 7) ELSE BigOf(Len(data))
(* Pairs of letters and the number of their occurrences                      *)
Census(data) ==
    LET n == IF IsLong(data) THEN TLCEval([b \in 0..255 |-> SubSeq(data, 24 + 6 * b, 29 + 6 * b)])
             ELSE TLCEval([b \in 0..255 |-> BigOf(Len(SelectSeq(data, LAMBDA x : x = b)))])
    IN TLCEval(SetToSeq({<<<<b>>, n[b]>> : b \in {x \in 0..255 : n[x] # BZero}}))

AnyLetter(l) == TRUE
Ones(bytes) == [n \in 1..Len(bytes) |-> <<bytes[n]>>]
Plain(letters) == [n \in 1..Len(letters) |-> letters[n][1]]

---------------------------------------------------------------------------
(* What a run has to do. kind: "refuse", "either" (the header's tree is      *)
(* nested deeper than has to be supported or its padding is out of range:    *)
(* refusing is fine), "special" (the source is no regular file; it may work  *)
(* all the same), "write"; at: where the output goes                     *)
Plan(f, a) ==
    LET cwd == Case.cwd
        S == Locate(f, cwd, a.src)
        name == FileName(a.src)
        here(n) == Locate(f, cwd, n)
        given == IF a.dst = <<>> THEN name ELSE a.dst
        gname == FileName(given)
        (* the destination path with its last name replaced                  *)
        renamed(n) == SubSeq(given, 1, Len(given) - Len(gname)) \o n
        stripped == renamed(WithoutExt(gname))
        D == IF gname = <<>> THEN here(given)
             ELSE IF ~a.d THEN here(renamed(gname \o DotHff))
             ELSE IF SameFile(f, S, here(given)) /\ HasHff(gname) THEN here(stripped)
             ELSE here(given)
        p == ParseContainer(Beginning(f[S].data), 1, AnyLetter)
        L == NameLoc(f, cwd, a.src)
        Refuse(why) == [kind |-> "refuse", why |-> why, src |-> S, link |-> L, at |-> D, toks |-> <<>>, data |-> <<>>, pad |-> 0]
        go(kind) == [kind |-> kind, why |-> "", src |-> S, link |-> L, at |-> D, toks |-> p.toks, data |-> p.data, pad |-> p.pad]
    IN IF ~ValidSize(a.b) THEN Refuse("the block size is invalid")
       ELSE IF ~Exists(f, S) THEN Refuse("the source is missing")
       ELSE IF IsDir(f, S) THEN Refuse("the source is a directory")
       ELSE IF ~IsFile(f, S) THEN [Refuse("the source is no regular file") EXCEPT !.kind = "special"]
       ELSE IF a.d /\ ~HasHff(name) THEN Refuse("the source lacks the hff extension")
       ELSE IF ~a.d /\ f[S].data = <<>> THEN Refuse("the source is empty")
       ELSE IF a.d /\ p.res \notin {"ok", "either"} THEN Refuse("the source is no hff file: " \o p.res)
       ELSE IF IsDir(f, D) THEN Refuse("the destination is a directory")
       ELSE IF ~Exists(f, D) /\ ~Creatable(f, D) THEN Refuse("the destination cannot be created")
       ELSE IF SameFile(f, S, D) THEN Refuse("the destination is the source")
       ELSE IF a.d /\ (p.res = "either" \/ DeeperThan(p.toks, 255)) THEN go("either")
       ELSE go("write")

Yes(answer) == answer # <<>> /\ answer[1] \in {89, 121}

(* The kinds an error of the run can have: one for everything that is wrong  *)
HeaderKinds(b) ==
    LET tl == ((b[2] * 256 + b[3]) * 256 + b[4]) * 256 + b[5]
        cut == Len(b) < 5 \/ b[2] >= 64 \/ Len(b) <= 5 + tl
        short == Len(b) >= 5 /\ b[2] < 64 /\ tl < 2
        padding == b # <<>> /\ (b[1] \div 16 > 7 \/ b[1] % 16 > 7)
        tree == /\ Len(b) >= 5 /\ b[2] < 64 /\ Len(b) >= 5 + tl
                /\ LET t == ParseTree(SubSeq(BitsOf(SubSeq(b, 6, 5 + tl), 8), 1, 8 * tl - b[1] \div 16), 1, 8, AnyLetter)
                   IN t.res # "ok" \/ DeeperThan(t.toks, 255)
    IN (IF cut \/ short THEN {"MissingHeaderInfo"} ELSE {})
       \cup (IF padding \/ short \/ tree THEN {"InvalidHeaderInfo"} ELSE {})
Kinds(f, a, P) ==
    LET there == Exists(f, P.src)
        dir == IsDir(f, P.src)
        file0 == IsFile(f, P.src)
        file == file0
    IN UNION {
        IF ValidSize(a.b) THEN {} ELSE {"InvalidInput"},
        IF there THEN {} ELSE {"Io"},
        IF dir THEN {"NotFile"} ELSE {},
        IF there /\ ~dir /\ ~file0 THEN {"NotFile", "InvalidInput", "MissingHeaderInfo", "Io"} ELSE {},
        IF a.d /\ ~HasHff(FileName(a.src)) THEN {"UnrecognizedFormat"} ELSE {},
        IF ~a.d /\ file /\ f[P.src].data = <<>> THEN {"InvalidInput"} ELSE {},
        IF a.d /\ file THEN HeaderKinds(Beginning(f[P.src].data)) ELSE {},
        IF IsDir(f, P.at) THEN IF a.d THEN {"NotFile"} ELSE {"NotFile", "Io"} ELSE {},
        IF ~Exists(f, P.at) /\ ~Creatable(f, P.at) THEN {"Io"} ELSE {},
        IF file /\ SameFile(f, P.src, P.at) THEN {"InvalidInput"} ELSE {} }
KindBad(e, f) ==
    LET a == e.args
        P == TLCEval(Plan(f, a))
        ks == TLCEval(Kinds(f, a, P))
    IN IF e.fault THEN Fail({"C22"}, e.exit \in {"ok", "fail"}, "a failing operation made the program end by a " \o e.exit) \cup
                       Fail({"C22"}, e.exit = "fail" /\ P.kind = "write" => e.kind = "Io" /\ e.says,
                            "what the operating system refused is reported as " \o e.kind)
       ELSE IF e.exit = "ok" THEN Fail({"C22"}, e.kind = "" /\ (P.kind = "refuse" => e.asked /\ ~Yes(e.answer)), "no error for a run to refuse (" \o P.why \o ")")
       ELSE Fail({"C22"}, e.exit = "fail" /\ e.kind \in ks, "an error of kind " \o e.kind \o ", " \o e.exit \o " (" \o P.why \o ")")
            \cup Fail({"C22"}, e.says, "an error without a message")

(* Is data the complete, correct output of the run?                          *)
WellFormed(data) == LET p == ParseContainer(data, 1, AnyLetter)
                    IN p.res = "ok" /\ data[1] \div 16 < 8
Restores(data, content) ==
    LET p == ParseContainer(data, 1, AnyLetter)
    IN /\ p.res = "ok"
       /\ Plain(Decode(p.toks, SubSeq(BitsOf(p.data, 8), 1, 8 * Len(p.data) - p.pad))) = content
Restored(P) == Plain(Decode(P.toks, SubSeq(BitsOf(P.data, 8), 1, 8 * Len(P.data) - P.pad)))
(* Are plain and comp, one of them long, in length and contents what one can  *)
(* be of the other? (That they are in every byte is found out by restoring.) *)
Relates(plain, comp, exact) ==
    LET p == ParseContainer(Beginning(comp), 1, AnyLetter)
        ls == LeafSeq(p.toks)
        codes == TLCEval(CodeMap(p.toks))
        cs == Census(plain)
        ws == [k \in 1..Len(cs) |-> cs[k][2]]
        bits == CodeCost(ws, [k \in 1..Len(cs) |-> codes[cs[k][1]]])
        prefix == TLCEval(Container(p.toks, <<>>, p.pad))
    IN /\ p.res = "ok"
       /\ {cs[k][1] : k \in 1..Len(cs)} \subseteq ToSet(ls)
       /\ BAdd(BAdd(bits, BigOf(p.pad)), BigOf(8 * Len(prefix))) = BMul(LengthOf(comp), 8)
       /\ exact => /\ NoDup(ls) /\ Len(ls) = Len(cs)
                   /\ SubSeq(Beginning(comp), 1, Len(prefix)) = prefix
                   /\ p.pad = PadOf(bits[1] % 8, 8)
                   /\ Len(ls) > 1 => bits = HuffCost(ws)
Complete(P, a, f, data) ==
    IF IsLong(data) \/ IsLong(f[P.src].data)
    THEN IF a.d THEN Relates(data, f[P.src].data, FALSE) ELSE Relates(f[P.src].data, data, FALSE)
    ELSE IF a.d THEN data = Restored(P) ELSE Restores(data, f[P.src].data)

(* The documented file, exactly: an optimal code, nothing superfluous        *)
DocumentedShort(data, content) ==
    LET p == ParseContainer(data, 1, AnyLetter)
        ls == LeafSeq(p.toks)
        cs == LeafCodes(p.toks)
        bits == TLCEval(Encode(Ones(content), CodeMap(p.toks)))
        cnt == TLCEval([n \in 1..Len(ls) |-> BigOf(Len(SelectSeq(content, LAMBDA b : b = ls[n][1])))])
    IN /\ p.res = "ok"
       /\ ToSet(ls) = ToSet(Ones(content)) /\ NoDup(ls)
       /\ data = Container(p.toks, BytesOf(bits, 8), PadOf(Len(bits), 8))
       /\ Len(ls) > 1 => CodeCost(cnt, cs) = HuffCost(cnt)

Documented(data, content) ==
    IF IsLong(data) \/ IsLong(content) THEN Relates(content, data, TRUE) ELSE DocumentedShort(data, content)

(* SRC_FILE (where it is a link: it or what it leads to) is gone             *)
Lost(P, g) == P.src \notin DOMAIN g \/ P.link \notin DOMAIN g

(* Everything but the destination (and other names of that file) and, if     *)
(* gone says so, the source, is as it was                                    *)
OthersSame(f, g, P, gone) ==
    LET same(l) == l \in DOMAIN g /\ (g[l] = f[l] \/ (IsFile(f, P.at) /\ IsFile(f, l) /\ f[l].ino = f[P.at].ino))
    IN /\ \A l \in DOMAIN f : l = P.at \/ same(l) \/ (gone /\ l \in {P.src, P.link})
       /\ \A l \in DOMAIN g : l = P.at \/ l \in DOMAIN f

(* The source, wherever its names are, still holds what it held              *)
SourceThere(f, g, S) == \E l \in DOMAIN f : /\ f[l].k = "file" /\ f[l].ino = f[S].ino
                                            /\ l \in DOMAIN g /\ g[l].k = "file" /\ g[l].data = f[S].data

(* The memory a run may take up for its block size: a block, the letters or  *)
(* the codes of one (at most 8 letters to a byte; codes are 32 bits long at  *)
(* most in files of the sizes recorded), both while they grow, and 10 MiB    *)
MemoryFor(size) == BAdd(BMul(BMul(BigOf(1048576), 5), 2), BMul(size, 40))

---------------------------------------------------------------------------
(* A run that ended by itself, without any fault                             *)
ExpectSuccess == {"C11", "C12", "C14", "C15", "C16", "C17", "C18", "C23"}
Known(data) == \E p \in origin : p[1] = data
OriginOf(data) == (CHOOSE p \in origin : p[1] = data)[2]

RunBad(e, f, g) ==
    LET a == e.args
        P == TLCEval(Plan(f, a))
        asks == Exists(f, P.at) /\ ~a.n
        wrote == IsFile(g, P.at)
        data == g[P.at].data
        cleanExit == e.exit = "ok" \/ e.exit = "fail"
        success ==
            IF e.exit # "ok" THEN Fail(ExpectSuccess, FALSE, "a run that had to succeed did not: " \o e.exit)
            ELSE UNION {
                Fail({"C18"}, wrote, "the output is not where it belongs"),
                Fail({"C18"}, OthersSame(f, g, P, a.r), "something else than the destination changed"),
                Fail({"C18"}, a.r <=> Lost(P, g), "the source was not removed exactly on request"),
                Fail({"C13"}, P.src \in DOMAIN g => g[P.src] = f[P.src], "the source was changed"),
                Fail({"C13"}, Lost(P, g) => (a.r /\ wrote /\ Complete(P, a, f, data)), "the source is lost"),
                Fail({"C14", "C17", "C23"}, wrote /\ Complete(P, a, f, data), "the run reported success without the complete output"),
                Fail({"C16"}, wrote, "the run reported success without output"),
                Fail({"C12", "C23"}, ~a.d => (wrote /\ Documented(data, f[P.src].data)), "the file is not the documented optimal one"),
                Fail({"C12"}, (~a.d /\ wrote) => \A p \in origin : p[2] = f[P.src].data => p[1] = data,
                     "the same source gave a different file"),
                Fail({"C11", "C12"}, (a.d /\ Known(f[P.src].data)) => (wrote /\ data = OriginOf(f[P.src].data)),
                     "the file restored is not the original"),
                Fail({"C15"}, asks <=> e.asked, "the question was not asked exactly when the destination exists"),
                Fail({"C15"}, wrote, "consent was given, yet nothing was written") }
        declined ==
            Fail({"C15"}, f = g, "a declined run changed something")
            \cup Fail({"C15"}, e.asked, "an existing destination was not asked about")
            \cup Fail({"C13"}, f = g, "a declined run changed something")
            \cup Fail({"C18"}, OthersSame(f, g, P, FALSE), "a declined run changed something")
        excused == e.exit = "ok" /\ e.asked /\ ~Yes(e.answer)
        refused == UNION {
            Fail({"C16", "C17"}, f = g, "a refused run changed something (" \o P.why \o ")"),
            Fail({"C16", "C17"}, excused \/ (e.exit = "fail" /\ e.msg),
                 "a run was not refused cleanly (" \o P.why \o "): " \o e.exit),
            Fail({"C13"}, IsFile(f, P.src) => SourceThere(f, g, P.src), "the source is lost"),
            Fail({"C15"}, (Exists(f, P.at) /\ ~a.n /\ ~(e.asked /\ Yes(e.answer))) => f = g,
                 "the destination was changed without consent"),
            Fail({"C18"}, OthersSame(f, g, P, FALSE), "something else than the destination changed") }
    IN IF P.kind = "refuse" THEN refused
       ELSE IF P.kind = "special" THEN Fail({"C16"}, e.exit = "ok" \/ (e.exit = "fail" /\ e.msg /\ f = g), "a source that is no regular file was not dealt with cleanly: " \o e.exit)
       ELSE IF P.kind = "either" /\ e.exit = "fail" THEN Fail({"C16"}, f = g, "a refused run changed something")
       ELSE IF P.kind = "either" THEN Fail({"C16"}, cleanExit, "a run was not refused cleanly: " \o e.exit)
       ELSE IF asks /\ ~Yes(e.answer)
       THEN declined
       ELSE success
            \cup (IF e.maxread = <<>> THEN {}
                  ELSE LET lim == IF BLess(SizeOf(a.b), BigOf(32768)) THEN BigOf(32768) ELSE SizeOf(a.b)
                       IN Fail({"C17"}, ~BLess(lim, e.maxread), "a read asked for more than the block size"))
            \cup (IF e.mem = <<>> THEN {}
                  ELSE Fail({"C17"}, ~BLess(MemoryFor(SizeOf(a.b)), e.mem), "more was held in memory than blocks of that size account for"))

(* A run with a fault: one operation on the source or the destination failed *)
FaultBad(e, f, g) ==
    LET a == e.args
        P == TLCEval(Plan(f, a))
        wrote == IsFile(g, P.at)
        lost == Lost(P, g)
    IN IF P.kind # "write" THEN {}
       ELSE UNION {
        Fail({"C14"}, e.must => e.exit # "ok", "a failed operation was not reported"),
        Fail({"C14"}, e.exit = "ok" => (wrote /\ Complete(P, a, f, g[P.at].data)), "the run reported success without the complete output"),
        Fail({"C13"}, P.src \in DOMAIN g => g[P.src] = f[P.src], "the source was changed"),
        Fail({"C13"}, lost => (a.r /\ wrote /\ Complete(P, a, f, g[P.at].data)), "the source is lost") }

(* A moment at which the run was killed: what is left must not be a loss     *)
KilledBad(e, f, g) ==
    LET a == e.args
        P == TLCEval(Plan(f, a))
        S == Locate(f, Case.cwd, a.src)
        consent == a.n \/ ~Exists(f, P.at) \/ Yes(e.answer)
    IN IF ~IsFile(f, S) THEN {}
       ELSE UNION {
        Fail({"C13"}, S \in DOMAIN g => g[S] = f[S], "the source was changed"),
        Fail({"C13"}, Lost(P, g) =>
                (P.kind = "write" /\ a.r /\ IsFile(g, P.at) /\ Complete(P, a, f, g[P.at].data)),
             "the source is gone before the complete output is there"),
        Fail({"C15"}, (P.kind = "write" /\ ~consent) => f = g, "the destination was changed without consent") }

(* What the library made of a file the program wrote                         *)
LibBad(e) ==
    IF e.res # "ok" THEN Fail({"C12"}, FALSE, "the library does not read the file")
    ELSE Fail({"C12"}, Known(e.bytes) /\ e.letters = OriginOf(e.bytes), "the library restores something else from the file")

(* Runs at the same time. They have nothing to do with each other (as Apart  *)
(* in Pair says) if no destination is another's, or another's source, and a  *)
(* source of several stays. Then each ends as if alone.                      *)
Together(e, f, g) ==
    LET ns == 1..Len(e.runs)
        P == TLCEval([n \in ns |-> Plan(f, e.runs[n].args)])
        apart == \A n \in ns : \A m \in ns \ {n} :
            /\ P[n].at # P[m].at /\ ~SameFile(f, P[n].at, P[m].at)
            /\ P[n].at # P[m].src /\ ~SameFile(f, P[n].at, P[m].src)
            /\ P[n].src = P[m].src => ~e.runs[n].args.r
        writes(n) == P[n].kind = "write" /\ (Exists(f, P[n].at) => e.runs[n].args.n)
        mine(n) == LET r == e.runs[n]
                       there == IsFile(g, P[n].at)
                   IN IF writes(n)
                      THEN Fail({"C23"}, r.exit = "ok", "a run with others at the same time did not succeed: " \o r.exit)
                           \cup Fail({"C23"}, there /\ IF r.args.d THEN <<f[P[n].src].data, g[P[n].at].data>> \in origin
                                                      ELSE <<g[P[n].at].data, f[P[n].src].data>> \in origin,
                                    "the output of a run with others at the same time is another than alone")
                           \cup Fail({"C23"}, r.args.r <=> Lost(P[n], g), "the source was not removed exactly on request")
                      ELSE IF P[n].kind = "refuse" THEN Fail({"C23"}, r.exit = "fail" /\ r.msg, "a run to refuse (" \o P[n].why \o ") ended as " \o r.exit)
                      ELSE Fail({"C23"}, P[n].kind = "write" => r.exit = "ok" /\ r.asked, "a declined run ended as " \o r.exit)
        dests == {P[n].at : n \in {m \in ns : writes(m)}}
        going == UNION {{P[n].src, P[n].link} : n \in {m \in ns : writes(m) /\ e.runs[m].args.r}}
        rest == /\ \A l \in DOMAIN f : \/ l \in dests \cup going
                                       \/ l \in DOMAIN g /\ (g[l] = f[l] \/ \E d \in dests : SameFile(f, l, d))
                /\ \A l \in DOMAIN g : l \in dests \/ l \in DOMAIN f
    IN IF ~apart THEN {}
       ELSE Fail({"C23"}, rest, "something else than the destinations changed") \cup UNION {mine(n) : n \in ns}

(* A command line as it was typed                                            *)
RawBad(e, f, g) ==
    LET m == Meaning(e.argv)
    IN CASE m.kind = "error" -> Fail({"C24"}, f = g /\ e.exit = "fail" /\ e.msg, "a command line without meaning was not refused: " \o e.exit)
         [] m.kind = "help"  -> Fail({"C24"}, f = g /\ e.exit = "ok" /\ e.asked, "no help was given")
         [] m.kind = "open"  -> Fail({"C24"}, e.exit \in {"ok", "fail"}, "a command line was not dealt with cleanly: " \o e.exit)
         [] m.empty /\ m.kind = "run" ->      \* a destination without a name: what that is is open, but it is not the default
              LET P == Plan(f, m.args)
                  kept == P.kind = "write" /\ P.at \in DOMAIN g => P.at \in DOMAIN f /\ g[P.at] = f[P.at]
              IN Fail({"C24"}, \/ e.exit = "fail" /\ f = g
                               \/ e.exit = "ok" /\ kept, "an empty word was taken for none: " \o e.exit)
         [] OTHER ->
              LET r == [e EXCEPT !.args = m.args]
                  P == TLCEval(Plan(f, m.args))
                  done == P.kind = "write" /\ (Exists(f, P.at) /\ ~m.args.n => Yes(e.answer))
              IN RunBad(r, f, g)
                 \cup Fail({"C24"}, done /\ e.exit = "ok" => (e.timed <=> m.t), "the time was not printed exactly on request")

On(e) ==
    CASE e.op = "run" /\ Prop = "C22" -> KindBad(e, IF e.fresh THEN FsOf(Case.fs0) ELSE fs)
      [] e.op = "run"    -> IF e.fault THEN FaultBad(e, IF e.fresh THEN FsOf(Case.fs0) ELSE fs, FsOf(e.after))
                            ELSE RunBad(e, IF e.fresh THEN FsOf(Case.fs0) ELSE fs, FsOf(e.after))
      [] e.op = "together" -> Together(e, FsOf(Case.fs0), FsOf(e.after))
      [] e.op = "raw"    -> RawBad(e, FsOf(Case.fs0), FsOf(e.after))
      [] e.op = "killed" -> KilledBad(e, FsOf(Case.fs0), FsOf(e.after))
      [] e.op = "lib"    -> LibBad(e)
      [] e.op = "hung"   -> {"the program did not end"}

(* A compressed file was made from the source, or the source is one (C23:    *)
(* what runs make alone)                                                     *)
Made(e, f) ==
    IF e.op = "run" /\ e.exit = "ok" /\ ~e.fault /\ (Prop = "C23" \/ (Prop \in {"C11", "C12"} /\ ~e.args.d))
    THEN LET P == TLCEval(Plan(f, e.args))
             g == FsOf(e.after)
         IN IF P.kind # "write" \/ ~IsFile(g, P.at) THEN {}
            ELSE IF e.args.d THEN {<<f[P.src].data, g[P.at].data>>} ELSE {<<g[P.at].data, f[P.src].data>>}
    ELSE {}

Init == /\ c \in 1..Len(Cases)
        /\ i = 1
        /\ fs = FsOf(Case.fs0)
        /\ origin = {<<Case.of[n][1], Case.of[n][2]>> : n \in 1..Len(Case.of)}
        /\ bad = {}

Run == /\ bad = {}
       /\ i <= Len(Case.ev)
       /\ LET e == Case.ev[i]
              r == On(e)
          IN /\ bad' = r
             /\ (r # {} => PrintT("FAIL " \o ToJson([id |-> Case.id, ev |-> i, why |-> SetToSeq(r)])))
             /\ fs' = IF e.op = "run" THEN FsOf(e.after) ELSE fs
             /\ origin' = origin \cup Made(e, IF e.op = "run" /\ e.fresh THEN FsOf(Case.fs0) ELSE fs)
       /\ i' = i + 1
       /\ UNCHANGED c
Next == Run
Spec == Init /\ [][Next]_vars
Holds == bad = {}

(* What is shown of a behaviour that breaks it                               *)
Short == [session |-> c, event |-> i, bad |-> bad]
=============================================================================
