-------------------------------- MODULE C21 --------------------------------
(***************************************************************************)
(* C21: recovery is read-only and repeatable.  The state is a disk with    *)
(* input files and log directories, and the history of the runs made so    *)
(* far.  A run is a command with its arguments, a log level, a log         *)
(* directory, a user, and a number of copies which run at the same time.   *)
(* A run changes nothing but its log directory, and what it prints is a    *)
(* function of its command and the inputs alone.  The driver compares      *)
(* everything around each run: names, sizes, modes, and change times of    *)
(* the input directory, the home, the temporary and the other log          *)
(* directory.                                                              *)
(***************************************************************************)
EXTENDS Redo

CONSTANTS MaxRuns

TA == TU                                                       \* shop.t, of the markers
TX == Tab(41, 24, Str("shop"), Str("other"), <<Col(Str("x"), "int", 4, TRUE), ID>>, <<2>>)
TY == Tab(42, 0, Str("shop2"), Str("t"), <<ID, Col(Str("y"), "varchar", 40, FALSE)>>, <<1>>)
TZ == Tab(43, 0, Str("shop2"), Str("z"), <<ID, Col(Str("z"), "varchar", 40, FALSE)>>, <<1>>)
\* several tables in the system tablespace, and more than a few of them
Others == [i \in 1..9 |-> Tab(50 + i, IF i % 2 = 0 THEN 0 ELSE 60 + i, Str("more"), Str("m") \o Dig(i, 1), <<ID, Col(Str("c"), "int", 4, FALSE)>>, <<1>>)]
Dict21 == DictFileOf(<<TA, TX, TY, TZ>> \o Others, Seed)

RowA(n) == <<Id(n), IF n % 3 = 0 THEN Null ELSE S(Str("v") \o Dig(n, 3)), IF n % 2 = 0 THEN Null ELSE W(U4(n)), S(Rep(98, n))>>
RowsA == Eval([n \in 1..9 |-> RowA(n)])
LeafA == <<RowsPage(TA, 3, "C", SubSeq(RowsA, 1, 5), Seed), RowsPage(TA, 4, "C", SubSeq(RowsA, 6, 9), Seed + 1)>>
\* the same rows, and deleted ones
RowsB == Eval([n \in 1..6 |-> RowA(200 + n)])
DeadPage == LeafPage(TA, 3, "C", [i \in 1..6 |-> MkSlot(TabRec(TA, RowsB[i], "C", i % 2 = 0, Seed + i), "C")], <<1, 3, 5>>, <<6, 2, 4>>, Seed)
LiveB == <<RowsB[1], RowsB[3], RowsB[5]>>
DeadB == <<RowsB[6], RowsB[2], RowsB[4]>>

UX(k) == UpdItem(TX, <<W(U4(1)), Id(k)>>, <<<<1, W(U4(k * 7))>>>>)
UY(k) == UpdItem(TY, <<Id(k), Null>>, <<<<2, S(Str("y") \o Dig(k, 2))>>>>)
UZ(k) == UpdItem(TZ, <<Id(k), Null>>, <<<<2, S(Str("z") \o Dig(k, 2))>>>>)
UM(k) == LET t == Others[1 + (k % 9)] IN UpdItem(t, <<Id(k), Null>>, <<<<2, IF k % 2 = 0 THEN Null ELSE W(U4(k))>>>>)
Items == Eval(Cat([k \in 1..5 |-> <<Marker(k), UX(k), Plain(<<MultiEnd>>), UY(k), UM(k), UZ(k), Marker(100 + k), UM(k + 4)>>]))
OnlyOf(db, tab) == Cat([i \in 1..Len(Items) |-> SelectSeq(Items[i].e, LAMBDA e : (db = "" \/ e.db = Str(db)) /\ (tab = "" \/ e.tab = Str(tab)))])
LogBlocks == Blocks(StreamOf(Items), <<100, 200>>)
LogFirsts == FirstGroups(GroupStarts(Items, Seed), LogBlocks)
HalfL == Len(LogBlocks) \div 2
Without(chunks, nos) == SelectSeq(chunks, LAMBDA c : c[1] \notin nos)
NotDict == Without(SimpleDict(<<TA>>, Seed), {7})

\* The inputs: name -> file.  The names which are missing have none.
Disk0 == [n \in {"ibdata1", "t.ibd", "d.ibd", "ib_logfile0", "ib_logfile1", "nodict"} |->
  CASE n = "ibdata1" -> DictFileOf(<<TA, TX, TY, TZ>> \o Others, Seed)
    [] n = "t.ibd" -> TabFileOf(TA, LeafA, Seed)
    [] n = "d.ibd" -> [TabFileOf(TA, <<DeadPage>>, Seed) EXCEPT !.n = n]
    [] n = "ib_logfile0" -> LogFileOf(n, SubSeq(LogBlocks, 1, HalfL), SubSeq(LogFirsts, 1, HalfL), 16, 0, Seed)
    [] n = "ib_logfile1" -> LogFileOf(n, SubSeq(LogBlocks, HalfL + 1, Len(LogBlocks)), SubSeq(LogFirsts, HalfL + 1, Len(LogBlocks)), 16 + HalfL, 2, Seed)
    [] n = "nodict" -> FilePages(n, SimpleDictPages, NotDict)]
InputNames == DOMAIN Disk0

(***************************************************************************)
(* Commands, and what they print: a function of the inputs.                *)
(***************************************************************************)
DataCmd(file, tab, mode) == [cmd |-> "data", sys |-> "ibdata1", file |-> file, db |-> Str("shop"), tab |-> Str(tab), mode |-> mode]
RedoCmd(files, db, tab) == [cmd |-> "redo", sys |-> "ibdata1", redo |-> files] @@ (IF db = "" THEN <<>> ELSE [db |-> Str(db)]) @@ (IF tab = "" THEN <<>> ELSE [tab |-> Str(tab)])
Logs2 == <<"ib_logfile0", "ib_logfile1">>
Prints(out, exp) == [out |-> out, exp |-> exp]
Reps(rows) == [i \in 1..Len(rows) |-> Replace(TA, rows[i])]
Commands == Eval(<<
  DataCmd("t.ibd", "t", Live) @@ Prints("exact", Reps(RowsA)),
  DataCmd("d.ibd", "t", Live) @@ Prints("exact", Reps(LiveB)),
  DataCmd("d.ibd", "t", Deleted) @@ Prints("exact", Reps(DeadB)),
  DataCmd("t.ibd", "t", Deleted) @@ Prints("silent", <<>>),
  RedoCmd(Logs2, "", "") @@ Prints("exact", OnlyOf("", "")),
  RedoCmd(Logs2, "shop2", "") @@ Prints("exact", OnlyOf("shop2", "")),
  RedoCmd(Logs2, "", "t") @@ Prints("exact", OnlyOf("", "t")),
  RedoCmd(Logs2, "shop", "t") @@ Prints("exact", OnlyOf("shop", "t")),
  RedoCmd(Logs2, "none", "") @@ Prints("silent", <<>>),
  DataCmd("missing.ibd", "t", Live) @@ Prints("failed", <<>>),
  DataCmd("t.ibd", "absent", Live) @@ Prints("failed", <<>>),
  [DataCmd("t.ibd", "t", Live) EXCEPT !.sys = "missing"] @@ Prints("failed", <<>>),
  [DataCmd("t.ibd", "t", Deleted) EXCEPT !.sys = "nodict"] @@ Prints("failed", <<>>),
  RedoCmd(<<"missing">>, "", "") @@ Prints("failed", <<>>),
  RedoCmd(<<"ib_logfile0", "missing">>, "none", "") @@ Prints("failed", <<>>),
  [RedoCmd(Logs2, "", "") EXCEPT !.sys = "missing"] @@ Prints("failed", <<>>),
  [RedoCmd(Logs2, "", "") EXCEPT !.sys = "nodict"] @@ Prints("failed", <<>>)
>>)
NCmd == Len(Commands)

(***************************************************************************)
(* Runs and their effects.                                                 *)
(***************************************************************************)
Levels == {"default", "fatal", "error", "warn", "info", "debug", "trace", "TRACE", "bogus"}
LevelOf(s) == CASE s \in {"trace", "TRACE"} -> 5 [] s \in {"debug", "default"} -> 4 [] s \in {"info", "bogus"} -> 3 [] s = "warn" -> 2 [] s = "error" -> 1 [] OTHER -> 0
Users == {"root", "nobody"}
Dirs == {"a", "b"}
VARIABLES disk, logs, hist, done
vars == <<disk, logs, hist, done>>
View == <<hist, done>>
Init == /\ disk = [n \in InputNames |-> 1]            \* the version of the contents
        /\ logs = [d \in Dirs |-> 0]                   \* runs which may have written there
        /\ hist = <<>> /\ done = FALSE
Run(c, lvl, dir, user, par) ==
  /\ Len(hist) < MaxRuns
  /\ logs' = [logs EXCEPT ![dir] = @ + par]
  /\ disk' = disk /\ done' = FALSE
  /\ hist' = Append(hist, [c |-> c, lvl |-> lvl, dir |-> dir, user |-> user, par |-> par])
Thin == MaxRuns <= 2
Finish == Len(hist) = MaxRuns /\ ~Thin /\ ~done /\ done' = TRUE /\ UNCHANGED <<disk, logs, hist>>
Next == IF hist = <<>>
        THEN \E c \in 1..NCmd, lvl \in Levels, dir \in Dirs, user \in Users, par \in {1, 3} :
               (par = 1 \/ (dir = "a" /\ lvl \in {"default", "fatal"})) /\ Run(c, lvl, dir, user, par)
        ELSE Finish \/ \E c \in 1..NCmd, lvl \in Levels, dir \in Dirs, user \in Users, par \in {1, 2} :
               \* later runs of breadth-first exploration: the level and the directory follow from the first run
               /\ Thin => LET h == hist[1]
                              k == R(Seed + Len(hist) * 977 + c * 31 + h.c * 7 + LevelOf(h.lvl) + (IF h.dir = "a" THEN 400 ELSE 0) + (IF h.user = "root" THEN 9000 ELSE 0), 5, 36)
                          IN /\ par = 1 /\ h.par = 1
                             /\ lvl = (<<"default", "fatal", "error", "warn", "info", "debug", "trace", "TRACE", "bogus">>)[1 + (k % 9)]
                             /\ dir = (IF (k \div 9) % 2 = 0 THEN "a" ELSE "b") /\ user = (IF k \div 18 = 0 THEN "root" ELSE "nobody")
                             /\ (Deep = 1 \/ R(Seed + k * 37 + c, 7, 5) = 0)
               /\ Run(c, lvl, dir, user, par)
ReadOnly == disk = [n \in InputNames |-> 1]
OnlyLogs == [][(hist = hist' => logs = logs') /\ \A d \in Dirs : logs'[d] # logs[d] => hist'[Len(hist')].dir = d]_vars

\* The run, for the driver.
RunOf(h) == LET c == Commands[h.c]
                \* failures are reported at every level above the lowest
                out == IF c.out = "failed" THEN (IF h.lvl = "fatal" THEN "nothing" ELSE "diag") ELSE c.out
            IN [c EXCEPT !.out = out] @@ [lvl |-> h.lvl, logdir |-> h.dir, user |-> h.user, par |-> h.par, strace |-> Len(hist) = 1 /\ h.user = "root" /\ h.par = 1 /\ h.dir = "a" /\ h.lvl \in {"trace", "default"}]
Case21 == [id |-> "C21-#", d |-> "runs " \o ToString([i \in 1..Len(hist) |-> hist[i]]), guard |-> TRUE,
           files |-> [i \in 1..Cardinality(InputNames) |-> [n |-> SetToSeq(InputNames)[i], ref |-> SetToSeq(InputNames)[i], copy |-> TRUE]],
           runs |-> [i \in 1..Len(hist) |-> RunOf(hist[i])]]
Emit == IF hist = <<>> THEN \A n \in InputNames : EmitShared(Disk0[n])
        ELSE ((Thin \/ done) => EmitCase(Case21))
=============================================================================
