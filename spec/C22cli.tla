------------------------------- MODULE C22cli -------------------------------
(***************************************************************************)
(* C22, through the commands: the option LogLevel.  A case runs a command  *)
(* at all levels.  What the tool has to tell is up to the tool, but        *)
(*   - a level shows no message of a less severe one,                      *)
(*   - names of the same level show the same messages,                     *)
(*   - a wider level shows the messages of the narrower ones, and          *)
(*   - what is an error on standard error is in the log.                   *)
(***************************************************************************)
EXTENDS Redo

LevelNames == << <<"fatal", 0>>, <<"FATAL", 0>>, <<"error", 1>>, <<"Error", 1>>, <<"warn", 2>>, <<"WARN", 2>>, <<"info", 3>>, <<"INFO", 3>>, <<"nosuch", 3>>,
                 <<"warning", 3>>, <<"iNfo", 3>>, <<"debug", 4>>, <<"DEBUG", 4>>, <<"dEBUg", 4>>, <<"trace", 5>>, <<"TRACE", 5>>, <<"Trace", 5>>, <<"9", 3>> >>
\* The kinds of messages (letters of the log lines) of a level.
Letters(l) == IF l >= 3 THEN "IWEF" ELSE IF l = 2 THEN "WEF" ELSE IF l = 1 THEN "EF" ELSE "F"
Narrower == \A i, j \in 1..Len(LevelNames) : LevelNames[i][2] <= LevelNames[j][2] => Len(Letters(LevelNames[i][2])) <= Len(Letters(LevelNames[j][2]))

TA == TU
RowA(n) == <<Id(n), S(Str("v")), Null, S(Str("w"))>>
Rows == Eval([n \in 1..4 |-> RowA(n)])
Items == <<Marker(1), Plain(<<MultiEnd>>), Marker(2), UpdItemO(TU, URow(1), <<<<2, Null>>>>, [Opt0 EXCEPT !.typ = InsertRec, !.cmpl = 0])>>
Files == <<DictFileOf(<<TA>>, Seed), TabFileOf(TA, RowsPages(TA, 3, "C", Rows, Seed), Seed), LogFile("log0", Items, Seed),
           [n |-> "dir", kind |-> "dir"], [n |-> "empty", u |-> 1, nu |-> 0, c |-> <<>>]>>
Data(sys, file, tab, mode) == [cmd |-> "data", sys |-> sys, file |-> file, db |-> Str("shop"), tab |-> Str(tab), mode |-> mode]
RedoOf(sys, files) == [cmd |-> "redo", sys |-> sys, redo |-> files]
Good(exp) == [out |-> "exact", exp |-> exp]
Bad == [out |-> "nothing", exp |-> <<>>]
Commands == <<Data("ibdata1", "t.ibd", "t", Live) @@ Good([i \in 1..4 |-> Replace(TA, Rows[i])]),
              Data("ibdata1", "t.ibd", "t", Deleted) @@ Good(<<>>),
              Data("ibdata1", "t.ibd", "u", Live) @@ Bad, Data("ibdata1", "dir", "t", Live) @@ Bad, Data("none", "t.ibd", "t", Live) @@ Bad,
              Data("empty", "t.ibd", "t", Live) @@ Bad, Data("ibdata1", "none", "t", Deleted) @@ Bad, Data("dir", "none", "t", Deleted) @@ Bad,
              RedoOf("ibdata1", <<"log0">>) @@ Good(ExpOf(Items)),
              RedoOf("none", <<"log0">>) @@ Bad, RedoOf("dir", <<"log0">>) @@ Bad, RedoOf("empty", <<"log0">>) @@ Bad,
              RedoOf("ibdata1", <<"none">>) @@ Bad, RedoOf("ibdata1", <<"dir">>) @@ Bad>>
VARIABLE st
Init == st = 0
Next == st = 0 /\ \E c \in 1..Len(Commands) : st' = c
Case(c) == [id |-> "C22-cli-" \o ToString(c), d |-> "command " \o ToString(c) \o " at all levels", guard |-> TRUE, files |-> Files,
            runs |-> [i \in 1..Len(LevelNames) |->
              Commands[c] @@ [lvl |-> LevelNames[i][1], logdir |-> ToString(i), letters |-> Letters(LevelNames[i][2]), rank |-> LevelNames[i][2]]]]
Emit == st > 0 => EmitCase(Case(st))
=============================================================================
