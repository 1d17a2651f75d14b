-------------------------------- MODULE C22 --------------------------------
(***************************************************************************)
(* C22: the log.  The state is the configured level, the directory, the    *)
(* messages written so far, and the script of calls which led there.       *)
(* The driver makes the calls of a script in one process and looks for     *)
(* every message in the log directory.                                     *)
(***************************************************************************)
EXTENDS Gen, Randomization

CONSTANTS MaxCalls, Wide

Funcs == <<"Trace", "Debug", "Debugf", "Info", "Infof", "Warn", "Warnf", "Error", "Errorf", "Fatal", "Fatalf">>
Severity(f) == CASE f = "Trace" -> 5 [] f \in {"Debug", "Debugf"} -> 4 [] f \in {"Info", "Infof"} -> 3 [] f \in {"Warn", "Warnf"} -> 2
                 [] f \in {"Error", "Errorf"} -> 1 [] f \in {"Fatal", "Fatalf"} -> 0
IsFormat(f) == f \in {"Debugf", "Infof", "Warnf", "Errorf", "Fatalf"}
\* The names of levels: every letter case, and names of no level.
Known == << <<"fatal", 0>>, <<"FATAL", 0>>, <<"Fatal", 0>>, <<"fATAL", 0>>, <<"error", 1>>, <<"ERROR", 1>>, <<"Error", 1>>, <<"eRroR", 1>>,
            <<"warn", 2>>, <<"WARN", 2>>, <<"Warn", 2>>, <<"warN", 2>>, <<"info", 3>>, <<"INFO", 3>>, <<"Info", 3>>, <<"iNFo", 3>>,
            <<"debug", 4>>, <<"DEBUG", 4>>, <<"Debug", 4>>, <<"debUG", 4>>, <<"trace", 5>>, <<"TRACE", 5>>, <<"Trace", 5>>, <<"tRAcE", 5>> >>
Unknown == <<"", "warning", "err", "fatall", "0", "5", "verbose", "all", "none", "debug ", " trace", "traces", "FATAL!", "tracE2", "notice">>
LevelNames == [i \in 1..(Len(Known) + Len(Unknown)) |-> IF i <= Len(Known) THEN Known[i] ELSE <<Unknown[i - Len(Known)], 3>>]
NNames == Len(LevelNames)
Plain5 == {1, 5, 9, 13, 17, 21}       \* one name of every level

VARIABLES level, dir, fixed, script, written, dead
vars == <<level, dir, fixed, script, written, dead>>
View22 == <<script, dead>>
Init == level = -1 /\ dir = "" /\ fixed = FALSE /\ script = <<>> /\ written = <<>> /\ dead = FALSE

\* Setting the level; the directory may change as long as nothing is written.
SetLevel(i, d) ==
  /\ ~dead /\ level' = LevelNames[i][2] /\ dir' = d
  /\ (fixed => d = dir)
  /\ script' = Append(script, [op |-> "init", name |-> LevelNames[i][1], dir |-> d])
  /\ UNCHANGED <<fixed, written, dead>>
Enabled(f) == Severity(f) <= level
\* The arguments of the n-th call: a mark which tells n, with numbers and text around it.
MarkOf(n) == "m" \o ToString(n) \o "m"
ArgsOf(n) == CASE n % 4 = 0 -> <<MarkOf(n)>> [] n % 4 = 1 -> <<MarkOf(n), "text", n>> [] n % 4 = 2 -> <<n, MarkOf(n)>> [] OTHER -> <<"100%", MarkOf(n), "%d">>
FmtOf(n) == CASE n % 4 = 0 -> "%s" [] n % 4 = 1 -> "%s %s of %v" [] n % 4 = 2 -> "%v and %v!" [] OTHER -> "%s: %v (%s)"
Log(f) ==
  /\ ~dead /\ level >= 0
  /\ LET n == Len(script) + 1
     IN /\ script' = Append(script, [op |-> "log", name |-> f, args |-> ArgsOf(n)] @@ (IF IsFormat(f) THEN [fmt |-> FmtOf(n)] ELSE <<>>))
        /\ written' = IF Enabled(f) THEN Append(written, n) ELSE written
        /\ fixed' = (fixed \/ Enabled(f))
        /\ dead' = (Severity(f) = 0)
  /\ UNCHANGED <<level, dir>>
Flush == /\ ~dead /\ level >= 0 /\ script' = Append(script, [op |-> "flush"]) /\ UNCHANGED <<level, dir, fixed, written, dead>>

\* Wide = 0: short histories, all of them; Wide = 1: long random ones.
Names(n) == IF Wide = 1 THEN RandomSubset(2, 1..NNames) ELSE IF n = 0 THEN 1..NNames ELSE Plain5 \cup {26}
DirsAt(n) == IF Wide = 0 THEN (IF n = 0 THEN {"a"} ELSE {"a", "b"}) ELSE IF fixed THEN {dir} ELSE {"a", "b"}
Next == /\ Len(script) < MaxCalls
        /\ IF Wide = 1 /\ Len(script) = MaxCalls - 1 THEN Flush \/ Log("Fatal") \/ Log("Fatalf")
           ELSE \/ \E i \in Names(Len(script)), d \in DirsAt(Len(script)) : SetLevel(i, d)
                \/ \E k \in 1..Len(Funcs) : (Wide = 0 \/ k < 10) /\ Log(Funcs[k])
                \/ Wide = 1 /\ Flush

\* A message which is written was enabled when it was logged, and no other.
LevelAt(s, n) == LET before == SelectSeq([i \in 1..(n - 1) |-> i], LAMBDA i : s[i].op = "init")
                     nm == s[before[Len(before)]].name
                 IN LevelNames[CHOOSE i \in 1..NNames : LevelNames[i][1] = nm][2]
Gated == \A n \in 1..Len(script) : script[n].op = "log" =>
           (Contains(written, n) <=> Severity(script[n].name) <= LevelAt(script, n))
FatalEnds == dead => script[Len(script)].name \in {"Fatal", "Fatalf"}
\* Whoever sets a level again as it is changes nothing.
Ordered == \A i \in 1..Len(written) - 1 : written[i] < written[i + 1]

LogCase == [id |-> "C22-#", d |-> "calls of the log", guard |-> TRUE, files |-> <<>>,
  runs |-> <<[cmd |-> "log", out |-> "log", script |-> script, logdir |-> dir, dead |-> dead,
              written |-> [i \in 1..Len(written) |-> MarkOf(written[i])],
              silent |-> LET n == SelectSeq([i \in 1..Len(script) |-> i], LAMBDA i : script[i].op = "log" /\ ~Contains(written, i)) IN [i \in 1..Len(n) |-> MarkOf(n[i])]]>>]
\* Short histories end with a message, long ones are complete.
Emit == Len(script) > 0 /\ (dead \/ Len(script) = MaxCalls) /\ (Wide = 1 \/ script[Len(script)].op = "log") => EmitCase(LogCase)
=============================================================================
