-------------------------------- MODULE C07 --------------------------------
(***************************************************************************)
(* C07: dates and times.  A state is a column type, role, row format and a *)
(* class of values; the behaviour stores the values in rows of one page.   *)
(***************************************************************************)
EXTENDS Redo

\* <<kind, fractional digits>>
DateTypes == {<<"date", 0>>, <<"year", 0>>}
TimeTypes == {<<k, f>> : k \in {"time", "datetime", "timestamp"}, f \in 0..6}

DaysIn(y, m) == IF m = 2 THEN (IF (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0 THEN 29 ELSE 28)
                ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
Frac(f, s, i) == IF f = 0 THEN 0 ELSE R(s, 900 + i, 10^f)
FracMax(f) == 10^f - 1

\* Dates: every year (a chunk of them), every day of some years, extremes.
DateOf(cl, i, s) ==
  IF cl >= 1 /\ cl <= 40
  THEN LET y == (cl - 1) * 250 + i - 1   m == 1 + R(s, y, 12) IN <<y, m, 1 + R(s + y, 3, DaysIn(y, m))>>
  ELSE IF cl = 41 THEN LET m == 1 + ((i - 1) \div 31)   d == 1 + ((i - 1) % 31)
                       IN <<2020, m, IF d > DaysIn(2020, m) THEN DaysIn(2020, m) ELSE d>>
  ELSE << <<0, 0, 0>>, <<9999, 12, 31>>, <<1000, 1, 1>>, <<0, 1, 1>>, <<1, 1, 1>>, <<2019, 0, 0>>, <<2019, 12, 0>>, <<999, 9, 9>>,
          <<1970, 1, 1>>, <<2038, 1, 19>>, <<99, 12, 31>>, <<2000, 2, 29>>, <<4096, 8, 16>>, <<8191, 12, 31>>, <<8192, 1, 1>>>>[i]
DateCount(cl) == IF cl <= 40 THEN 250 ELSE IF cl = 41 THEN 372 ELSE 15
DateClasses == 1..42

\* Clock times.
Clock(i, s) == IF i <= 24 THEN <<i - 1, R(s, i, 60), R(s, i + 100, 60)>>
               ELSE IF i <= 84 THEN <<R(s, i, 24), i - 25, R(s, i + 100, 60)>>
               ELSE IF i <= 144 THEN <<R(s, i, 24), R(s, i + 100, 60), i - 85>>
               ELSE IF i = 145 THEN <<0, 0, 0>> ELSE IF i = 146 THEN <<23, 59, 59>>
               ELSE IF i = 147 THEN <<12, 0, 0>> ELSE IF i = 148 THEN <<12, 59, 59>>
               ELSE IF i = 149 THEN <<0, 0, 1>> ELSE IF i = 150 THEN <<11, 59, 59>>
               ELSE <<R(s, i, 24), R(s, i + 100, 60), R(s, i + 200, 60)>>

FracOf(f, s, i) == IF i % 5 = 0 THEN 0 ELSE IF i % 7 = 0 THEN FracMax(f) ELSE IF f = 0 THEN 0 ELSE 1 + R(s, 900 + i, 10^f - 1)

DateTimeOf(cl, i, f, s) ==
  LET d == DateOf(cl, i, s)
      c == IF d = <<0, 0, 0>> THEN <<0, 0, 0>> ELSE Clock(1 + (i % 200), s + cl)
  IN d \o c \o <<IF d = <<0, 0, 0>> THEN 0 ELSE FracOf(f, s, i)>>

\* Times: every hour of both signs.
TimeOf(cl, i, f, s) ==
  CASE cl <= 4 -> LET h == (cl - 1) * 220 + i - 1
                      neg == (h + cl) % 2 = 0
                      m == 1 + R(s, i, 59)   sec == R(s, i + 50, 60)
                      fr == IF h >= 838 THEN 0 ELSE FracOf(f, s, i)
                  IN <<neg, IF h > 838 THEN 838 ELSE h, m, sec, fr>>
    [] cl <= 8 -> LET h == (cl - 5) * 220 + i - 1
                      neg == (h + cl) % 2 = 0
                      m == 1 + R(s, i + 9, 59)   sec == R(s, i + 60, 60)
                  IN <<neg, IF h > 838 THEN 838 ELSE h, m, sec, IF h >= 838 THEN 0 ELSE FracOf(f, s, i + 1)>>
    [] cl = 9 -> LET c == Clock(i, s) IN <<i % 2 = 0 /\ c # <<0, 0, 0>>, c[1], c[2], c[3], 0>>
    [] cl = 10 -> <<(FALSE), 0, 0, 0, 0>>
    [] cl = 11 -> << <<FALSE, 838, 59, 59, 0>>, <<TRUE, 838, 59, 59, 0>>, <<TRUE, 0, 0, 1, 0>>, <<FALSE, 0, 0, 1, 0>>,
                     <<TRUE, 1, 0, 0, 0>>, <<TRUE, 24, 0, 0, 0>>, <<FALSE, 24, 0, 0, 0>>, <<TRUE, 100, 0, 0, 0>>,
                     <<FALSE, 99, 59, 59, 0>>, <<FALSE, 100, 0, 0, 0>>, <<TRUE, 512, 0, 0, 0>>, <<FALSE, 511, 59, 59, 0>>,
                     <<TRUE, 0, 1, 0, 0>>, <<TRUE, 837, 59, 59, FracMax(f)>>, <<TRUE, 0, 0, 1, FracMax(f)>>,
                     <<FALSE, 837, 59, 59, FracMax(f)>>, <<TRUE, 9, 59, 59, FracMax(f) \div 2>> >>[i]
TimeCount(cl) == IF cl <= 8 THEN 220 ELSE IF cl = 9 THEN 200 ELSE IF cl = 10 THEN 1 ELSE 17
TimeClasses == 1..11

(***************************************************************************)
(* Time zones: a zone is a sequence of <<from (days since 1970), seconds   *)
(* into the day, offset>>; the driver runs the tool in that zone.          *)
(***************************************************************************)
Zones == [
  utc   |-> << <<0, 0, 0>> >>,
  india |-> << <<0, 0, 19800>> >>,
  west  |-> << <<0, 0, -39600>> >>,
  east  |-> << <<0, 0, 50400>> >>,
  \* a zone with summer time
  summer |-> << <<0, 0, 3600>>, <<DaysFromCivil(2019, 3, 31), 3600, 7200>>, <<DaysFromCivil(2019, 10, 27), 3600, 3600>>,
                <<DaysFromCivil(2020, 3, 29), 3600, 7200>>, <<DaysFromCivil(2020, 10, 25), 3600, 3600>> >> ]
ZoneNames == {"utc", "india", "west", "east", "summer"}

W4(n) == IF n >= 0 THEN U4(n) ELSE Neg(U4(0 - n))
\* A TZif (version 1) file: types are standard and summer time.
TZif(z) ==
  LET tr == Tail(z)
      base == z[1][3]
      typ(o) == IF o = base THEN 0 ELSE 1
      other == IF tr = <<>> THEN base ELSE tr[1][3]
  IN <<84, 90, 105, 102>> \o Zeros(16) \o U4(0) \o U4(0) \o U4(0) \o U4(Len(tr)) \o U4(2) \o U4(8)
     \o Cat([i \in 1..Len(tr) |-> DaySecWord(tr[i][1], tr[i][2])])
     \o [i \in 1..Len(tr) |-> typ(tr[i][3])]
     \o W4(base) \o <<0, 0>> \o W4(other) \o <<1, 4>>
     \o Str("STD") \o <<0>> \o Str("DST") \o <<0>>

\* The offset in force at local time t (the values avoid the skipped and the
\* repeated hours).
After(t, tr, o) == LET d == DaysFromCivil(t[1], t[2], t[3])
                       s == (t[4] * 60 + t[5]) * 60 + t[6]
                       \* compare with the transition in local time before it
                       ts == tr[2] + o
                       td == tr[1]
                   IN d > td \/ (d = td /\ s >= ts)
OffsetAt(z, t) == FoldLeft(LAMBDA o, tr : IF After(t, tr, o) THEN tr[3] ELSE o, z[1][3], Tail(z))

StampDate(cl, i, s) ==
  IF cl = 1 THEN LET y == 1970 + ((i - 1) % 68)  m == 1 + R(s, i, 12) IN <<y, m, 2 + R(s + i, 3, DaysIn(y, m) - 1)>>
  ELSE IF cl = 2 THEN LET m == 1 + ((i - 1) \div 31) d == 1 + ((i - 1) % 31)
                      IN <<2019 + (i % 2), m, IF d > DaysIn(2019, m) THEN DaysIn(2019, m) ELSE d>>
  ELSE LET m == 1 + ((i - 1) % 12) IN <<2019 + (i % 2), m, IF i % 3 = 0 THEN 1 ELSE DaysIn(2019, m)>>
StampOf(cl, i, f, zn, s) ==
  IF cl = 3 /\ i = 1 THEN <<0, 0, 0, 0, 0, 0, 0, 0>>
  ELSE LET d == StampDate(cl, i, s)
           c0 == Clock(1 + (i % 200), s + cl)
           \* keep clear of the hours around the changes of summer time
           c == IF zn = "summer" /\ c0[1] \in {1, 2, 3} THEN <<4, c0[2], c0[3]>> ELSE c0
           t == d \o c
       IN t \o <<FracOf(f, s, i), OffsetAt(Zones[zn], t)>>
StampCount(cl) == IF cl = 1 THEN 250 ELSE IF cl = 2 THEN 372 ELSE 200
\* The extremes, in UTC.
StampEnds == << <<1970, 1, 1, 0, 0, 1, 0, 0>>, <<2038, 1, 19, 3, 14, 7, 0, 0>>, <<2001, 9, 9, 1, 46, 40, 0, 0>>,
                <<2000, 2, 29, 12, 0, 0, 0, 0>>, <<2000, 2, 29, 0, 0, 0, 0, 0>>, <<2000, 12, 31, 23, 59, 59, 0, 0>>,
                <<0, 0, 0, 0, 0, 0, 0, 0>> >>

ValuesOf(s) ==
  LET k == s.ty[1]  f == s.ty[2]
  IN CASE k = "year" -> [i \in 1..256 |-> T(<<IF i = 1 THEN 0 ELSE 1899 + i>>)]
       [] k = "date" -> [i \in 1..DateCount(s.cl) |-> T(DateOf(s.cl, i, Seed))]
       [] k = "datetime" -> [i \in 1..DateCount(s.cl) |-> T(DateTimeOf(s.cl, i, f, Seed))]
       [] k = "time" -> [i \in 1..TimeCount(s.cl) |-> T(TimeOf(s.cl, i, f, Seed))]
       [] k = "timestamp" -> IF s.cl = 4 THEN [i \in 1..Len(StampEnds) |-> T(StampEnds[i])]
                             ELSE [i \in 1..StampCount(s.cl) |-> T(StampOf(s.cl, i, f, s.zone, Seed))]

ClassesOf(k) == CASE k = "year" -> {1} [] k \in {"date", "datetime"} -> DateClasses
                  [] k = "time" -> TimeClasses [] k = "timestamp" -> 1..4

VARIABLE st
Init == st \in [ph : {"type"}, ty : DateTypes \cup TimeTypes]
Next == /\ st.ph = "type"
        /\ \E role \in {"notnull", "null", "key"}, fmt \in {"C", "R"}, cl \in ClassesOf(st.ty[1]), zone \in ZoneNames :
              \* the zone matters for timestamps only
              /\ (st.ty[1] # "timestamp" \/ cl = 4) => zone = "utc"
              \* quick: the many years once per type, in varying roles
              /\ (Deep = 0 /\ st.ty[1] \in {"date", "datetime"} /\ cl <= 40) =>
                    /\ (st.ty[2] = cl % 7 \/ st.ty[2] = 0 \/ st.ty[1] = "date")
                    /\ role = (CASE cl % 3 = 0 -> "notnull" [] cl % 3 = 1 -> "null" [] OTHER -> "key")
                    /\ fmt = (IF (cl \div 3) % 2 = 0 THEN "C" ELSE "R")
              /\ (Deep = 0 /\ st.ty[1] = "timestamp" /\ zone # "utc") =>
                    (role = "notnull" /\ (fmt = "C") <=> (cl % 2 = 0))
              /\ st' = [ph |-> "case", ty |-> st.ty, role |-> role, fmt |-> fmt, cl |-> cl, zone |-> zone]

ColOf(s) == Col(Str("v"), s.ty[1], IF s.ty[1] = "year" THEN 1 ELSE s.ty[2], s.role # "null")
Before == Col(Str("a"), "int", 2, TRUE)
Behind == Col(Str("z"), "varchar", 20, FALSE)
TabOf(s) == IF s.role = "key" THEN TabS(<<Before, ColOf(s), Behind>>, <<2>>)
            ELSE TabS(<<ID, Before, ColOf(s), Behind>>, <<1>>)
RowsOf(s) ==
  LET vs == ValuesOf(s)
      row(i) == LET core == <<W(U2(3000 + i)), vs[i], S(Str("after") \o Dig(i, 3))>>
                IN IF s.role = "key" THEN core ELSE <<Id(i)>> \o core
      base == [i \in 1..Len(vs) |-> row(i)]
  IN IF s.role = "null" THEN base \o <<<<Id(9999), W(U2(1)), Null, S(Str("null"))>>, row(1)>> ELSE base

Name(s) == "C07-" \o s.ty[1] \o ToString(s.ty[2]) \o "-" \o s.role \o "-" \o s.fmt \o "-" \o ToString(s.cl) \o "-" \o s.zone

Case(s) ==
  LET t == TabOf(s)
      base == RowsCase2(Name(s), "dates and times " \o Name(s), t, s.fmt, RowsOf(s), Seed + 3)
      tz == TZif(Zones[s.zone])
  IN IF s.zone = "utc" THEN base
     ELSE [base EXCEPT !.files = Append(@, [n |-> "zone", u |-> 1, nu |-> Len(tz), c |-> << <<0, 0, tz>> >>]),
                       !.runs = [i \in 1..Len(@) |-> [tz |-> "zone"] @@ @[i]]]
Emit == st.ph = "case" => EmitCase(Case(st))

=============================================================================
