-------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* How a model hands a behaviour to the driver: a line of JSON with the    *)
(* files, the runs of the tool on them, and what the runs have to print.   *)
(***************************************************************************)
EXTENDS Dict, Json

CONSTANTS Seed, Deep     \* the seed of random choices; 1 for thorough runs

EmitCase(c)    == PrintT(ToJson([case |-> c]))
EmitShared(f)  == PrintT(ToJson([shared |-> f]))

FilePages(n, np, chunks) == [n |-> n, nu |-> np, c |-> chunks]
Ref(n) == [n |-> n, ref |-> n]

\* Runs of the tool on a table file.
DataRun(sys, file, t, mode, exp) ==
  [cmd |-> "data", sys |-> sys, file |-> file, db |-> t.db, tab |-> t.name, mode |-> mode,
   out |-> "exact", exp |-> exp]
Live == ""
Deleted == "RecoveryData"

\* The table's file with these leaf pages.
TabFileOf(t, pages, salt) == FilePages("t.ibd", 3 + Len(pages), TabFile(t, pages, salt))
DictFileOf(ts, salt) == FilePages("ibdata1", SimpleDictSize(ts), SimpleDict(ts, salt))

\* Rows spread over pages, as many on each as fit.
Room == 15800
Pack(t, fmt, rows, salt) ==    \* << rows of the first page, ... >>
  FoldLeft(LAMBDA acc, r :
             LET n == RecSize(TabRec(t, r, fmt, FALSE, salt), fmt) + 1
             IN IF acc.room >= n THEN [room |-> acc.room - n, out |-> [acc.out EXCEPT ![Len(acc.out)] = Append(@, r)]]
                ELSE [room |-> Room - n, out |-> Append(acc.out, <<r>>)],
           [room |-> Room, out |-> << <<>> >>], rows).out
RowsPages(t, no, fmt, rows, salt) ==
  LET ps == Pack(t, fmt, rows, salt)
  IN [j \in 1..Len(ps) |-> RowsPage(t, no + j - 1, fmt, ps[j], salt + j * 1000)]

\* Some rows, all live, read without recovery mode.
RowsCase(id, d, t, fmt, rows, salt) ==
  [id |-> id, d |-> d,
   files |-> <<DictFileOf(<<t>>, salt), TabFileOf(t, RowsPages(t, 3, fmt, rows, salt), salt)>>,
   runs |-> <<DataRun("ibdata1", "t.ibd", t, Live, [i \in 1..Len(rows) |-> Replace(t, rows[i])])>>]

DB == Str("shop")
TB == Str("t")
ID == UCol(Str("id"), "int", 4, TRUE)
Id(n) == W(U4(n))
TabS(cols, key) == Tab(40, 23, DB, TB, cols, key)

Fmts == <<"C", "R">>

=============================================================================
