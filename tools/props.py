import json
P=[]
def p(id,title,st,over,qt,why,files,state,mech,obs,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook)))
IB="recovery/ibdata/parse.go"; FM="recovery/ibdata/format.go"; ST="recovery/ibdata/structure.go"; UT="recovery/utils/utils.go"
RP="recovery/redo/parse.go"; RM="recovery/redo/mlog.go"; CM="cmd/db-recovery/command.go"; LG="recovery/logs/logs.go"
OUT=["standard output of the command line tool"]
NOFIX="The repository's page and redo tests need a MySQL fixture that is not present and assert nothing about the output; "
p("C01","Reading a table prints exactly its live records",
 "Reading a table file without recovery mode prints exactly one replace statement for every record linked on the record list of each leaf page of the table's clustered index, pages in file order and records in list order. Records that are not on that list (deleted and moved to a page's free list, or left in unlinked heap space) are never printed. This holds however inserts, deletes, updates and page splits have laid the records out in the pages.",
 ["histories","inputs"],"every sequence of inserts, updates, purges, slot re-use and page splits on the pages of a table file, both row formats, any number of pages, any heap layout and (signed, relative or absolute) next-record distances",
 NOFIX+"even with it, one insert and one update are all it contains: no deletions, no chains that go backwards, no second page.",
 [IB,FM],[("record list","linked list of records from infimum to supremum","data pages"),("free list","linked list of deleted records","data pages")],
 [("list traversal",IB+": parsePage"),("page selection",IB+": ParseDataPage"),("statement printing",FM+": makeReplaceIntoStatement")],OUT)
p("C02","Recovery mode prints exactly the deleted records still on the pages",
 "In recovery mode, the tool prints exactly one replace statement for every record on the free list of each leaf page of the table's clustered index, in list order and with the values stored in that record. It never prints a record that is still on a live record list. A page without deleted records contributes nothing.",
 ["histories","inputs"],"every sequence of inserts, updates, purges, slot re-use and page splits that leaves records on free lists, both row formats, any number of pages",
 NOFIX+"the free list content depends on the whole history of a page; the tests sample at most one page that has no deleted record.",
 [IB,FM,CM],[("PAGE_FREE/PAGE_GARBAGE","head of the free list and bytes in it","page header")],
 [("page filter",IB+": ParseDataPage"),("traversal from the free list head",IB+": parsePage"),("mode flag",CM+": FromDataFile")],OUT)
p("C03","Only leaf pages of the clustered index ever yield rows",
 "In both modes, statements come only from index pages at level zero that do not carry a secondary index's maximum transaction id. Internal index pages, secondary index leaf pages, and pages of every other type (free, inode, allocation, undo, blob, zero-filled) contribute nothing and do not disturb the rows of the pages around them, whatever bytes they contain.",
 ["inputs"],"every mixture and order of page types, levels, transaction ids and page contents in a table file, in both modes",
 NOFIX+"every mixture of page kinds has to be considered, with contents that resemble rows.",
 [IB],[("page type, level, max trx id","decide whether a page holds rows","page headers")],
 [("page filter",IB+": ParseDataPage"),("header parsing",IB+": parseFilHeader, parsePageHeader")],OUT)
p("C04","Every value is restored into the column it was stored for",
 "Each printed replace statement lists exactly the table's user columns in their declared order, each with the value stored for that column. This holds wherever the key columns are declared and whatever their order inside the key, for single and multi-column primary keys, for tables clustered on a unique non-null key, and for tables with no key at all; hidden system columns are used to locate values and never printed.",
 ["inputs","programs"],"every table definition (number and order of columns, key columns and key order, nullability, secondary indexes) and every row of it",
 NOFIX+"its tables all have a single-column key declared first, the one case where storage order equals declared order.",
 [IB,FM],[("physical column order","key columns, system columns, other columns","table map built from the dictionary")],
 [("key columns first",IB+": movePrimaryKeyFirst, moveColumns2First"),("system columns",IB+": addInternalColumns"),("declared order on output",FM+": makeReplaceIntoStatement")],OUT)
p("C05","The dictionary is rebuilt the same from any physical arrangement",
 "The table definitions used for recovery are exactly those stored in the system tablespace's dictionary tables: every column, index and key field is attached to its own table, ordered by its recorded position. The result does not depend on how the dictionary rows are spread over pages, on the physical order of those pages, on whether a dictionary tree has internal pages, on how many other tables there are, on doublewrite copies or unrelated pages elsewhere in the file, or on delete-marked dictionary rows.",
 ["inputs","histories"],"every set of table definitions and every placement of its dictionary rows over pages: any number of leaf pages, any physical order, root as leaf or internal page, doublewrite copies and non-index pages in the file",
 NOFIX+"a freshly created server has every dictionary table on its root page in order.",
 [IB,ST],[("table map","table id to definition","ibdata.Parse.TableMap"),("dictionary page map","index id to pages","ibdata.Parse.D")],
 [("collection of dictionary pages",IB+": parseFile, ParseDictPage"),("dictionary readers",IB+": getAllTables, getAllColumns, getAllIndexes, getAllFields"),("ordering",IB+": sortColumns")],OUT)
p("C06","Numeric values are restored exactly for every width and sign",
 "Every integer of 1, 2, 3, 4 or 8 bytes, signed or unsigned, every bit-field of 1 to 64 bits, every enum or set index and every float or double is printed as an SQL literal that denotes exactly the stored value. This holds over the whole range of each type, including the extremes, zero and negative values, and in key as well as non-key columns.",
 ["inputs"],"every value of every integer, bit, enum, set and floating point column type",
 NOFIX+"it samples one value per type; wrap-around, sign and mask errors appear only for part of each range.",
 [UT,FM],[],[("integer decoding",UT+": GetIntValue, GetUintValue"),("type dispatch",UT+": ParseData"),("literal formatting",FM)],OUT)
p("C07","Dates and times are restored exactly to the second",
 "Every date, year, time, datetime and timestamp value that the column type can hold is printed as the literal denoting that value, to whole-second precision. Times may be negative and exceed 24 hours, datetimes cover all years from 0 to 9999, timestamps are shown on a 24-hour clock in the local time zone, and zero values come out as the zero value of the type.",
 ["inputs","configurations"],"every value of every temporal column type with any fractional precision, positive and negative times, under any local time zone offset",
 NOFIX+"errors show only for some months, hours, years or signs, which a couple of sample rows do not reach.",
 [UT],[],[("temporal decoding",UT+": ParseDate, ParseTime, ParseDateTime, ParseTimeStamp"),("type dispatch",UT+": ParseData")],OUT)
p("C08","Character and binary values are restored with exact content and length",
 "Every char, varchar, text, binary, varbinary and blob value stored in the row is printed with exactly its own bytes, from the empty value up to the longest that fits in the page, for every declared maximum length; only the trailing pad spaces of a char column may be dropped. The values of the columns before and after it are unaffected by its length.",
 ["inputs"],"every combination of declared maximum length (around 255/256) and actual length (around 127/128, 255/256 and up to page size) of neighbouring variable-length columns, and every byte content",
 NOFIX+"all its values are shorter than 128 bytes, where the two-byte length form is never used.",
 [IB,UT],[("length array","one or two bytes per variable-length column","record header")],
 [("field offsets",IB+": ibRecInitOffsetsNew, ibRecInitOffsetsOld"),("fixed or variable",UT+": GetFixedLength"),("decoding",UT+": ParseData, ParseBlob")],OUT)
p("C09","NULL is restored as NULL, and only NULL is",
 "A column is printed as NULL exactly when NULL is stored in it. An empty value, a zero value, the text NULL, or a value that follows a NULL in another column or another row is never printed as NULL, and a NULL never takes the value of another row or shifts its neighbours. This holds for any number and position of nullable columns, in data files of both row formats and in values recovered from the redo log.",
 ["inputs"],"every subset of NULLs over any number of nullable columns (across the 8-column groups of the null bitmap), every column type, both row formats, sequences of rows with alternating NULLs",
 NOFIX+"its rows contain no NULL at all.",
 [IB,UT,FM,RM,RP],[("null bitmap","one bit per nullable column","record header"),("null flags in end offsets","old row format","record header")],
 [("null bitmap walk",IB+": ibRecInitOffsetsNew"),("old format flags",IB+": ibRecInitOffsetsOld"),("row building",IB+": parseRecords"),("formatting",FM)],OUT)
p("C10","Statements are well-formed SQL and restore any byte string",
 "On a successful run, standard output consists only of complete SQL statements, one per line, and reading the literals of a statement with MySQL's quoting rules gives back exactly the stored bytes. This holds for values containing quotes, backslashes, line breaks, NUL and control-Z bytes, arbitrary binary or invalid text, for replace statements and for update statements alike, where several assignments are separated so that each one takes effect.",
 ["inputs"],"every byte content of every text column, in replace statements from data files and in the assignments and conditions of update statements from redo logs",
 "No test looks at the text of a statement; a single unescaped byte turns recovered data into a broken or different statement.",
 [UT,FM,RP],[],[("escaping",UT+": EscapeValue"),("replace formatting",FM+": makeReplaceIntoStatement"),("update formatting",RP+": makeSQL")],OUT)
p("C11","Both row formats yield the same statements for the same rows",
 "The same logical rows stored in the compact (or dynamic) row format and in the redundant row format produce the same restored values, in both modes. The row format is recognised page by page and neither the heap flags nor the short or long offset form of redundant rows changes the result.",
 ["inputs","configurations"],"every table definition and row set stored in either row format, with one-byte and two-byte offset arrays, with and without NULLs",
 NOFIX+"its user tables use one row format only.",
 [IB,UT],[("format flag","top bit of the heap record count","page header")],
 [("format test",UT+": PageIsCompact"),("offset computation",IB+": ibRecInitOffsetsOld, ibRecInitOffsetsNew")],OUT)
p("C12","Every redo record type is consumed by exactly its own length",
 "Whatever redo log records precede, separate or follow them, the update statements recovered from a redo log are those of its undo records alone. Every record type of the supported log format, with every encoding of its space id, page number and body, is skipped by exactly its own length so that the next record is read at its first byte.",
 ["histories","inputs"],"every sequence of redo records of all supported types, single or grouped in mini-transactions, with every compressed-integer width of space id, page number and body fields",
 NOFIX+"a log contains tens of record types with variable layouts, and one that is mis-sized hides every later record.",
 [RP,RM,UT],[("stream position","offset of the next record","redo parser")],
 [("record dispatch",RP+": parseRedoBlockData"),("record bodies",RM),("compressed integers",UT+": MatchParseCompressed, MatchGetCompressedSize, MatchUllReadComPressed"),("index descriptions",UT+": ParseIndex, ParseInsertRecord")],OUT)
p("C13","Log block and file boundaries are invisible to redo recovery",
 "The statements recovered from a redo log depend only on the record stream written to it. Splitting the same stream differently over 512-byte blocks and over any number of log files given in order, with records crossing block and file boundaries at any byte and blocks filled partly or completely, gives the same statements.",
 ["inputs","configurations"],"every division of a record stream into log blocks and log files, every alignment of a record relative to a boundary",
 NOFIX+"where records fall relative to block boundaries in one fixture is accidental.",
 [RP,UT,CM],[("block data length","bytes used in a block including its header","block header")],
 [("block assembly",RP+": ParseRedoLogs, readRedoBlockHeader"),("file list",CM+": FromRedoFile")],OUT)
p("C14","A recovered update names the right row and restores the old values",
 "For each update undo record of a table with a primary key, the printed update statement names that table, its condition contains every primary key column with the row's key value, and it assigns to every updated column exactly the old value in the undo record and to no other column. This holds for keys of any number and order of columns, any column position and type, and every encoded width of undo number, table id, transaction id and roll pointer.",
 ["inputs","histories"],"every table definition with a primary key, every set of updated columns and old values, every variable-width header field of the undo record",
 NOFIX+"it contains one update of one column, and nothing compares the statement with the old row.",
 [RM,RP,UT],[("undo record","header, key values, update vector","redo record body")],
 [("undo decoding",RM+": mlogUndoInsert"),("key and column lookup",RM+": getPrimaryKey, getColumnsByName, getColumnByPos"),("wide integers",UT+": MatchUllReadMuchCompressed, MachUllGetMuchCompressedSize, MatchUllReadComPressed"),("formatting",RP+": makeSQL")],OUT)
p("C15","One statement per update, in log order, and none for anything else",
 "Redo recovery prints one statement for each update undo record of an existing, not deleted row of a known table with a primary key, in the order the records were logged. Undo records of inserts, of delete markings, of updates that revive deleted rows, and of tables missing from the dictionary print nothing, and no statement carries values over from another record.",
 ["histories"],"every sequence of undo records of all kinds over several tables, including repeated updates of the same row",
 NOFIX+"it holds one update; order, duplication and leakage between records need longer histories.",
 [RM,RP],[("undo record type","insert, update, update of deleted, delete mark","undo record")],
 [("kind dispatch",RM+": mlogUndoInsert"),("table lookup",RM+": getTableByTableID")],OUT)
p("C16","Redo recovery prints only what the name filter selects",
 "When a database name, a table name or both are given for redo recovery, statements are printed for exactly the tables whose database and table names equal every name that was given; with neither given, all tables are printed. Names that are prefixes, equal in another database, or different in letter case do not match, and filtering never changes the statements that are selected.",
 ["configurations","histories"],"every combination of filter values and tables sharing database or table names, over any mixture of their undo records",
 "No test sets a filter; the interesting cases need several tables with overlapping names in one log.",
 [RM,RP,CM],[("filter","requested database and table name","redo.Parse")],
 [("filter decision",RM+": mlogUndoInsert"),("options",CM+": FromRedoFile")],OUT)
p("C17","A torn redo log yields a clean prefix",
 "If a redo log ends early, after any byte of the record stream, recovery ends normally and prints exactly the statements of the update records completely contained in what is left, unchanged. A record cut off by the end of the log never produces a statement, a made-up value, a crash or a hang.",
 ["crash_points","histories"],"every log history cut after every byte of its record stream, and the last log file cut short at any size",
 "Crash points are exactly what a fixture from a cleanly running server cannot contain.",
 [RP,RM,UT],[("end of stream","number of valid bytes","log blocks")],
 [("block assembly",RP+": ParseRedoLogs"),("short-data handling",RM+": mlogUndoInsert and the other record handlers"),("reads",UT+": ReadNextBytes, MatchParseCompressed")],OUT+["exit status"])
p("C18","A record that cannot be decoded costs only itself",
 "An undo record that cannot be turned into a statement (unknown table, unknown column position, key or value lengths that contradict the record length, arbitrary payload bytes) is skipped by its recorded length without crashing. Every other record of the log still yields its statement unchanged and in order.",
 ["fault_sequences","inputs"],"every placement of undecodable or corrupted undo records between valid ones, with arbitrary payload bytes and lengths",
 "The tests contain no damaged record.",
 [RM,RP],[("recorded length","length of an undo record","redo record body")],
 [("containment",RM+": mlogUndoInsert")],OUT+["exit status"])
p("C19","A damaged page cannot hang, crash or falsify the rest of the file",
 "Whatever the contents of a page in the table file, reading terminates without crashing, prints every record of that page at most once, and prints every record reached before the damage. All other pages yield exactly the rows they would yield if the damaged page were absent.",
 ["fault_sequences","inputs"],"every linking of a page's records (cycles, self links, links outside the page), damaged list heads and record headers, arbitrary page bytes, a file cut in the middle of a page, in both modes",
 "A recovery tool is used on damaged files; the tests have none, and a hang or a crash needs a specific corruption.",
 [IB,UT],[("record links","next-record pointers","data pages")],
 [("traversal",IB+": parsePage"),("sanity checks",IB+": checkFieldSize, ParseDataPage"),("file reading",IB+": parseFile")],OUT+["exit status"])
p("C20","Failed input is reported, never silently treated as an empty result",
 "If a file does not exist, is not readable as a file, does not contain the dictionary, or is a redo log that ends inside its own 2048-byte header, or the requested table is not in the dictionary, the tool ends without crashing, prints a diagnostic on standard output or standard error at the default log level, and prints no statement. A dictionary with damaged pages never crashes it. When the inputs are fine and simply contain nothing to print, it prints no statement and no diagnostic.",
 ["fault_sequences","configurations"],"every combination of missing, unreadable, empty, truncated or foreign input files and names that are absent, in both commands and modes",
 "No test exercises a failing input.",
 [CM,IB,RP,UT],[],[("error propagation",IB+": ParseDictPage, ParseDataPage, getTableColumnsFromDict"),("error propagation",RP+": ParseRedoLogs"),("reporting",CM+": FromDataFile, FromRedoFile")],OUT+["standard error","exit status"])
p("C21","Recovery is read-only and repeatable",
 "Running the tool never changes, creates or removes anything among its input files or in their directories; it writes only to standard output, standard error and the chosen log directory. Running it again on the same inputs gives the same statements in the same order, whatever the log level and log directory.",
 ["schedules","configurations","histories"],"every command, mode, input and log configuration, repeated runs under randomised map iteration order",
 "Nothing compares runs or looks at the inputs afterwards; map iteration order changes from run to run.",
 [IB,RP,RM,CM,LG],[("table map","iterated in random order","ibdata.Parse.TableMap")],
 [("read-only open",IB+": parseFile"),("read-only open",RP+": ParseRedoLogs"),("log directory",LG+": InitLogs")],OUT+["input files and directories"])
p("C22","A message is logged exactly when its level is enabled",
 "After the log level has been set, a message is written to the logs in the chosen directory exactly if its level is at or above the configured severity, in the order fatal, error, warn, info, debug, trace, whether the recovery succeeds or fails. Level names are accepted in any letter case, an unknown name means info, the last setting wins, and a formatted message behaves like an unformatted one of the same level.",
 ["configurations","histories"],"every sequence of level settings and messages of every level through every logging function",
 "The logging tests call each function once and assert nothing.",
 [LG,CM],[("verbosity","configured level","logs.InitLogs")],
 [("gating",LG),("level names",LG+": LevelMap, InitLogs")],["log files","standard error"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
