c("C01","Exhaustive histories of a bounded heap page state machine (insert, delete, purge, rollback, updates in place and moving, page splits, reorganisation) over one to three pages, random longer histories, both row formats; every emitted state is replayed as a file.")
c("C02","Same state machine as C01, read in recovery mode: the expected rows are the free lists, in list order.")
c("C04","All placements of key columns in tables of two to five columns, all key orders, every clustered key form (primary, unique, none), plus seeded wider tables.")
c("C05","Exhaustive small variants of dictionary contents and physical arrangements (pages, order, trees, names, delete-marked rows, doublewrite copies), seeded larger ones.")
c("C06","All widths and signs, all bit lengths and enum/set/float widths, exhaustive for one-byte values and boundary plus seeded values of wider types, in key, NOT NULL and nullable roles and both row formats.")
c("C07","Every year, day of a leap year, hour, minute, second and fraction width, five time zones with and without summer time, in three column roles and both row formats.")
c("C08","All boundary lengths times declared maxima of every character and binary type, in four roles and both formats, seeded contents.")
c("C09","All NULL patterns for small column counts, boundary counts of nullable columns up to 24, every kind of neighbour value, both formats and both modes.")
c("C10","Every byte, every pair of special bytes and seeded strings, in every quoted type, in statements of both kinds.")
c("C11","The same reachable heap states and the same typed rows written in both formats with short and long offsets; both must give the same rows.")
c("C12","Every record type of the format with operands of every encoded width, alone between update records and in all pairs, with hidden undo records in payloads; the specification's own reader states that each stream has one reading.")
c("C13","One stream of records cut into blocks and files at every position and in every arrangement of fills, file borders and log start; all arrangements must give the statements of the stream.")
c("C14","All key forms, column types, integer widths and sizes in undo records of updates, and the statements which restore the old values.")
c("C15","Every kind of undo record and every order of small mixtures: each update record gives one statement, in log order, and nothing else gives any.")
c("C16","All combinations of database and table filters over streams which mix updates of tables sharing names, prefixes and databases.")
c("C17","The last log file cut at every byte, torn and damaged blocks at every place: the statements are those of a prefix of the stream, none wrong.")
c("C18","Every cut and nine changes of every byte of undo records of five shapes and four types, contradicting lengths and random payloads, between good records which must all still be printed.")
c("C03","Page arrangements of a table file: other page types, internal pages, free pages, several leaf orders, before, between and behind the leaf pages; the rows are those of the leaf pages alone.")
c("C19","Every link of every record of a page redirected to every place (other records, infimum, supremum, itself, outside), damaged headers, counters and bytes of a page, cut files, in both formats and modes; a state machine of the list walk says which rows come before the damage.")
c("C20","All combinations of kinds of system file, table file or logs, and requested names, for both commands and modes and several log levels: failing, silent or with a determined result.")
c("C21","A state machine of runs (seventeen commands, failing ones included, by level, log directory, user and number of simultaneous copies) on a disk of read-only inputs: all single runs, sampled pairs, random histories of ten; what is printed is a function of the command and the inputs, and everything but the chosen log directory is compared before and after each run (system calls watched for some).")
c("C22","A state machine of level settings and messages: all histories of three calls over 39 level names, eleven functions and two directories, random ones of forty calls, and the option of the commands at all levels.")
