------------------------------- MODULE Types -------------------------------
(***************************************************************************)
(* Column types: how the data dictionary describes them, how InnoDB stores *)
(* their values, and what SQL literal has to come out again.               *)
(*                                                                         *)
(* A column is a record                                                    *)
(*   n   name (byte string)                                                *)
(*   k   kind (see Kinds)                                                  *)
(*   w   width: bytes of a number, declared length of a text in characters *)
(*       (bytes for the binary kinds), fractional digits of a time         *)
(*   mb  the most bytes of a character (of a text, but for latin1)         *)
(*   u   unsigned                                                          *)
(*   nn  NOT NULL                                                          *)
(*                                                                         *)
(* A value is a tuple <<tag, ...>>:                                        *)
(*   <<"null">>                                                            *)
(*   <<"w", bytes>>   a number: big-endian two's complement of the width   *)
(*   <<"f", bytes>>   a float or double: its little-endian IEEE bits       *)
(*   <<"s", bytes>>   a text or binary string                              *)
(*   <<"t", tuple>>   a date or time, broken down (see Enc)                *)
(*   <<"x", bytes, value>>   a value outside of the row: what is stored in *)
(*                    the row, and the whole value                         *)
(***************************************************************************)
EXTENDS Bytes

Null == <<"null">>
IsNull(v) == v[1] = "null"
W(b)  == <<"w", b>>
S(b)  == <<"s", b>>
F(b)  == <<"f", b>>
T(t)  == <<"t", t>>

Col(n, k, w, nn)      == [n |-> n, k |-> k, w |-> w, mb |-> 1, u |-> FALSE, nn |-> nn]
UCol(n, k, w, nn)     == [n |-> n, k |-> k, w |-> w, mb |-> 1, u |-> TRUE, nn |-> nn]
MbCol(n, k, w, mb, nn) == [n |-> n, k |-> k, w |-> w, mb |-> mb, u |-> FALSE, nn |-> nn]

Kinds == {"int", "enum", "set", "bit", "float", "double", "date", "year", "time",
          "datetime", "timestamp", "char", "charmb", "varchar", "varcharmb",
          "binary", "varbinary", "blob", "text", "geom", "json", "decimal", "extblob", "sys",
          "ucs2", "utf16", "utf16le", "utf32", "virtual", "ftsdoc", "pfx"}
\* Kinds whose values may be long.
Blobs == {"blob", "text", "geom", "json", "extblob"}

(***************************************************************************)
(* CHAR columns of charsets whose characters have at least two bytes (and  *)
(* at most WideMb).  The pad space is a whole character.                   *)
(***************************************************************************)
WideChars == {"ucs2", "utf16", "utf16le", "utf32"}
WideMb(k) == IF k = "ucs2" THEN 2 ELSE 4
PadUnit(k) == CASE k \in {"ucs2", "utf16"} -> <<0, 32>> [] k = "utf16le" -> <<32, 0>> [] k = "utf32" -> <<0, 0, 0, 32>>
\* A column with a longer value has no fixed length.
MaxFixed == 768
\* A virtual column (computed, not stored) of a number or, if mb > 1, a text.
VirtCol(n, mb) == [n |-> n, k |-> "virtual", w |-> IF mb = 1 THEN 4 ELSE 20, mb |-> mb, u |-> FALSE, nn |-> FALSE]
VBase(c) == [c EXCEPT !.k = IF c.mb = 1 THEN "int" ELSE "varcharmb"]
\* The hidden column of a table with a fulltext index.
FtsCol == [n |-> Str("FTS_DOC_ID"), k |-> "ftsdoc", w |-> 8, mb |-> 1, u |-> TRUE, nn |-> TRUE]
\* A key field which has only the first bytes of its column: of this fixed
\* length, or w = 0; mb = 2 if the column is long.
PfxField(n, w, mb) == [n |-> n, k |-> "pfx", w |-> w, mb |-> mb, u |-> FALSE, nn |-> TRUE]

\* Bytes of a fractional part of fsp digits.
FspLen(fsp) == (fsp + 1) \div 2

(***************************************************************************)
(* Dictionary description.                                                 *)
(***************************************************************************)
MType0(c) ==
  CASE c.k \in {"int", "enum", "set", "date", "year"} -> 6
    [] c.k \in {"bit", "time", "datetime", "timestamp", "binary", "decimal"} -> 3
    [] c.k = "float" -> 9
    [] c.k = "double" -> 10
    [] c.k = "char" -> 2
    [] c.k = "charmb" -> 13
    [] c.k = "varchar" -> 1
    [] c.k = "varcharmb" -> 12
    [] c.k = "varbinary" -> 4
    [] c.k = "geom" -> 14
    [] c.k \in WideChars -> 13
    [] c.k = "ftsdoc" -> 6
    [] c.k \in Blobs -> 5
MType(c) == IF c.k = "virtual" THEN MType0(VBase(c)) ELSE MType0(c)

MySQLType(c) ==
  CASE c.k = "int" -> (CASE c.w = 1 -> 1 [] c.w = 2 -> 2 [] c.w = 3 -> 9 [] c.w = 4 -> 3 [] c.w = 8 -> 8)
    [] c.k = "date" -> 10
    [] c.k = "year" -> 13
    [] c.k \in {"enum", "set", "char", "charmb", "binary"} \cup WideChars -> 254
    [] c.k = "ftsdoc" -> 3
    [] c.k = "bit" -> 16
    [] c.k = "time" -> 11
    [] c.k = "datetime" -> 12
    [] c.k = "timestamp" -> 7
    [] c.k = "float" -> 4
    [] c.k = "double" -> 5
    [] c.k \in {"varchar", "varcharmb", "varbinary"} -> 15
    [] c.k = "geom" -> 255
    [] c.k = "json" -> 245
    [] c.k \in Blobs -> 252
    [] c.k = "decimal" -> 246

\* The length the dictionary records: the most bytes a value can have.
ColLen(c) ==
  CASE c.k = "date" -> 3
    [] c.k = "year" -> 1
    [] c.k = "time" -> 3 + FspLen(c.w)
    [] c.k = "datetime" -> 5 + FspLen(c.w)
    [] c.k = "timestamp" -> 4 + FspLen(c.w)
    [] c.k = "float" -> 4
    [] c.k = "double" -> 8
    [] c.k \in {"charmb", "varcharmb"} -> c.w * c.mb
    [] c.k \in WideChars -> c.w * WideMb(c.k)
    [] c.k = "virtual" -> IF c.mb = 1 THEN c.w ELSE c.w * c.mb
    [] c.k \in Blobs -> 8 + c.w
    [] OTHER -> c.w

\* The collation: a column may say which one.
Charset(c) ==
  CASE "coll" \in DOMAIN c -> c.coll
    [] c.k \in {"char", "varchar"} -> 8
    [] c.k = "text" -> <<8, 33, 45, 28, 11>>[1 + (c.w % 5)]
    [] c.k \in {"charmb", "varcharmb"} ->        \* any collation of a charset of this width
         LET ids == CASE c.mb = 4 -> <<45, 224, 46, 247, 248, 255, 278>>
                      [] c.mb = 3 -> <<33, 192, 83, 215, 12, 98>>
                      [] c.mb = 2 -> <<28, 1, 13, 19, 24, 87, 95, 84, 85>>
                      [] c.mb = 1 -> <<11, 47, 51, 9, 3, 65, 99>>
         IN ids[1 + (c.w % Len(ids))]
    [] c.k = "ucs2" -> LET ids == <<35, 90, 159, 128, 145, 151>> IN ids[1 + (c.w % Len(ids))]
    [] c.k = "utf16" -> LET ids == <<54, 55, 101, 124, 118>> IN ids[1 + (c.w % Len(ids))]
    [] c.k = "utf16le" -> <<56, 62>>[1 + (c.w % 2)]
    [] c.k = "utf32" -> LET ids == <<60, 61, 160, 183, 177>> IN ids[1 + (c.w % Len(ids))]
    [] c.k \in {"bit", "time", "datetime", "timestamp", "binary", "varbinary", "blob", "geom", "json", "extblob", "decimal"} -> 63
    [] OTHER -> 0

PrType0(c) ==
  MySQLType(c)
  + (IF c.nn THEN 256 ELSE 0)
  + (IF c.u \/ c.k \in {"bit", "enum", "set", "year"} THEN 512 ELSE 0)
  + (IF c.k \in {"char", "charmb", "varchar", "varcharmb", "text", "enum", "set"} \cup WideChars THEN 0 ELSE 1024)
  + (IF c.k \in {"varchar", "varcharmb", "varbinary"} /\ ColLen(c) > 255 THEN 4096 ELSE 0)
  + (Charset(c) * 65536)
PrType(c) == IF c.k = "virtual" THEN PrType0(VBase(c)) + 8192 ELSE PrType0(c)

\* Does the row store a length for the column?  (In the redundant format, and
\* if all characters have one byte, a CHAR has its full length.)
IsVar(c, fmt) == \/ c.k \in {"varchar", "varcharmb", "varbinary"} \cup Blobs
                 \/ c.k = "charmb" /\ c.mb > 1 /\ fmt = "C"
                 \/ c.k \in {"utf16", "utf16le"} /\ fmt = "C"
                 \/ c.k = "utf32" /\ ColLen(c) > MaxFixed /\ fmt = "C"
                 \/ c.k = "pfx" /\ c.w = 0

\* Two length bytes may be used.
IsLongVar(c) == c.k \in Blobs \/ (IF c.k = "pfx" THEN c.mb = 2 ELSE ColLen(c) > 255)

(***************************************************************************)
(* Stored bytes.                                                           *)
(***************************************************************************)
\* A date <<year, month, day>>.
EncDate(t) == FlipTop(U3((t[1] * 16 + t[2]) * 32 + t[3]))

\* The fraction (an integer number of 10^-fsp, scaled to whole bytes).
FracBytes(f, fsp) == LET s == IF fsp % 2 = 1 THEN f * 10 ELSE f
                     IN IF fsp = 0 THEN <<>> ELSE UW(s, FspLen(fsp))

\* A time <<negative, hours, minutes, seconds, fraction>>.  The integer part
\* and the fraction are one number, complemented if the time is negative.
EncTime(t, fsp) ==
  LET abs == U3(8388608 + t[2] * 4096 + t[3] * 64 + t[4]) \o FracBytes(t[5], fsp)
  IN IF t[1] THEN LET n == Neg(abs) IN n ELSE abs

\* A datetime <<year, month, day, hour, minute, second, fraction>>.
EncDateTime(t, fsp) ==
  LET ym == t[1] * 13 + t[2]
      lo == ((t[3] * 32 + t[4]) * 64 + t[5]) * 64 + t[6]     \* 22 bits
      hi == 8388608 + ym * 64 + (lo \div 65536)              \* 24 bits
  IN U3(hi) \o U2(lo % 65536) \o FracBytes(t[7], fsp)

\* Days from 1970-01-01 (civil calendar).
DaysFromCivil(y0, m, d) ==
  LET y == IF m <= 2 THEN y0 - 1 ELSE y0
      era == y \div 400
      yoe == y - era * 400
      doy == ((153 * (IF m > 2 THEN m - 3 ELSE m + 9) + 2) \div 5) + d - 1
      doe == yoe * 365 + (yoe \div 4) - (yoe \div 100) + doy
  IN era * 146097 + doe - 719468

\* days * 86400 + secs (0 <= result < 2^32) as a word.
DaySecWord(days, secs) ==
  LET h == days \div 16384  l == days % 16384   \* 86400 * 16384 = 21600 * 65536
      lo == (l * 1350) + (secs \div 64)         \* 86400 = 1350 * 64
      \* (days * 86400 + secs) = 64 * (l*1350 + secs/64) + secs%64 + h * 21600 * 65536
      t16 == (lo % 1024) * 64 + (secs % 64)
      hi == (lo \div 1024) + h * 21600
  IN U2(hi) \o U2(t16)

\* A timestamp <<year, month, day, hour, minute, second, fraction, offset>>: local
\* time, offset seconds ahead of UTC; all zero for the zero timestamp.
EncTimestamp(t, fsp) ==
  IF t[1] = 0 THEN Zeros(4) \o FracBytes(t[7], fsp)
  ELSE LET s == ((t[4] * 60 + t[5]) * 60 + t[6]) - t[8]
           dd == IF s < 0 THEN -1 ELSE IF s >= 86400 THEN 1 ELSE 0
       IN DaySecWord(DaysFromCivil(t[1], t[2], t[3]) + dd, s - dd * 86400) \o FracBytes(t[7], fsp)

\* Values of wide characters are stored with all their pad characters.
PadWide(b, n, unit) == b \o [i \in 1..(n - Len(b)) |-> unit[1 + ((i - 1) % Len(unit))]]
PadTo(b, n) == IF Len(b) >= n THEN b ELSE b \o Rep(32, n - Len(b))

Enc(c, v, fmt) ==
  CASE c.k = "int" -> IF c.u THEN v[2] ELSE FlipTop(v[2])
    [] c.k \in {"enum", "set", "bit", "sys", "float", "double", "varchar", "varcharmb", "varbinary",
                "decimal", "ftsdoc", "pfx"} \cup Blobs -> v[2]
    [] c.k \in WideChars -> PadWide(v[2], ColLen(c), PadUnit(c.k))
    [] c.k = "date" -> EncDate(v[2])
    [] c.k = "year" -> <<IF v[2][1] = 0 THEN 0 ELSE v[2][1] - 1900>>
    [] c.k = "time" -> EncTime(v[2], c.w)
    [] c.k = "datetime" -> EncDateTime(v[2], c.w)
    [] c.k = "timestamp" -> EncTimestamp(v[2], c.w)
    [] c.k = "char" -> PadTo(v[2], c.w)
    [] c.k = "binary" -> v[2] \o Zeros(c.w - Len(v[2]))
    [] c.k = "charmb" -> PadTo(v[2], IF fmt = "C" THEN c.w ELSE c.w * c.mb)

\* Bytes a NULL occupies in the redundant format.
NullLen(c) ==
  IF c.k \in {"varchar", "varcharmb", "varbinary"} \cup Blobs THEN 0 ELSE ColLen(c)

(***************************************************************************)
(* What has to come out: see the driver's description of expected values.  *)
(***************************************************************************)
Two(n) == Dig(n, 2)
DateText(t) == Dig(t[1], 4) \o <<45>> \o Two(t[2]) \o <<45>> \o Two(t[3])
ClockText(h, m, s) == Two(h) \o <<58>> \o Two(m) \o <<58>> \o Two(s)

ExpText(b) == [k |-> "s", b |-> b]
ExpNull == [k |-> "z"]
Exp(c, v) ==
  IF c.k = "virtual" THEN [k |-> "d"]               \* DEFAULT: no other value is accepted
  ELSE IF IsNull(v) THEN ExpNull
  ELSE CASE c.k = "bit" -> [k |-> "b", neg |-> FALSE, m |-> v[2]]
         [] c.k \in {"int", "enum", "set"} ->
              IF c.k = "int" /\ ~c.u /\ v[2][1] >= 128
              THEN [k |-> "n", neg |-> TRUE, m |-> Neg(v[2])]
              ELSE [k |-> "n", neg |-> FALSE, m |-> v[2]]
         [] c.k \in {"float", "double"} -> [k |-> "f", b |-> v[2]]
         [] c.k = "date" -> ExpText(DateText(v[2]))
         [] c.k = "year" -> ExpText(Dig(v[2][1], 4))
         [] c.k = "time" -> ExpText((IF v[2][1] THEN <<45>> ELSE <<>>) \o ClockText(v[2][2], v[2][3], v[2][4]))
         [] c.k \in {"datetime", "timestamp"} ->
              ExpText(DateText(v[2]) \o <<32>> \o ClockText(v[2][4], v[2][5], v[2][6]))
         [] c.k \in {"char", "charmb"} -> [k |-> "c", b |-> v[2]]
         [] c.k = "binary" -> ExpText(v[2] \o Zeros(c.w - Len(v[2])))
         [] c.k \in WideChars -> [k |-> "p", b |-> v[2], m |-> PadUnit(c.k)]
         [] c.k \in {"decimal", "json"} -> [k |-> "?"]   \* not supported: any literal
         [] v[1] = "x" /\ Len(v) = 2 -> [k |-> "*"]  \* anything but NULL
         [] v[1] = "x" -> ExpText(v[3])             \* the whole value
         [] OTHER -> ExpText(v[2])

=============================================================================
