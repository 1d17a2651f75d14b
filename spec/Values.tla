------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* Some values of every kind of column.                                    *)
(***************************************************************************)
EXTENDS Gen

Kinds9 == << <<"int", 4>>, <<"varchar", 40>>, <<"datetime", 0>>, <<"char", 12>>, <<"varbinary", 300>>, <<"date", 0>>, <<"double", 8>>,
             <<"blob", 2>>, <<"int", 8>>, <<"timestamp", 0>>, <<"binary", 4>>, <<"bit", 2>>, <<"time", 0>>, <<"year", 1>>,
             <<"enum", 1>>, <<"varcharmb", 70>>, <<"float", 4>>, <<"text", 2>>, <<"charmb", 5>>, <<"set", 8>>, <<"int", 1>>, <<"geom", 4>>, <<"json", 4>>, <<"ucs2", 6>>, <<"utf32", 193>>, <<"utf16le", 9>> >>
\* The values of a kind: an ordinary one, the zero, and another one.
Vals(k, w) ==
  CASE k \in {"int", "enum", "set", "bit"} -> <<W(Rep(17, w)), W(Zeros(w)), W(Zeros(w - 1) \o <<1>>)>>
    [] k \in {"varchar", "text", "varcharmb", "varbinary", "blob", "geom", "json"} -> <<S(Str("some text")), S(<<>>), S(Str("NULL"))>>
    [] k = "ucs2" -> <<S(<<0, 97, 1, 32>>), S(<<>>), S(<<0, 78, 0, 85, 0, 76, 0, 76>>)>>
    [] k = "utf16le" -> <<S(<<97, 0, 32, 1>>), S(<<>>), S(<<78, 0, 85, 0, 76, 0, 76, 0>>)>>
    [] k = "utf32" -> <<S(<<0, 0, 0, 97, 0, 1, 245, 32>>), S(<<>>), S(<<0, 0, 0, 78, 0, 0, 0, 85>>)>>
    [] k = "char" -> <<S(Str("twelve bytes")), S(<<>>), S(Str("NULL"))>>
    [] k = "charmb" -> <<S(Str("five!")), S(<<>>), S(Str("NULL"))>>
    [] k = "binary" -> <<S(Str("four")), S(Zeros(4)), S(Str("NULL"))>>
    [] k = "date" -> <<T(<<2019, 12, 31>>), T(<<0, 0, 0>>), T(<<1, 1, 1>>)>>
    [] k = "datetime" -> <<T(<<2019, 12, 31, 23, 59, 58, 0>>), T(<<0, 0, 0, 0, 0, 0, 0>>), T(<<1, 1, 1, 0, 0, 0, 0>>)>>
    [] k = "timestamp" -> <<T(<<2019, 12, 31, 23, 59, 58, 0, 0>>), T(<<0, 0, 0, 0, 0, 0, 0, 0>>), T(<<1970, 1, 1, 0, 0, 1, 0, 0>>)>>
    [] k = "time" -> <<T(<<FALSE, 100, 59, 58, 0>>), T(<<FALSE, 0, 0, 0, 0>>), T(<<TRUE, 0, 0, 1, 0>>)>>
    [] k = "year" -> <<T(<<2019>>), T(<<0>>), T(<<1901>>)>>
    [] k = "double" -> <<F(<<1, 2, 3, 4, 5, 6, 7, 64>>), F(Zeros(8)), F(<<0, 0, 0, 0, 0, 0, 240, 191>>)>>
    [] k = "float" -> <<F(<<1, 2, 3, 64>>), F(Zeros(4)), F(<<0, 0, 128, 191>>)>>

=============================================================================
