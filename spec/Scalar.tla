------------------------------- MODULE Scalar -------------------------------
(* What a scalar means and how one is written.                               *)
EXTENDS Bytes

----------------------------------------------------------------------------
\* Numbers.  Decimal integers and floats; no signs other than a leading minus.

\* The position after the number which starts at i, and its kind, or [e |-> 0].
RECURSIVE NumScan(_, _, _, _, _, _)
NumScan(c, i, dot, exp, dig, hint) ==
  LET x == At(c, i) IN
  IF x \in Digits THEN NumScan(c, i + 1, dot, exp, TRUE, hint)
  ELSE IF x = "." /\ dot THEN NumScan(c, i + 1, FALSE, exp, dig, "F64")
  ELSE IF x \in {"e", "E"} /\ dig /\ exp
       THEN NumScan(c, IF At(c, i + 1) \in {"+", "-"} THEN i + 2 ELSE i + 1, FALSE, FALSE, FALSE, "F64")
  ELSE IF dig THEN [e |-> i, h |-> hint] ELSE [e |-> 0, h |-> ""]
Number(c, i) == IF At(c, i) = "-" THEN NumScan(c, i + 1, TRUE, TRUE, FALSE, "I64")
                ELSE NumScan(c, i, TRUE, TRUE, FALSE, "U64")

RECURSIVE Strip0(_)
Strip0(s) == IF Len(s) > 1 /\ SubSeq(s, 1, 1) = "0" THEN Strip0(SubSeq(s, 2, Len(s))) ELSE s

RECURSIVE CmpD(_, _, _)
\* Compare digit strings of the same length from position i.
CmpD(a, b, i) == IF i > Len(a) THEN 0
                 ELSE LET x == Ord(SubSeq(a, i, i))
                          y == Ord(SubSeq(b, i, i))
                      IN IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE CmpD(a, b, i + 1)
LeqD(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ CmpD(a, b, 1) <= 0)

Max == [u8 |-> "255", i8 |-> "127", u16 |-> "65535", i16 |-> "32767",
        u32 |-> "4294967295", i32 |-> "2147483647",
        u64 |-> "18446744073709551615", i64 |-> "9223372036854775807",
        u128 |-> "340282366920938463463374607431768211455", i128 |-> "170141183460469231731687303715884105727"]
Min == [u8 |-> "0", i8 |-> "128", u16 |-> "0", i16 |-> "32768",
        u32 |-> "0", i32 |-> "2147483648",
        u64 |-> "0", i64 |-> "9223372036854775808",
        u128 |-> "0", i128 |-> "170141183460469231731687303715884105728"]
IntTypes == DOMAIN Max
Unsigned == {"u8", "u16", "u32", "u64", "u128"}

\* An integer literal: only digits, possibly after a minus.
IntLit(s) == LET d == IF Prefix(s, "-") THEN SubSeq(s, 2, Len(s)) ELSE s
             IN d /= "" /\ \A i \in 1..Len(d) : SubSeq(d, i, i) \in Digits

\* The integer as the given type reads it, "" when it does not fit.
AsInt(s, ty) ==
  IF ~IntLit(s) THEN ""
  ELSE LET neg == Prefix(s, "-")
           d == Strip0(IF neg THEN SubSeq(s, 2, Len(s)) ELSE s)
       IN IF neg /\ ty \in Unsigned THEN ""
          ELSE IF neg THEN IF LeqD(d, Min[ty]) THEN (IF d = "0" THEN "0" ELSE "-" \o d) ELSE ""
          ELSE IF LeqD(d, Max[ty]) THEN d ELSE ""

----------------------------------------------------------------------------
\* Plain scalars.

\* The kind of a plain scalar which is not a number.
PlainKind(s) == LET l == IF Len(s) \in {4, 5} THEN Lower(s) ELSE s IN
                IF s = "~" \/ l = "null" THEN "null" ELSE IF l \in {"true", "false"} THEN "bool" ELSE "str"

----------------------------------------------------------------------------
\* Quoted scalars.

RECURSIVE DoubleQuotes(_, _)
DoubleQuotes(c, i) == IF i > c.n THEN "" ELSE (IF c.t[i] = "'" THEN "''" ELSE c.t[i]) \o DoubleQuotes(c, i + 1)
Single(s) == "'" \o DoubleQuotes(Ctx(s), 1) \o "'"

Hex == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
EscOut(c) ==
  CASE c = NUL -> "\\0" [] c = BEL -> "\\a" [] c = BS -> "\\b" [] c = TAB -> "\\t"
    [] c = NL -> "\\n" [] c = VT -> "\\v" [] c = FF -> "\\f" [] c = CR -> "\\r"
    [] c = ESC -> "\\e" [] c = "\"" -> "\\\"" [] c = "\\" -> "\\x5c"
    [] Ord(c) < 32 \/ Ord(c) = 127 -> "\\x" \o Hex[Ord(c) \div 16 + 1] \o Hex[(Ord(c) % 16) + 1]
    [] OTHER -> c
Double(s) == "\"" \o MapCat(EscOut, Chars(s)) \o "\""

\* Escape sequences with a fixed meaning.  NB: a backslash stands for a quote,
\* which is what the tests of the implementation insist on.
Simple == [x \in {"n", "0", "a", "b", "t", "v", "f", "r", "e", "\"", "\\"} |->
            CASE x = "n" -> NL [] x = "0" -> NUL [] x = "a" -> BEL [] x = "b" -> BS
              [] x = "t" -> TAB [] x = "v" -> VT [] x = "f" -> FF [] x = "r" -> CR
              [] x = "e" -> ESC [] OTHER -> "\""]
HexVal == [x \in Digits \union Alphas \union {"A", "B", "C", "D", "E", "F"} |->
            LET o == Ord(x) IN IF o < 58 THEN o - 48 ELSE IF o < 71 THEN o - 55 ELSE o - 87]

RECURSIVE HexRun(_, _, _, _)
\* k hex digits from i: the value, or the position of the offending character.
HexRun(c, i, k, acc) ==
  IF k = 0 THEN [ok |-> TRUE, v |-> acc, i |-> i]
  ELSE LET x == At(c, i) IN
       IF i <= c.n /\ x \in DOMAIN HexVal THEN HexRun(c, i + 1, k - 1, acc * 16 + HexVal[x])
       ELSE [ok |-> FALSE, v |-> 0, i |-> IF i + 1 > c.n + 1 THEN c.n + 1 ELSE i + 1]

EscErr(kind, s, e) == [ok |-> FALSE, kind |-> kind, s |-> s, e |-> e, v |-> "", i |-> 0]
EscOk(v, i) == [ok |-> TRUE, kind |-> "", s |-> 0, e |-> 0, v |-> v, i |-> i]
\* The escape sequence whose backslash is at i.
Unescape(c, i) ==
  LET x == At(c, i + 1)
      fin(j) == IF j > c.n + 1 THEN c.n + 1 ELSE j
      num(k, kind) == LET h == HexRun(c, i + 2, k, 0) IN
                      IF ~h.ok THEN EscErr(kind, i, h.i)
                      ELSE IF h.v >= 55296 /\ h.v < 57344 THEN EscErr(kind, i, h.i)
                      ELSE EscOk(Utf8(h.v), h.i)
  IN IF i + 1 <= c.n /\ x \in DOMAIN Simple THEN EscOk(Simple[x], i + 2)
     ELSE IF x = "x" THEN num(2, "BadHexEscape")
     ELSE IF x = "u" THEN num(4, "BadUnicodeEscape")
     ELSE EscErr("BadEscape", i, fin(i + 2))

RECURSIVE DoubleBody(_, _, _)
\* The contents of a double quoted scalar from i, up to its closing quote.
DoubleBody(c, i, acc) ==
  LET j == Find(c, i, {"\"", NUL, "\\"})
      a == acc \o Cut(c, i, j)
  IN IF At(c, j) = "\\" THEN LET u == Unescape(c, j) IN IF u.ok THEN DoubleBody(c, u.i, a \o u.v) ELSE u
     ELSE EscOk(a, j)

RECURSIVE SingleBody(_, _, _)
SingleBody(c, i, acc) ==
  LET j == Find(c, i, {"'"})
      a == acc \o Cut(c, i, j)
  IN IF j <= c.n /\ At(c, j + 1) = "'" THEN SingleBody(c, j + 2, a \o "'") ELSE EscOk(a, j)

\* The value of a scalar in single or double quotes: [ok, v] .
Quoted(s) == LET c == Ctx(s) IN
             IF At(c, 1) = "'" THEN SingleBody(c, 2, "") ELSE DoubleBody(c, 2, "")

----------------------------------------------------------------------------
\* How a string is written when nobody says how.

IsControl(c, i) == LET o == Ord(c.t[i]) IN
                   o < 32 \/ o = 127 \/ (o = 194 /\ i < c.n /\ Ord(c.t[i + 1]) < 160)

NotFirst == Digits \union {SP, "\"", "[", "]", "{", "}", ",", "#", "&", "*", "!", "|", ">", "%", "@", "`"}
\* Whether a string reads back as itself without quotes.
IsPlain(s) ==
  LET f == IF s = "" THEN "" ELSE SubSeq(s, 1, 1)
      g == IF Len(s) < 2 THEN "" ELSE SubSeq(s, 2, 2)
  IN /\ s /= ""
     /\ CASE f = "-" -> g /= "" /\ g \notin ({SP, "-", "."} \union Digits)
          [] f = "." -> g /= "" /\ g \notin ({"."} \union Digits)
          [] OTHER -> f \notin NotFirst
     /\ ~Suffix(s, SP) /\ ~HasSub(s, " #")
     /\ PlainKind(s) = "str"

Style(s, flow) ==
  LET c == Ctx(s)
      apos == Find(c, 1, {"'"})
      ctl == IF \E i \in 1..c.n : IsControl(c, i) THEN 1 ELSE 0
  IN IF apos <= c.n \/ ctl = 1 THEN "double"
     ELSE IF ~IsPlain(s) \/ Has(s, {":"}) \/ (flow /\ Has(s, {",", "[", "]", "{", "}"})) THEN "single"
     ELSE "bare"
Written(s, style) == CASE style = "double" -> Double(s) [] style = "single" -> Single(s) [] OTHER -> s
=============================================================================
