------------------------------- MODULE Bytes -------------------------------
(* Byte strings.  A byte string is a TLA+ string with one character per byte *)
(* (Latin-1), which is how they travel in the JSON traces.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

\* The 256 one-byte strings, CH[b + 1] being that of byte b.
CH == JsonDeserialize("bytes.json")

Byte(b) == CH[b + 1]

NUL == Byte(0)
BEL == Byte(7)
BS  == Byte(8)
TAB == Byte(9)
NL  == Byte(10)
VT  == Byte(11)
FF  == Byte(12)
CR  == Byte(13)
ESC == Byte(27)
SP  == Byte(32)
DEL == Byte(127)

OrdMap == TLCEval([c \in {CH[i] : i \in 1..256} |-> (CHOOSE i \in 1..256 : CH[i] = c) - 1])
Ord(c) == OrdMap[c]

Blank  == {SP, TAB, FF, CR}          \* whitespace within a line
White  == Blank \union {NL}
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Alphas == {"a", "b", "c", "d", "e", "f"}

\* A string with constant time access to its characters.
Chars(s) == TLCEval([i \in 1..Len(s) |-> SubSeq(s, i, i)])
Ctx(s)   == [s |-> s, t |-> Chars(s), n |-> Len(s)]

\* The substring of positions i..j-1.
Cut(c, i, j) == IF j <= i THEN "" ELSE SubSeq(c.s, i, j - 1)

\* The character at a position, NUL standing for the end of input.
At(c, i) == IF i <= c.n THEN c.t[i] ELSE NUL

RECURSIVE Rep(_, _)
Rep(s, k) == IF k <= 0 THEN "" ELSE IF k = 1 THEN s
             ELSE LET h == Rep(s, k \div 2) IN IF k % 2 = 0 THEN h \o h ELSE h \o h \o s

RECURSIVE Find(_, _, _)
\* First position from i whose character is in set, or the one past the end.
Find(c, i, set) == IF i > c.n THEN c.n + 1 ELSE IF c.t[i] \in set THEN i ELSE Find(c, i + 1, set)

RECURSIVE Skip(_, _, _)
\* First position from i whose character is not in set.
Skip(c, i, set) == IF i > c.n THEN c.n + 1 ELSE IF c.t[i] \in set THEN Skip(c, i + 1, set) ELSE i

RECURSIVE BackTo(_, _, _)
\* The end of Cut(c, i, j) without trailing whitespace.
BackTo(c, i, j) == IF j > i /\ c.t[j - 1] \in White THEN BackTo(c, i, j - 1) ELSE j

RECURSIVE FindLast(_, _, _)
FindLast(c, i, ch) == IF i < 1 THEN 0 ELSE IF c.t[i] = ch THEN i ELSE FindLast(c, i - 1, ch)

LOCAL SX == INSTANCE SequencesExt
FoldL(f(_, _), z, s) == SX!FoldLeft(f, z, s)
MapCat(f(_), s) == FoldL(LAMBDA a, x : a \o f(x), "", s)

Has(s, set) == \E i \in 1..Len(s) : SubSeq(s, i, i) \in set
HasSub(s, sub) == \E i \in 1..(Len(s) - Len(sub) + 1) : SubSeq(s, i, i + Len(sub) - 1) = sub
Prefix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Suffix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p

\* Continuation bytes of UTF-8 do not count as characters.
IsCont(c) == Ord(c) >= 128 /\ Ord(c) < 192
CharCount(s) == Cardinality({i \in 1..Len(s) : ~IsCont(SubSeq(s, i, i))})

\* The length of the sequence which a byte starts, 0 if it starts none.
LeadLen(b) == IF b < 128 THEN 1 ELSE IF b < 194 THEN 0 ELSE IF b < 224 THEN 2 ELSE IF b < 240 THEN 3 ELSE IF b < 245 THEN 4 ELSE 0
LeadMap == TLCEval([x \in {CH[i] : i \in 1..256} |-> LeadLen(Ord(x))])
\* Without recursion, which gets slow for long texts: every byte starts a
\* complete sequence, or belongs to one.
Utf8At(c, i) ==
  LET b == Ord(c.t[i])
      n == LeadMap[c.t[i]]
      o == Ord(c.t[i + 1])
  IN CASE n = 1 -> TRUE
       [] n > 1 -> /\ i + n - 1 <= c.n /\ \A j \in 1..(n - 1) : IsCont(c.t[i + j])
                   /\ (b = 224 => o >= 160) /\ (b = 237 => o < 160)
                   /\ (b = 240 => o >= 144) /\ (b = 244 => o < 144)
       [] OTHER -> b < 192 /\ \E j \in 1..3 : j < i /\ LeadMap[c.t[i - j]] > j
IsUtf8C(c) == \A i \in 1..c.n : Utf8At(c, i)
IsUtf8(s) == IsUtf8C(Ctx(s))

\* UTF-8 encoding of a code point which is not a surrogate.
Utf8(u) ==
  IF u < 128 THEN Byte(u)
  ELSE IF u < 2048 THEN Byte(192 + u \div 64) \o Byte(128 + (u % 64))
  ELSE IF u < 65536 THEN Byte(224 + u \div 4096) \o Byte(128 + ((u \div 64) % 64)) \o Byte(128 + (u % 64))
  ELSE Byte(240 + u \div 262144) \o Byte(128 + ((u \div 4096) % 64)) \o Byte(128 + ((u \div 64) % 64)) \o Byte(128 + (u % 64))

LowerMap == TLCEval([c \in {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"} |-> Byte(Ord(c) + 32)])
Lower(s) == LET c == Chars(s) IN
            MapCat(LAMBDA x : IF x \in DOMAIN LowerMap THEN LowerMap[x] ELSE x, c)
=============================================================================
