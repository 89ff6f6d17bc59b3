-------------------------------- MODULE Parse --------------------------------
(* From bytes to a document, or to the error which is to be reported.        *)
EXTENDS Layout

Bad(kind, s, e) == [ok |-> FALSE, kind |-> kind, s |-> s - 1, e |-> e - 1]
\* A value which ends before i; ws is the whitespace after it if it was
\* consumed already (as a 1-tuple).
Got(node, i, ws) == [ok |-> TRUE, node |-> node, i |-> i, ws |-> ws]

RECURSIVE Ws(_, _)
\* Skip whitespace and comments.
Ws(c, i) ==
  IF i > c.n THEN c.n + 1
  ELSE IF c.t[i] = "#" THEN Ws(c, Find(c, i, {NL}) + 1)
  ELSE IF c.t[i] \in White THEN Ws(c, i + 1) ELSE i

\* Column of a position, in characters.
Column(c, i) == LET j == FindLast(c, (IF i > c.n + 1 THEN c.n + 1 ELSE i) - 1, NL) IN CharCount(Cut(c, j + 1, i))

IsComment(c, i) == At(c, i) = "#" /\ i > 1 /\ At(c, i - 1) \in White
Eol(c, i) == LET j == Skip(c, i, Blank) IN
             IF j > c.n THEN TRUE ELSE c.t[j] = NL \/ (c.t[j] = "#" /\ j > i)
Ctl == {",", ":", "]", "}", NUL}
EndOfInline(c, i) == LET j == Skip(c, i, White) IN
                     IF j > c.n THEN TRUE ELSE c.t[j] \in Ctl \/ (c.t[j] = "#" /\ j > i)

\* Split whitespace at the end of the line.
LineOf(ws) == LET c == Ctx(ws) IN Cut(c, 1, Find(c, 1, {NL}))
RestOf(ws) == LET c == Ctx(ws) IN Cut(c, Find(c, 1, {NL}), c.n + 1)

----------------------------------------------------------------------------
\* Quoted scalars and keys.

\* [ok, v, i]: the value and the position after the closing quote.
QuotedAt(c, i) ==
  LET q == IF c.t[i] = "'" THEN SingleBody(c, i + 1, "") ELSE DoubleBody(c, i + 1, "")
  IN IF ~q.ok THEN q ELSE EscOk(q.v, IF q.i + 1 > c.n + 1 THEN c.n + 1 ELSE q.i + 1)

NoKey == [ok |-> TRUE, key |-> FALSE]
AKey(kt, kv, i) == [ok |-> TRUE, key |-> TRUE, kt |-> kt, kv |-> kv, i |-> i]

\* A quoted key at i; the position is that of its colon.
QuotedKey(c, i) ==
  IF At(c, i) \notin {"'", "\""} THEN NoKey
  ELSE LET q == QuotedAt(c, i) IN
       IF ~q.ok THEN Bad(q.kind, q.s, q.e)
       ELSE LET j == Skip(c, q.i, Blank) IN
            IF At(c, j) = ":" THEN AKey(Cut(c, i, j), q.v, j) ELSE NoKey

BareKey(c, i, j) == AKey(Cut(c, i, j), Cut(c, i, BackTo(c, i, j)), j)

RECURSIVE KeyEnd(_, _)
\* The colon which ends a key in block context, or the end of line or comment.
KeyEnd(c, i) ==
  LET j == Find(c, i, {":", "#", NL}) IN
  IF j > c.n \/ c.t[j] = NL \/ IsComment(c, j) THEN j
  ELSE IF c.t[j] = ":" /\ (j = c.n \/ c.t[j + 1] \in White \union {NUL}) THEN j
  ELSE KeyEnd(c, j + 1)
BlockKey(c, i) == LET j == KeyEnd(c, i) IN
                  IF At(c, j) = ":" THEN BareKey(c, i, j) ELSE [NoKey EXCEPT !.key = FALSE]

RECURSIVE FlowEnd(_, _)
FlowEnd(c, i) == IF i > c.n \/ c.t[i] \in Ctl \/ IsComment(c, i) THEN i ELSE FlowEnd(c, i + 1)

----------------------------------------------------------------------------
\* Block scalars.

RECURSIVE Trim(_)
Trim(s) == IF s = "" THEN ""
           ELSE IF SubSeq(s, 1, 1) \in White THEN Trim(SubSeq(s, 2, Len(s)))
           ELSE IF SubSeq(s, Len(s), Len(s)) \in White THEN Trim(SubSeq(s, 1, Len(s) - 1)) ELSE s

\* Lines from the line break at i on, which is after what was read so far.
\* ind is -1 until the first line with contents sets it, nl counts line breaks
\* since the last one, e is where that ends.
RECURSIVE BlockLines(_, _, _, _, _, _, _, _)
BlockLines(c, i, folded, hdr, least, ind, nl, r) ==
  IF i > c.n THEN [v |-> r.v, e |-> r.e, nl |-> nl]
  ELSE
  LET from == i + 1
      to == Find(c, from, {NL})
      lead == Skip(c, from, {SP}) - from
  IN IF Skip(c, from, Blank) >= to
     THEN BlockLines(c, to, folded, hdr, least, ind, nl + 1, r)
     ELSE IF lead < (IF ind < 0 THEN least ELSE ind) THEN [v |-> r.v, e |-> r.e, nl |-> nl + 1]
     ELSE LET k == IF ind < 0 THEN lead ELSE ind
              joins == IF ind >= 0 THEN (IF folded THEN 1 ELSE nl + 1)
                       ELSE IF hdr THEN 1 ELSE IF folded THEN 0 ELSE nl
              line == IF folded THEN Trim(Cut(c, from, to))
                      ELSE LET s == Cut(c, from + k, to) IN
                           IF Suffix(s, CR) THEN SubSeq(s, 1, Len(s) - 1) ELSE s
          IN BlockLines(c, to, folded, hdr, least, k, 0,
                        [v |-> r.v \o Rep(IF folded THEN SP ELSE NL, joins) \o line, e |-> to])

\* The block scalar whose indicator is at i, in a container indented by pind.
BlockAt(c, i, pind) ==
  LET folded == c.t[i] = ">"
      chomp == IF At(c, i + 1) \in {"-", "+"} THEN c.t[i + 1] ELSE ""
      from == i + 1 + Len(chomp)
      to == Find(c, from, {NL})
      h == Trim(Cut(c, from, to))
      hdr == IF Prefix(h, "#") THEN "" ELSE h
      b == BlockLines(c, to, folded, hdr /= "", pind + 1, -1, 0, [v |-> hdr, e |-> to])
      tail == IF b.v = "" \/ chomp = "-" THEN 0
              ELSE IF chomp = "+" THEN b.nl ELSE IF b.nl > 1 THEN 1 ELSE b.nl
  IN [v |-> b.v \o Rep(NL, tail), b |-> from, e |-> b.e]

----------------------------------------------------------------------------
\* Values.  st: [pre, root, fl, tab, pind, sind]; -1 for no indentation.

RECURSIVE Value(_, _, _), BlockSeq(_, _, _, _, _, _), BlockMap(_, _, _, _, _, _, _),
          FlowSeq(_, _, _, _, _, _), FlowMap(_, _, _, _, _, _)

\* An empty value leaves the whitespace in front of it to what comes next.
Empty(st, i) == IF st.root THEN Got(NullLeaf(st.pre), i, <<>>) ELSE Got(NullLeaf(SP), i, <<st.pre>>)

\* Items of a block sequence, the dash of the next one being at i.
BlockSeq(c, i, st, ind, ipre, acc) ==
  LET a == Ws(c, i + 1)
      r == Value(c, a, [pre |-> Cut(c, i + 1, a), root |-> FALSE, fl |-> FALSE, tab |-> TRUE,
                        pind |-> ind, sind |-> ind + 1])
  IN IF ~r.ok THEN r ELSE
     LET j == IF r.ws = <<>> THEN Ws(c, r.i) ELSE r.i
         ws == IF r.ws = <<>> THEN Cut(c, r.i, j) ELSE r.ws[1]
         its == Append(acc, Item(ipre, "", "", r.node, LineOf(ws)))
     IN IF Column(c, j) = ind /\ At(c, j) = "-" /\ At(c, j + 1) \in White \union {NUL}
        THEN BlockSeq(c, j, st, ind, RestOf(ws), its)
        ELSE Got(Coll("seq", st.pre, FALSE, ind, FALSE, "", its), j, <<RestOf(ws)>>)

\* Items of a block mapping, key k starting at i.
BlockMap(c, i, st, ind, ipre, acc, k) ==
  IF At(c, k.i) /= ":" THEN Bad("BadMappingSeparator", i, IF k.i > c.n THEN c.n + 1 ELSE k.i + 1) ELSE
  LET a == Ws(c, k.i + 1)
      r == Value(c, a, [pre |-> Cut(c, k.i + 1, a), root |-> FALSE, fl |-> FALSE, tab |-> TRUE,
                        pind |-> ind, sind |-> ind])
  IN IF ~r.ok THEN r ELSE
     LET j == IF r.ws = <<>> THEN Ws(c, r.i) ELSE r.i
         ws == IF r.ws = <<>> THEN Cut(c, r.i, j) ELSE r.ws[1]
         its == Append(acc, Item(ipre, k.kt, k.kv, r.node, LineOf(ws)))
         done == Got(Coll("map", st.pre, FALSE, ind, FALSE, "", its), j, <<RestOf(ws)>>)
     IN IF Column(c, j) /= ind \/ j > c.n THEN done
        ELSE LET q == QuotedKey(c, j) IN
             IF ~q.ok THEN q
             ELSE LET b == IF q.key THEN q ELSE BlockKey(c, j) IN
                  IF b.key THEN BlockMap(c, j, st, ind, RestOf(ws), its, b)
                  ELSE Bad("BadMappingSeparator", j, Find(c, j, {NL}))

\* A mapping in block context, unless it is not indented enough to be one.
MapOrNull(c, i, st, k) ==
  LET ind == Column(c, i) IN
  IF st.pind >= ind THEN Empty(st, i) ELSE BlockMap(c, i, st, ind, "", <<>>, k)

SeqOrNull(c, i, st) ==
  LET ind == Column(c, i) IN
  IF st.sind > ind THEN Empty(st, i) ELSE BlockSeq(c, i, st, ind, "", <<>>)

\* Items of an inline sequence from i, ipre being the whitespace before i.
FlowSeq(c, i, st, ipre, acc, tr) ==
  LET fin(e, suf, t) ==
        IF At(c, e) = "]" THEN Got(Coll("seq", st.pre, TRUE, 0, t, suf, acc), e + 1, <<>>)
        ELSE Bad("BadSequenceTerminator", e - Len(suf), e)
  IN
  IF At(c, i) \in {"]", NUL} THEN fin(i, ipre, tr) ELSE
  LET r == Value(c, i, [pre |-> "", root |-> FALSE, fl |-> TRUE, tab |-> FALSE, pind |-> -1, sind |-> -1])
  IN IF ~r.ok THEN r ELSE
     LET blank == r.ws /= <<>>
         j == Ws(c, r.i)
         ws == IF blank THEN r.ws[1] \o Cut(c, r.i, j) ELSE Cut(c, r.i, j)
     IN IF At(c, j) = ","
        THEN LET a == Ws(c, j + 1) IN
             FlowSeq(c, a, st, Cut(c, j + 1, a), Append(acc, Item(ipre, "", "", r.node, ws)), TRUE)
        ELSE IF At(c, j) = "]"
        THEN Got(Coll("seq", st.pre, TRUE, 0, FALSE, ws, Append(acc, Item(ipre, "", "", r.node, ""))), j + 1, <<>>)
        ELSE Bad("BadSequenceTerminator", j - Len(ws), j)

RECURSIVE UntilColon(_, _)
UntilColon(c, i) == IF i > c.n \/ c.t[i] \in {":", NUL} THEN i ELSE UntilColon(c, i + 1)

\* Items of an inline mapping from i; from is where its whitespace starts.
FlowMap(c, i, st, from, acc, tr) ==
  LET ipre == Cut(c, from, i) IN
  IF At(c, i) \in {"}", NUL}
  THEN IF At(c, i) = "}" THEN Got(Coll("map", st.pre, TRUE, 0, tr, ipre, acc), i + 1, <<>>)
       ELSE Bad("BadMappingTerminator", from, i)
  ELSE
  LET q == QuotedKey(c, i) IN
  IF ~q.ok THEN q ELSE
  LET e == UntilColon(c, i)
      k == IF q.key THEN q ELSE IF At(c, e) /= ":" THEN NoKey ELSE BareKey(c, i, e)
  IN IF ~k.key THEN Bad("BadMappingSeparator", from, e) ELSE
     LET a == Ws(c, k.i + 1)
         r == Value(c, a, [pre |-> Cut(c, k.i + 1, a), root |-> FALSE, fl |-> TRUE, tab |-> FALSE, pind |-> -1, sind |-> -1])
     IN IF ~r.ok THEN r ELSE
        LET j == IF r.ws = <<>> THEN Ws(c, r.i) ELSE r.i
            ws == IF r.ws = <<>> THEN Cut(c, r.i, j) ELSE r.ws[1]
        IN IF At(c, j) = ","
           THEN FlowMap(c, Ws(c, j + 1), st, j + 1, Append(acc, Item(ipre, k.kt, k.kv, r.node, ws)), TRUE)
           ELSE IF At(c, j) = "}"
           THEN Got(Coll("map", st.pre, TRUE, 0, FALSE, ws, Append(acc, Item(ipre, k.kt, k.kv, r.node, ""))), j + 1, <<>>)
           ELSE Bad("BadMappingTerminator", r.i, j)

Value(c, i, st) ==
  LET x == At(c, i)
      y == At(c, i + 1)
  IN
  IF ~st.fl /\ x = "-" /\ (i >= c.n \/ y \in White \union {NUL}) THEN SeqOrNull(c, i, st)
  ELSE IF x \in {"'", "\""} THEN
    LET k == IF st.fl THEN NoKey ELSE QuotedKey(c, i) IN
    IF ~k.ok THEN k
    ELSE IF k.key THEN MapOrNull(c, i, st, k)
    ELSE LET q == QuotedAt(c, i) IN
         IF ~q.ok THEN Bad(q.kind, q.s, q.e)
         ELSE Got(Leaf("str", st.pre, Cut(c, i, q.i), q.v, Cut(c, i, q.i)), q.i, <<>>)
  ELSE IF x = "[" THEN LET a == Ws(c, i + 1) IN FlowSeq(c, a, st, Cut(c, i + 1, a), <<>>, FALSE)
  ELSE IF x = "{" THEN FlowMap(c, Ws(c, i + 1), st, i + 1, <<>>, FALSE)
  ELSE IF x \in {"|", ">"} THEN
    LET b == BlockAt(c, i, st.pind)
        j == Ws(c, b.e)
    IN Got(Leaf("str", st.pre, Cut(c, i, b.e), b.v, Cut(c, b.b, b.e)), j, <<Cut(c, b.e, j)>>)
  ELSE
    LET nb == Number(c, i) IN
    IF nb.e > 0 /\ (st.tab => Eol(c, nb.e)) /\ (st.fl => EndOfInline(c, nb.e))
    THEN Got(Leaf("num", st.pre, Cut(c, i, nb.e), Cut(c, i, nb.e), Cut(c, i, nb.e)), nb.e, <<>>)
    ELSE
    LET k == IF st.fl THEN NoKey ELSE BlockKey(c, i) IN
    IF k.key THEN MapOrNull(c, i, st, k)
    ELSE
    LET e == BackTo(c, i, IF st.fl THEN FlowEnd(c, i) ELSE KeyEnd(c, i))
        s == Cut(c, i, e)
    IN IF s = "" THEN Empty(st, e)
       ELSE LET kd == PlainKind(s)
                v == IF kd = "null" THEN "" ELSE IF kd = "bool" THEN Lower(s) ELSE s
            IN Got(Leaf(kd, st.pre, s, v, IF kd = "str" THEN s ELSE ""), e, <<>>)

----------------------------------------------------------------------------
\* Documents.

RECURSIVE Start(_, _)
\* Directives and the start of document marker.
Start(c, i) ==
  IF At(c, i) = "%" THEN Start(c, Ws(c, Find(c, i, {NL})))
  ELSE IF At(c, i) = "-" /\ At(c, i + 1) = "-" /\ At(c, i + 2) = "-" THEN Ws(c, i + 3)
  ELSE i

Parse(s) ==
  LET c == Ctx(s)
      a == Start(c, Ws(c, 1))
      r == Value(c, a, [pre |-> Cut(c, 1, a), root |-> TRUE, fl |-> FALSE, tab |-> TRUE, pind |-> -1, sind |-> -1])
  IN IF ~r.ok THEN r
     ELSE LET j == IF r.ws = <<>> THEN Ws(c, r.i) ELSE r.i
              ws == IF r.ws = <<>> THEN Cut(c, r.i, j) ELSE r.ws[1]
          IN IF j <= c.n THEN Bad("ExpectedEof", j, c.n + 1)
             ELSE [ok |-> TRUE, d |-> [root |-> r.node, suf |-> ws]]
=============================================================================
