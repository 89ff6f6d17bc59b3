-------------------------------- MODULE Local --------------------------------
(* The text in front of and behind the part of a document which an operation *)
(* is about, none of which it may touch.                                     *)
EXTENDS Edit

RECURSIVE ItemsTo(_, _, _)
\* Text of the items from i up to and excluding j, with a separator after
\* every one but the last.
ItemsTo(n, i, j) ==
  IF i >= j THEN "" ELSE
  LET x == n.it[i] IN
  x.pre \o Mark(n, x) \o Written1(x.val) \o x.suf
    \o (IF n.fl /\ i + 1 < j THEN "," ELSE "") \o ItemsTo(n, i + 1, j)

Open(n)  == IF ~n.fl THEN "" ELSE IF n.k = "map" THEN "{" ELSE "["
Close(n) == IF ~n.fl THEN "" ELSE IF n.k = "map" THEN "}" ELSE "]"
\* What follows the item before position i in the text of a collection.
Tail1(n, i) == LET b == Body(n)
                   h == Open(n) \o ItemsTo(n, 1, i)
               IN SubSeq(b, Len(h) + 1, Len(b))

RECURSIVE Before(_, _), After(_, _)
Before(n, p) ==
  IF p = <<>> THEN "" ELSE
  LET i == Head(p)
      x == n.it[i]
  IN Open(n) \o ItemsTo(n, 1, i) \o (IF n.fl /\ i > 1 THEN "," ELSE "") \o x.pre \o Mark(n, x)
     \o (IF Tail(p) = <<>> THEN "" ELSE x.val.pre \o Before(x.val, Tail(p)))
After(n, p) ==
  IF p = <<>> THEN "" ELSE
  LET i == Head(p)
      x == n.it[i]
  IN After(x.val, Tail(p)) \o x.suf \o Tail1(n, i + 1)

DocBefore(d, p) == d.root.pre \o Before(d.root, p)
DocAfter(d, p)  == After(d.root, p) \o d.suf
PreOf(p, n) == IF p = <<>> \/ IsBlankNode(n) THEN "" ELSE n.pre

\* The position of the value which an operation stores, or that it is about.
Target(r, op) ==
  LET p == Path(op)
      n == Sub(r, p)
  IN CASE op.op = "ins" -> Append(p, LET i == KeyPos(n, op.k) IN IF i > 0 THEN i ELSE Len(n.it) + 1)
       [] op.op = "push" -> Append(p, Len(n.it) + 1)
       [] OTHER -> p

\* [l, r]: what has to remain at both ends of the text.
Kept(d, op) ==
  LET p == Path(op)
      n == Sub(d.root, p)
      both(l, r) == [l |-> DocBefore(d, p) \o l, r |-> r \o DocAfter(d, p)]
      value(q, o) ==
        LET v == Sub(d.root, q)
            blk == o.t = "block"
            after == DocAfter(d, q)
            suf == IF q = <<>> THEN "" ELSE SufOf(d.root, q)
            m == Sub(d.root, Up(q))
            \* An empty value at the end of an inline sequence takes a separator.
            end == q /= <<>> /\ m.k = "seq" /\ m.fl /\ Last(q) = Len(m.it)
        IN [l |-> DocBefore(d, q) \o (IF o.op \in {"set", "ins"} /\ o.t \notin {"null", "slot"} THEN PreOf(q, v) ELSE ""),
            r |-> IF end THEN m.suf \o Close(m) \o DocAfter(d, Up(q)) ELSE IF blk THEN SubSeq(after, Len(suf) + 1, Len(after)) ELSE after]
      all(i) == IF n.fl \/ i > 1 THEN PreOf(p, n) \o Open(n) \o ItemsTo(n, 1, i) ELSE ""
  IN CASE op.op = "set" -> value(p, op)
       [] op.op \in {"mkmap", "mkseq"} -> value(p, op)
       [] op.op = "ins" /\ KeyPos(n, op.k) > 0 ->
            IF op.then /= <<>> THEN value(Target(d.root, op), [op.then[1] EXCEPT !.op = "then"]) ELSE value(Target(d.root, op), op)
       [] op.op \in {"ins", "push"} ->
            both(all(Len(n.it) + 1), IF n.fl THEN n.suf \o Close(n) ELSE "")
       [] op.op \in {"mrem", "srem"} ->
            LET i == IF op.op = "srem" THEN op.i + 1 ELSE KeyPos(n, op.k) IN
            IF i = 0 \/ i > Len(n.it) THEN both(PreOf(p, n) \o Body(n), "")
            ELSE IF i < Len(n.it) THEN both(PreOf(p, n) \o Open(n) \o ItemsTo(n, 1, i), LET t == Tail1(n, i + 1) IN IF n.fl THEN SubSeq(t, 2, Len(t)) ELSE t)
            ELSE both(all(i), IF n.fl THEN n.suf \o Close(n) ELSE "")
       [] op.op \in {"mclr", "sclr"} -> both(IF n.fl THEN PreOf(p, n) \o Open(n) ELSE "", Close(n))
       [] OTHER -> both(PreOf(p, n) \o Body(n), "")
=============================================================================
