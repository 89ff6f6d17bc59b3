------------------------------- MODULE Layout -------------------------------
(* A document as the editor sees it: a tree which accounts for every byte.   *)
(*                                                                           *)
(* scalar      [k, id, pre, txt, v, raw]   k in null, bool, num, str         *)
(*   raw  what the string or number is said to look like                     *)
(* collection  [k, id, pre, fl, ind, tr, suf, it]   k in map, seq            *)
(*   id   identifier of the value, "" when it was not assigned yet           *)
(*   fl   written inline (in flow style)                                     *)
(*   ind  columns of indentation of a block collection                       *)
(*   tr   an inline collection has a trailing separator                      *)
(*   suf  whitespace in front of the closing bracket                         *)
(*   it   items [pre, kt, kv, val, suf]: what is in front of it, its key as  *)
(*        written and as a value, the value, what is between the value and   *)
(*        the separator or end of the line                                   *)
(* document    [root, suf]                                                   *)
EXTENDS Scalar

Leaf(k, pre, txt, v, raw) == [k |-> k, id |-> "", pre |-> pre, txt |-> txt, v |-> v, raw |-> raw]
NullLeaf(pre) == Leaf("null", pre, "", "", "")
Coll(k, pre, fl, ind, tr, suf, it) ==
  [k |-> k, id |-> "", pre |-> pre, fl |-> fl, ind |-> ind, tr |-> tr, suf |-> suf, it |-> it]
Item(pre, kt, kv, val, suf) == [pre |-> pre, kt |-> kt, kv |-> kv, val |-> val, suf |-> suf]

IsColl(n) == n.k \in {"map", "seq"}

\* Nothing is written for it, not even what is in front of it.
IsBlankNode(n) == IF IsColl(n) THEN ~n.fl /\ n.it = <<>> ELSE n.k = "null" /\ n.txt = ""

Mark(n, x) == IF n.k = "map" THEN x.kt \o ":" ELSE IF n.fl THEN "" ELSE "-"

RECURSIVE Body(_), Items(_, _)
Written1(n) == IF IsBlankNode(n) THEN "" ELSE n.pre \o Body(n)
Items(n, i) ==
  IF i > Len(n.it) THEN "" ELSE
  LET x == n.it[i]
      sep == IF n.fl /\ i < Len(n.it) THEN "," ELSE ""
  IN x.pre \o Mark(n, x) \o Written1(x.val) \o x.suf \o sep \o Items(n, i + 1)
Body(n) ==
  IF ~IsColl(n) THEN n.txt
  ELSE IF ~n.fl THEN Items(n, 1)
  ELSE LET last == n.it /= <<>> /\ (n.tr \/ (n.k = "seq" /\ IsBlankNode(n.it[Len(n.it)].val)))
       IN (IF n.k = "map" THEN "{" ELSE "[") \o Items(n, 1) \o (IF last THEN "," ELSE "")
          \o n.suf \o (IF n.k = "map" THEN "}" ELSE "]")

\* The document as text.
Text(d) == d.root.pre \o Body(d.root) \o d.suf

\* What it means, apart from how it is written.
RECURSIVE Tree(_)
Tree(n) == IF IsColl(n)
           THEN [k |-> n.k, v |-> "",
                 ks |-> IF n.k = "map" THEN [i \in 1..Len(n.it) |-> n.it[i].kv] ELSE <<>>,
                 c |-> [i \in 1..Len(n.it) |-> Tree(n.it[i].val)]]
           ELSE [k |-> n.k, v |-> n.v, ks |-> <<>>, c |-> <<>>]

\* Values, items included, which it takes to represent.
RECURSIVE Entries(_)
Entries(n) == IF IsColl(n) THEN FoldL(LAMBDA a, x : a + 1 + Entries(x.val), 1, n.it) ELSE 1

\* All paths to values; a path is a sequence of positions counted from 1.
RECURSIVE Paths(_)
Paths(n) == IF IsColl(n)
            THEN {<<>>} \union UNION {{<<i>> \o p : p \in Paths(n.it[i].val)} : i \in 1..Len(n.it)}
            ELSE {<<>>}

RECURSIVE Sub(_, _)
Sub(n, p) == IF p = <<>> THEN n ELSE Sub(n.it[Head(p)].val, Tail(p))
RECURSIVE HasPath(_, _)
HasPath(n, p) == p = <<>> \/ (IsColl(n) /\ Head(p) \in 1..Len(n.it) /\ HasPath(n.it[Head(p)].val, Tail(p)))

RECURSIVE Put(_, _, _)
Put(n, p, new) == IF p = <<>> THEN new
                  ELSE [n EXCEPT !.it[Head(p)].val = Put(n.it[Head(p)].val, Tail(p), new)]
RECURSIVE PutSuf(_, _, _)
\* Replace the suffix of the item which holds the value.
PutSuf(n, p, s) == IF Len(p) = 1 THEN [n EXCEPT !.it[p[1]].suf = s]
                   ELSE [n EXCEPT !.it[Head(p)].val = PutSuf(n.it[Head(p)].val, Tail(p), s)]
\* All identifiers of values, as a set.
RECURSIVE Ids(_)
Ids(n) == {n.id} \union IF IsColl(n) THEN UNION {Ids(n.it[i].val) : i \in 1..Len(n.it)} ELSE {}

Up(p) == SubSeq(p, 1, Len(p) - 1)
Last(s) == s[Len(s)]
=============================================================================
