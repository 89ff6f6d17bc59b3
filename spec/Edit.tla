-------------------------------- MODULE Edit --------------------------------
(* What every editing operation does to a document.                          *)
(*                                                                           *)
(* op: [op, p, t, v, k, i, sep, then, ls, ch, txt, many]                     *)
(*   p     path to the value, positions counted from 0                       *)
(*   t, v  what to store; ls and ch the lines and chomping of a block        *)
(*   k, i  key or index                                                      *)
(*   sep   <<>> or <<separator>> to put in front of a slot                   *)
(*   then  <<>> or <<op>> to fill the slot with                              *)
(*   txt   the digits which a float is written as                            *)
(*   many  operations which are done one after another through one handle    *)
EXTENDS Parse

Ints   == IntTypes
Floats == {"f32", "f64"}

\* Indentation of the last line of a prefix.
LastLine(s) == LET c == Ctx(s) IN Cut(c, FindLast(c, c.n, NL) + 1, c.n + 1)
IndentOf(s) == CharCount(LastLine(s))

RECURSIVE BlockBody(_, _, _)
BlockBody(ls, i, pad) == IF i > Len(ls) THEN "" ELSE NL \o pad \o ls[i] \o BlockBody(ls, i + 1, pad)
RECURSIVE Joined(_, _, _)
Joined(ls, i, by) == IF i > Len(ls) THEN "" ELSE (IF i = 1 THEN "" ELSE by) \o ls[i] \o Joined(ls, i + 1, by)

\* The scalar which op stores, in (flow) or outside of inline collections,
\* where the contents of blocks have the given indentation, and hdr is to stay
\* on the line.
Scalar(op, flow, ind, hdr) ==
  LET s(style) == Leaf("str", "", Written(op.v, style), op.v, op.v) IN
  CASE op.t = "null"   -> Leaf("null", "", CASE op.v = "kw" -> "null" [] op.v = "tilde" -> "~" [] OTHER -> "", "", "")
    [] op.t = "bool"   -> Leaf("bool", "", op.v, op.v, "")
    [] op.t = "str"    -> s(Style(op.v, flow))
    [] op.t \in {"bare", "single", "double"} -> s(op.t)
    [] op.t = "block"  ->
         LET v == Joined(op.ls, 1, IF op.v = ">" THEN SP ELSE NL) \o (IF op.ch = "-" THEN "" ELSE NL)
             txt == op.v \o op.ch \o hdr \o BlockBody(op.ls, 1, Rep(SP, ind))
         IN IF flow THEN Leaf("str", "", Double(v), v, v) ELSE Leaf("str", "", txt, v, txt)
    [] op.t \in Ints   -> Leaf("num", "", op.v, op.v, op.v)
    [] op.t \in Floats -> Leaf("num", "", op.txt, op.txt, op.txt)
    [] op.t = "slot"   -> NullLeaf("")

\* Something else in place of a value: its identifier and prefix remain.
Instead(old, new) == [new EXCEPT !.pre = old.pre, !.id = old.id]

Path(op) == [i \in 1..Len(op.p) |-> op.p[i] + 1]
Inside(r, p) == IF p = <<>> THEN FALSE ELSE Sub(r, Up(p)).fl
SufOf(r, p) == Sub(r, Up(p)).it[Last(p)].suf

DoSet(r, p, op) ==
  LET old == Sub(r, p)
      flow == Inside(r, p)
      isBlock == op.t = "block" /\ ~flow
      ind == IF p = <<>> THEN IndentOf(old.pre) + 2 ELSE Sub(r, Up(p)).ind + 2
      hdr == IF isBlock /\ p /= <<>> THEN SufOf(r, p) ELSE ""
      r1 == Put(r, p, Instead(old, Scalar(op, flow, ind, hdr)))
  IN IF isBlock /\ p /= <<>> THEN PutSuf(r1, p, "") ELSE r1

\* The prefix and indentation of a block collection put in place of a value.
RECURSIVE Pad(_, _, _)
Pad(c, i, k) == IF k = 0 THEN "" ELSE (IF At(c, i) \in Blank THEN c.t[i] ELSE SP) \o Pad(c, i + 1, k - 1)
Indented(r, p) ==
  LET old == Sub(r, p) IN
  IF p = <<>> THEN [pre |-> old.pre, ind |-> IndentOf(old.pre)]
  ELSE LET q == Sub(r, Up(p)) IN
       IF q.k = "seq" THEN [pre |-> SP, ind |-> q.ind + 2]
       ELSE [pre |-> NL \o Pad(Ctx(LastLine(q.pre)), 1, q.ind + 2), ind |-> q.ind + 2]

DoMake(r, p, kind) ==
  LET old == Sub(r, p) IN
  IF old.k = kind THEN r
  ELSE IF Inside(r, p) THEN Put(r, p, Instead(old, Coll(kind, "", TRUE, 0, FALSE, "", <<>>)))
  ELSE LET w == Indented(r, p) IN
       Put(r, p, [Coll(kind, w.pre, FALSE, w.ind, FALSE, "", <<>>) EXCEPT !.id = old.id])

\* What a caller does with a slot.
Fill(r, p, then) ==
  IF then = <<>> THEN r
  ELSE CASE then[1].op = "set"   -> DoSet(r, p, then[1])
         [] then[1].op = "mkmap" -> DoMake(r, p, "map")
         [] then[1].op = "mkseq" -> DoMake(r, p, "seq")
         [] OTHER -> r

NextPrefix(m) == IF m.it = <<>> THEN "" ELSE IF m.fl THEN SP ELSE NL \o Rep(SP, m.ind)

\* Position of the first item with the key, or 0.
RECURSIVE KeyFrom(_, _, _)
KeyFrom(m, k, i) == IF i > Len(m.it) THEN 0 ELSE IF m.it[i].kv = k THEN i ELSE KeyFrom(m, k, i + 1)
KeyPos(m, k) == KeyFrom(m, k, 1)

DoInsert(r, p, op) ==
  LET m == Sub(r, p)
      i == KeyPos(m, op.k)
      q == Append(p, IF i > 0 THEN i ELSE Len(m.it) + 1)
      isBlock == op.t = "block" /\ ~m.fl
      hdr == IF i > 0 /\ isBlock THEN m.it[i].suf ELSE ""
      v == Scalar(op, m.fl, m.ind + 2, hdr)
      kt == IF IsUtf8(op.k) THEN Written(op.k, Style(op.k, m.fl)) ELSE op.k
      r1 == IF i > 0
            THEN LET x == Put(r, q, Instead(m.it[i].val, v)) IN IF isBlock THEN PutSuf(x, q, "") ELSE x
            ELSE Put(r, p, [m EXCEPT !.it = Append(@, Item(NextPrefix(m), kt, op.k,
                       [v EXCEPT !.pre = IF op.sep /= <<>> THEN op.sep[1] ELSE SP], ""))])
  IN Fill(r1, q, op.then)

DoPush(r, p, op) ==
  LET m == Sub(r, p)
      n == Len(m.it)
      vp == IF op.sep /= <<>> THEN op.sep[1]
            ELSE IF m.fl THEN ""
            ELSE IF n = 0 THEN SP
            ELSE IF Has(m.it[n].val.pre, {"#"}) THEN SP ELSE m.it[n].val.pre
      v == [Scalar(op, m.fl, m.ind + 2, "") EXCEPT !.pre = vp]
      r1 == Put(r, p, [m EXCEPT !.it = Append(@, Item(NextPrefix(m), "", "", v, ""))])
  IN Fill(r1, Append(p, n + 1), op.then)

Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

\* What becomes of the root, and what the operation returns.
Did(r, res) == [r |-> r, res |-> res]
Apply1(r, op) ==
  LET p == Path(op) IN
  IF op.op = "persist" THEN Did(r, "ok")
  ELSE IF ~HasPath(r, p) THEN Did(r, "nopath")
  ELSE LET n == Sub(r, p) IN
  CASE op.op = "set"   -> Did(DoSet(r, p, op), "ok")
    [] op.op = "mkmap" -> Did(DoMake(r, p, "map"), "ok")
    [] op.op = "mkseq" -> Did(DoMake(r, p, "seq"), "ok")
    [] op.op \in {"ins", "mrem", "mclr", "get"} /\ n.k /= "map" -> Did(r, "badkind")
    [] op.op \in {"push", "srem", "sclr"} /\ n.k /= "seq" -> Did(r, "badkind")
    [] op.op = "ins"   -> Did(DoInsert(r, p, op), "ok")
    [] op.op = "push"  -> Did(DoPush(r, p, op), "ok")
    [] op.op = "mrem"  -> LET i == KeyPos(n, op.k) IN
                          IF i = 0 THEN Did(r, "false")
                          ELSE Did(Put(r, p, [n EXCEPT !.it = Without(@, i)]), "true")
    [] op.op = "srem"  -> IF op.i >= Len(n.it) THEN Did(r, "false")
                          ELSE Did(Put(r, p, [n EXCEPT !.it = Without(@, op.i + 1)]), "true")
    [] op.op \in {"mclr", "sclr"} -> Did(Put(r, p, [n EXCEPT !.it = <<>>]), "ok")
    [] op.op = "get"   -> LET i == KeyPos(n, op.k) IN Did(r, IF i = 0 THEN "none" ELSE n.it[i].val.id)
Apply(r, op) ==
  IF op.op /= "many" THEN Apply1(r, op)
  ELSE IF ~HasPath(r, Path(op)) THEN Did(r, "nopath")
  ELSE FoldL(LAMBDA a, o : LET b == Apply1(a.r, o) IN Did(b.r, IF a.res = "" THEN b.res ELSE a.res \o "," \o b.res), Did(r, ""), op.many)
=============================================================================
