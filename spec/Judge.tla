-------------------------------- MODULE Judge --------------------------------
(* What has to hold of an execution of the real code, property by property.  *)
(* An execution: [id, fam, in, r, ...] with observations o, o of every step. *)
EXTENDS Local, Float

CONSTANT Prop

Must(c, code) == IF c THEN {} ELSE {code}
HasF(x, f) == f \in DOMAIN x

----------------------------------------------------------------------------
\* Comparing trees.

RECURSIVE TreeAt(_, _)
NoTree == [k |-> "absent", v |-> "", ks |-> <<>>, c |-> <<>>]
TreeAt(t, p) == IF p = <<>> THEN t ELSE IF Head(p) \in DOMAIN t.c THEN TreeAt(t.c[Head(p)], Tail(p)) ELSE NoTree

RECURSIVE Pre(_)
Pre(t) == FoldL(LAMBDA a, x : a \o Pre(x), <<t>>, t.c)

RECURSIVE Skel(_)
\* Collections and keys only.
Skel(t) == IF t.k \in {"map", "seq"} THEN [k |-> t.k, ks |-> t.ks, c |-> [i \in DOMAIN t.c |-> Skel(t.c[i])]]
           ELSE [k |-> "leaf", ks |-> <<>>, c |-> <<>>]

RECURSIVE NoNl(_)
NoNl(s) == IF Suffix(s, NL) THEN NoNl(SubSeq(s, 1, Len(s) - 1)) ELSE s

RECURSIVE Reads(_, _)
\* Whether what is read back is what was stored.  An empty block collection
\* leaves nothing to read, and the line breaks at the end of a block scalar
\* depend on what follows it.
Reads(a, b) ==
  \/ a.k \in {"map", "seq"} /\ a.c = <<>> /\ b.k = "null"
  \/ /\ a.k = b.k /\ a.ks = b.ks /\ Len(a.c) = Len(b.c)
     /\ a.v = b.v \/ (a.k = "str" /\ NoNl(a.v) = NoNl(b.v))
     /\ \A i \in 1..Len(a.c) : Reads(a.c[i], b.c[i])

----------------------------------------------------------------------------
\* Identifiers.

RECURSIVE Bind(_, _), SameIds(_, _), AllIds(_), IdList(_)
\* Note the identifiers of new values.
Bind(n, t) ==
  LET m == IF n.id = "" THEN [n EXCEPT !.id = t.i] ELSE n IN
  IF IsColl(n) THEN [m EXCEPT !.it = [i \in DOMAIN n.it |-> [n.it[i] EXCEPT !.val = Bind(n.it[i].val, t.c[i])]]] ELSE m
SameIds(n, t) ==
  /\ n.id \in {"", t.i}
  /\ IF IsColl(n) THEN Len(n.it) = Len(t.c) /\ \A i \in 1..Len(t.c) : SameIds(n.it[i].val, t.c[i]) ELSE t.c = <<>>
AllIds(t) == {t.i} \union UNION {AllIds(t.c[i]) : i \in DOMAIN t.c}
IdList(t) == FoldL(LAMBDA a, x : a \o IdList(x), <<t.i>>, t.c)

\* Storage which is given back is used again: there are never more identifiers
\* around than for twice the values (a value in a collection has an item) which
\* were there at a time, and the few an operation may need in between.
Reused(x) ==
  LET all == <<x.o.ids>> \o [i \in DOMAIN x.steps |-> x.steps[i].o.ids]
      most == FoldL(LAMBDA a, t : LET k == Len(IdList(t)) IN IF k > a THEN k ELSE a, 0, all)
  IN Cardinality(UNION {AllIds(all[i]) : i \in DOMAIN all}) <= 2 * most + 2

RECURSIVE SameShape(_, _)
SameShape(n, t) == IF IsColl(n) THEN Len(n.it) = Len(t.c) /\ \A i \in 1..Len(t.c) : SameShape(n.it[i].val, t.c[i]) ELSE t.c = <<>>

----------------------------------------------------------------------------
\* Floats are written by the code with digits of its choice.

Digitized(op, t) == IF op.t \in Floats THEN [op EXCEPT !.txt = IF t.k = "num" THEN t.v ELSE "?"] ELSE op
Resolved(r, op, tree) ==
  IF ~HasPath(r, Path(op)) \/ op.op \notin {"set", "ins", "push"} THEN op
  ELSE IF (op.op = "ins" /\ Sub(r, Path(op)).k /= "map") \/ (op.op = "push" /\ Sub(r, Path(op)).k /= "seq") THEN op
  ELSE LET t == TreeAt(tree, Target(r, op))
           o == Digitized(op, t)
       IN IF o.then = <<>> THEN o ELSE [o EXCEPT !.then = <<Digitized(o.then[1], t)>>]

----------------------------------------------------------------------------
\* Scalars as the getters show them.

GetsOf(s, g) == \A ty \in IntTypes : g[ty] = AsInt(s, ty)
\* z: what the getters return, n: a value of the specification.
ScalarOk(z, t) ==
  Must(z.k = t.k, "kind")
  \union Must(z.b = (IF t.k = "bool" THEN t.v ELSE ""), "as_bool")
  \union Must(z.s = (IF t.k = "str" THEN <<t.v>> ELSE <<>>), "as_bstr")
  \union Must(z.u = (IF t.k = "str" /\ IsUtf8(t.v) THEN <<t.v>> ELSE <<>>), "as_str")
  \union Must(z.null = (t.k = "null"), "is_null")
  \union Must(z.raw = (IF t.k = "num" THEN t.v ELSE ""), "number as_raw")
  \union Must(z.sraw = (IF t.k = "str" THEN t.raw ELSE ""), "string as_raw")
  \union Must(z.m = (t.k = "map") /\ z.q = (t.k = "seq"), "as_mapping as_sequence")
  \union Must(GetsOf(IF t.k = "num" THEN t.v ELSE "", z.g), "integers")
  \union Must(z.via = z.g, "number getters differ")
RECURSIVE Nodes(_)
Nodes(n) == FoldL(LAMBDA a, x : a \o Nodes(x.val), <<n>>, IF IsColl(n) THEN n.it ELSE <<>>)
ScalarsOk(zs, ts) ==
  IF Len(zs) /= Len(ts) THEN {"count of values"} ELSE UNION {ScalarOk(zs[i], ts[i]) : i \in DOMAIN zs}

\* What Any and Number have to say is what Value has to say.
Agrees(z) ==
  Must(z.g = z.via, "number getters differ")
  \union Must(z.ib = z.b, "any bool differs") \union Must(z.is = z.s, "any string differs")
  \union Must(z.in = (IF z.k = "num" THEN <<z.raw>> ELSE <<>>), "any number differs")
  \union Must(z.null = (z.k = "null"), "any null differs")
  \union Must(z.vn = z.in, "into_number differs")
  \union Must((z.b /= "") = (z.k = "bool") /\ (z.s /= <<>>) = (z.k = "str") /\ z.m = (z.k = "map") /\ z.q = (z.k = "seq"), "getters of other kinds")
  \union Must(z.k = "num" \/ \A ty \in DOMAIN z.g : z.g[ty] = "", "number from a non-number")

----------------------------------------------------------------------------
\* Serde.

\* How a number shows up: as an integer of any type, or as a float.
NumberOk(t, z, o) ==
  LET i == AsInt(t.v, "i128")
      u == AsInt(t.v, "u128")
  IN IF i /= "" \/ u /= "" THEN o.k \in IntTypes /\ o.v = (IF i /= "" THEN i ELSE u)
     ELSE (o.k = "f64" /\ o.v = z.g["f64"]) \/ (o.k = "f32" /\ o.v = z.g["f32"])
SerdeLeaf(t, z, o) ==
  CASE t.k = "num" -> NumberOk(t, z, o)
    [] t.k = "str" -> o.k = (IF IsUtf8(t.v) THEN "str" ELSE "bytes") /\ o.v = t.v
    [] OTHER -> o.k = t.k /\ o.v = t.v
\* The values of a tree in the data model of serde.
SerdeOk(t, zs, o) ==
  LET a == Pre(t)
      b == Pre(o)
  IN /\ Len(a) = Len(b)
     /\ \A i \in DOMAIN a : /\ SerdeLeaf(a[i], zs[i], b[i])
                            /\ Len(a[i].c) = Len(b[i].c) /\ a[i].ks = b[i].ks

FloatHints == {"f32", "f64"}
\* A value which was asked for as something specific, m being what is delivered
\* for every hint.
HintOk(t, z, m) ==
  LET same(h) == m[h] = m["any"]
      leaf(k, v) == [k |-> k, v |-> v, ks |-> <<>>, c |-> <<>>]
  IN
  UNION {Must(IF z.g[h] /= "" THEN m[h] = leaf(h, z.g[h]) ELSE same(h), h) : h \in IntTypes \union FloatHints}
  \union Must(IF t.k = "bool" THEN m["bool"] = leaf("bool", t.v) ELSE same("bool"), "bool")
  \union UNION {Must(IF t.k = "str" /\ IsUtf8(t.v) THEN m[h] = leaf("str", t.v) ELSE same(h), h) : h \in {"str", "string", "char", "identifier"}}
  \union UNION {Must(IF t.k = "str" THEN m[h] = leaf("bytes", t.v) ELSE same(h), h) : h \in {"bytes", "byte_buf"}}
  \union Must(m["option"] = (IF t.k = "null" THEN leaf("null", "") ELSE [k |-> "some", v |-> "", ks |-> <<>>, c |-> <<m["any"]>>]), "option")
  \union UNION {Must(same(h), h) : h \in {"seq", "tuple", "map", "struct", "ignored", "unit", "newtype", "tuplestruct"}}

----------------------------------------------------------------------------
\* Iterators: what is left of n elements is lo+1..hi.

Ends(lo, hi, call) ==
  LET left == hi - lo
      n == call[2]
      off(pos, l, h) == [pos |-> pos, lo |-> l, hi |-> h]
  IN CASE call[1] = "next"    -> IF left > 0 THEN off(lo, lo + 1, hi) ELSE off(-1, lo, hi)
       [] call[1] = "back"    -> IF left > 0 THEN off(hi - 1, lo, hi - 1) ELSE off(-1, lo, hi)
       [] call[1] = "nth"     -> IF n < left THEN off(lo + n, lo + n + 1, hi) ELSE off(-1, hi, hi)
       [] call[1] = "nthback" -> IF n < left THEN off(hi - 1 - n, lo, hi - 1 - n) ELSE off(-1, lo, lo)
RECURSIVE IterOk(_, _, _, _, _)
IterOk(script, got, i, lo, hi) ==
  IF i > Len(script) THEN TRUE ELSE
  LET e == Ends(lo, hi, script[i])
      left == e.hi - e.lo
  IN got[i] = <<e.pos, left, left, left>> /\ IterOk(script, got, i + 1, e.lo, e.hi)

RECURSIVE Away(_, _, _, _)
\* What a script leaves.
Away(script, i, lo, hi) ==
  IF i > Len(script) THEN <<lo, hi>> ELSE LET e == Ends(lo, hi, script[i]) IN Away(script, i + 1, e.lo, e.hi)
\* What it takes the iterator for to consume the rest of it in different ways.
RestOk(z, lo, hi) ==
  LET left == hi - lo
      up == [i \in 1..left |-> lo + i - 1]
      down == [i \in 1..left |-> hi - i]
      some(s, k) == SubSeq(s, 1, IF k < Len(s) THEN k ELSE Len(s))
  IN /\ z.collect = up /\ z.fold = up /\ z.each = up /\ z.rev = down /\ z.rfold = down
     /\ z.count = left /\ z.last = (IF left > 0 THEN hi - 1 ELSE -1)
     /\ z.step = [i \in 1..((left + 1) \div 2) |-> lo + 2 * (i - 1)]
     /\ z.skip = SubSeq(up, 2, left)
     /\ z.take = some(up, 2) /\ z.after = SubSeq(up, 3, left)
     /\ z.both = [i \in 1..left |-> IF i % 2 = 1 THEN lo + (i - 1) \div 2 ELSE hi - i \div 2]
     /\ z.end = <<-1, -1, 0, 0, 0>>
RunOk(script, z, n) ==
  /\ z.start = <<n, n, n>>
  /\ IterOk(script, z.calls, 1, 0, n)
  /\ LET e == Away(script, 1, 0, n) IN RestOk(z.rest, e[1], e[2])

----------------------------------------------------------------------------
\* The text of every value is its part of the document.

RECURSIVE Bodies(_)
Bodies(n) == FoldL(LAMBDA a, x : a \o Bodies(x.val), <<Body(n)>>, IF IsColl(n) THEN n.it ELSE <<>>)
VTextOk(r, o) ==
  ~IsUtf8(o.text) \/
  LET w == Bodies(r) IN Len(w) = Len(o.vtext) /\ \A i \in DOMAIN w : \A j \in DOMAIN o.vtext[i] : o.vtext[i][j] = w[i]

----------------------------------------------------------------------------
\* Outputs which take no more than so many bytes: writing fails if and only if
\* there are more, with the error of the output, after it took what it can.

FaultsOk(o) ==
  LET n == Len(o.text) IN
  UNION {LET f == o.faults[i] IN
         Must(f.ok = (n <= f.room), "failure") \union Must(f.kept, "error")
         \union Must(f.got = SubSeq(o.text, 1, IF n <= f.room THEN n ELSE f.room), "written") : i \in DOMAIN o.faults}

----------------------------------------------------------------------------
\* After parsing: x is the execution, p what the specification says of its input.

OnErr(x, p) ==
  CASE Prop = "C02" -> Must(x.s <= x.e /\ x.e <= Len(x.in) /\ x.s >= 0, "span") \union Must(x.m > 0 /\ x.km > 0, "message")
    [] Prop \in {"C04", "C05", "C06", "C07"} -> Must(~p.ok, "rejected")
    [] Prop = "C21" -> IF p.ok THEN {"rejected"} ELSE Must(x.kind = p.kind, "kind") \union Must(<<x.s, x.e>> = <<p.s, p.e>>, "span")
    [] OTHER -> {}

OnOk(x, p) ==
  LET o == x.o IN
  CASE Prop = "C01" -> Must(o.text = x.in, "text") \union Must(IsUtf8(x.in) => o.disp = x.in, "display")
    [] Prop = "C02" -> Must(o.bad = <<>>, "panic")
    [] Prop = "C03" -> Must(IsUtf8(o.text) => o.disp = o.text, "display")
                       \union IF p.ok /\ Text(p.d) = o.text THEN Must(VTextOk(p.d.root, o), "display of a value") ELSE {}
    [] Prop = "C04" -> IF p.ok THEN Must(Skel(o.tree) = Skel(Tree(p.d.root)), "structure") ELSE {}
    [] Prop \in {"C05", "C06", "C07"} ->
         IF ~p.ok THEN {} ELSE
         LET t == Tree(p.d.root) IN
         IF Skel(o.tree) /= Skel(t) THEN {"structure"} ELSE ScalarsOk(o.scal, Nodes(p.d.root)) \union Must(o.tree = t, "value")
    [] Prop = "C09" -> Must(o.re.r = "ok" /\ HasF(o.re, "tree") /\ o.re.tree = o.tree, "reparse")
    [] Prop = "C11" -> Must(Cardinality(AllIds(o.ids)) = Len(IdList(o.ids)), "distinct")
    [] Prop = "C15" -> Must(SerdeOk(o.tree, o.scal, o.ser), "serialize") \union Must(SerdeOk(o.tree, o.scal, o.de), "deserialize")
                       \union LET ts == Pre(o.tree) IN UNION {HintOk(ts[i], o.scal[i], o.dety[i]) : i \in DOMAIN ts}
    [] Prop = "C16" -> Must(o.bad = <<>>, "panic") \union (IF HasF(o, "persist") THEN Must(o.persist = [text |-> o.text, tree |-> o.tree, ids |-> o.ids], "persisted") ELSE {})
    [] Prop = "C19" -> IF HasF(x, "ref")
                       THEN Must(o.scal[1].k = "num", "number") \union
                            UNION {Must(Denotes(x.in, o.scal[1].g[ty], ty), ty) : ty \in Floats}
                            \union Must(GetsOf(x.in, o.scal[1].g), "integer")
                            \union Must(o.scal[1].g = o.scal[1].via, "number getters differ")
                       ELSE {}
    [] Prop = "C20" -> Must(o.bad = <<>>, "panic") \union Must(\A i \in DOMAIN o.views : o.views[i] = o.tree, "views")
                       \union UNION {Agrees(o.scal[i]) : i \in DOMAIN o.scal}
    [] Prop = "C21" -> IF p.ok THEN {} ELSE {"accepted"}
    [] Prop = "C24" -> FaultsOk(o)
    [] OTHER -> {}

----------------------------------------------------------------------------
\* After an operation: s is the step, b the observations before it, d the
\* document of the specification before it, e after it, res what it returns.

StrAt(t, v) == t.k = "str" /\ t.v = v
StoredStr(op) == IF op.t \in {"str", "single", "double"} THEN <<op.v>>
                 ELSE IF op.t = "slot" /\ op.then /= <<>> /\ op.then[1].t \in {"str", "single", "double"} THEN <<op.then[1].v>> ELSE <<>>
StoredNum(op) == IF op.t \in Ints \union Floats THEN <<op.t>>
                 ELSE IF op.t = "slot" /\ op.then /= <<>> /\ op.then[1].t \in Ints \union Floats THEN <<op.then[1].t>> ELSE <<>>
FlatPos(t, p) ==
  \* Position of a value in preorder.
  LET RECURSIVE F(_, _)
      F(u, q) == IF q = <<>> THEN 1
                 ELSE 1 + FoldL(LAMBDA a, y : a + Len(Pre(y)), 0, SubSeq(u.c, 1, Head(q) - 1)) + F(u.c[Head(q)], Tail(q))
  IN F(t, p)

RECURSIVE TreeIdAt(_, _)
TreeIdAt(t, p) == IF p = <<>> THEN t.i ELSE IF Head(p) \in DOMAIN t.c THEN TreeIdAt(t.c[Head(p)], Tail(p)) ELSE "absent"

Idle(r, op, res) ==
  \* Operations which have nothing to do.
  \/ res \in {"false", "none", "badkind", "nopath"} \/ op.op = "get"
  \/ op.op = "mkmap" /\ Sub(r, Path(op)).k = "map"
  \/ op.op = "mkseq" /\ Sub(r, Path(op)).k = "seq"

ResOk(res, got) == got = res

OnStep(x, s, b, d, e, op, res) ==
  LET o == s.o IN
  CASE Prop = "C03" -> Must(IsUtf8(o.text) => o.disp = o.text, "display")
                       \union IF Text(e) = o.text THEN Must(VTextOk(e.root, o), "display of a value") ELSE {}
    [] Prop = "C08" -> IF Idle(d.root, op, res) THEN Must(o.text = b.text, "text") ELSE
                       LET k == Kept(d, op) IN
                       Must(Prefix(o.text, k.l), "text before") \union Must(Suffix(o.text, k.r), "text after")
                       \union Must(Len(o.text) >= Len(k.l) + Len(k.r), "text lost")
    [] Prop = "C09" -> Must(o.re.r = "ok", "reparse fails") \union
                       IF o.re.r = "ok" THEN Must(Reads(o.tree, o.re.tree), "reparse differs") ELSE {}
    [] Prop = "C10" -> Must(ResOk(res, s.res), "result") \union Must(o.tree = Tree(e.root), "tree")
    [] Prop = "C11" -> IF ~SameShape(e.root, o.ids) THEN {} ELSE
                       Must(SameIds(e.root, o.ids), "changed")
                       \union Must(Cardinality(AllIds(o.ids)) = Len(IdList(o.ids)), "distinct")
                       \union Must(op.op = "get" => s.res = res, "get")
                       \union Must(op.op \in {"ins", "push"} /\ op.t = "slot" /\ s.res = "ok" => s.nid = TreeIdAt(o.ids, Target(d.root, op)), "slot")
    [] Prop \in {"C12", "C13"} -> Must(o.text = Text(e), "text")
    [] Prop = "C14" -> LET v == StoredStr(op) IN
                       IF v = <<>> \/ res /= "ok" THEN {} ELSE
                       LET q == Target(d.root, op) IN
                       Must(StrAt(TreeAt(o.tree, q), v[1]), "stored") \union
                       Must(o.re.r = "ok", "reparse fails") \union
                       IF o.re.r = "ok" THEN Must(StrAt(TreeAt(o.re.tree, q), v[1]), "read back")
                                             \union Must(o.re.tree.k = o.tree.k /\ Reads(o.tree, o.re.tree), "rest read back") ELSE {}
    [] Prop = "C19" -> LET n == StoredNum(op) IN
                       IF n = <<>> \/ res /= "ok" THEN {} ELSE
                       LET q == Target(d.root, op)
                           want == IF n[1] \in Ints THEN (IF op.t = "slot" THEN op.then[1].v ELSE op.v) ELSE s.bits
                       IN Must(TreeAt(o.tree, q).k = "num" /\ o.scal[FlatPos(o.tree, q)].g[n[1]] = want, "stored")
                          \union Must(n[1] \in Floats /\ TreeAt(o.tree, q).k = "num" => Denotes(TreeAt(o.tree, q).v, want, n[1]), "digits")
                          \union Must(o.re.r = "ok", "reparse fails")
                          \union IF o.re.r = "ok"
                                 THEN Must(TreeAt(o.re.tree, q).k = "num" /\ o.re.scal[FlatPos(o.re.tree, q)].g[n[1]] = want, "read back")
                                 ELSE {}
    [] Prop = "C24" -> FaultsOk(o)
    [] Prop = "C22" -> Must(s.res /= "panic", "panic") \union Must(o.bad = <<>>, "panic while reading")
    [] Prop = "C23" -> IF Idle(d.root, op, res)
                       THEN Must(o.text = b.text, "text") \union Must(o.tree = b.tree, "tree") \union Must(o.ids = b.ids, "ids")
                       ELSE {}
    [] OTHER -> {}
=============================================================================
