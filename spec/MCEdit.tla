------------------------------- MODULE MCEdit -------------------------------
(* All short histories of edits of small documents.                          *)
(*                                                                           *)
(* TLC explores the transitions of Edit from every document of Docs, with    *)
(* every operation of a small universe at every value, and checks that what  *)
(* the specification says is itself in order (the invariants below).  Every  *)
(* history is printed, to be replayed in the real code.                      *)
EXTENDS Judge

CONSTANTS Depth, Part, Parts, Rich

VARIABLES docu, past, from
vars == <<docu, past, from>>

Docs == <<"", "a", "a: 1\n", "- a\n- b\n", "a:\n  b: 1\nc: 2\n", "- - a\n  - b\n- c", "k:\n- a\n- b\nl: c\n", "- a: 1\n  b: 2\n- c\n",
          "[]", "{}\n", "[a, b]", "{a: 1, b: 2}\n", "k: [a, {b: c}]\nl: x\n", "- {a: [b]}\n- []\n", "a: |\n  x\n  y\nb: 1\n", "- >-\n  x\n- y\n",
          "a: 'x'\nb: \"y\"\n", "a:\nb:\n", "-\n-\n", " [ a , b ]\n", "{ a: 1 , b: }", "a:   # c\n  b: 1\n", "\n\n- a\n\n- b\n", "# c\na: 1 \n\n# d\nb: 2\n\n",
          "---\na: 1\n", "a: 1\r\nb:\r\n  c: 2\r\n", "  a: 1\n  b:\n      c: 2\n", "-  - a\n   - b\n", "a: 1\na: 2\n", "k:\n    - a\n    - b: c\n", "[a,]", "[[], [a]]",
          "a:\n  - b\n  -\n", "a: {}\nb: []\nc: ~\n", "- a # c\n- b\n", "'a b': 1\n\"c\": 2\n">>

Blank0 == [op |-> "", p |-> <<>>, t |-> "", v |-> "", k |-> "", i |-> 0, sep |-> <<>>, ls |-> <<>>, ch |-> "", txt |-> "", d |-> 0, twin |-> FALSE, then |-> <<>>, many |-> <<>>]
Set(t, v)  == [Blank0 EXCEPT !.op = "set", !.t = t, !.v = v]
Do(o)      == [Blank0 EXCEPT !.op = o]
Block(o, style, ch, ls) == [o EXCEPT !.t = "block", !.v = style, !.ch = ch, !.ls = ls]

\* What may be done with a value of the given kind.
Sets == {Set("str", "s"), Set("null", "kw"), Set("null", "empty"), Set("u8", "7"), Block(Do("set"), "|", "-", <<"l", "m">>), Do("mkmap"), Do("mkseq")}
MoreSets == {Set("str", "true"), Set("str", "a: b"), Set("str", "x, y"), Set("str", "it's"), Set("null", "tilde"), Set("bool", "true"), Set("i8", "-1"), Set("single", "x"),
             Set("double", "x"), Set("bare", "x"), Block(Do("set"), ">", "", <<"l", "m">>), Block(Do("set"), "|", "+", <<"l">>)}
Into(o) == {[o EXCEPT !.t = "str", !.v = "n"], [o EXCEPT !.t = "slot"], [o EXCEPT !.t = "slot", !.then = <<Do("mkmap")>>], [o EXCEPT !.t = "slot", !.then = <<Do("mkseq")>>]}
MoreInto(o) == {[o EXCEPT !.t = "slot", !.then = <<Set("u8", "7")>>], Block(o, "|", "-", <<"l", "m">>), [o EXCEPT !.t = "slot", !.sep = <<"   ">>, !.then = <<Set("str", "n")>>],
                [o EXCEPT !.t = "bool", !.v = "false"], [o EXCEPT !.t = "i64", !.v = "-5"]}
Key(k) == [Do("ins") EXCEPT !.k = k]
Keys(n) == {n.it[i].kv : i \in DOMAIN n.it}

Ops(n) ==
  Sets \union (IF Rich THEN MoreSets ELSE {}) \union
  CASE n.k = "map" -> UNION {Into(Key(k)) \union (IF Rich THEN MoreInto(Key(k)) ELSE {}) : k \in {"new"} \union Keys(n)}
                      \union {[Do("mrem") EXCEPT !.k = k] : k \in {"none"} \union Keys(n)} \union {Do("mclr")}
    [] n.k = "seq" -> Into(Do("push")) \union (IF Rich THEN MoreInto(Do("push")) ELSE {})
                      \union {[Do("srem") EXCEPT !.i = i] : i \in 0..Len(n.it)} \union {Do("sclr")}
    [] OTHER -> {}

Init == /\ from \in {i \in DOMAIN Docs : i % Parts = Part}
        /\ docu = Parse(Docs[from]).d
        /\ past = <<>>
Next == /\ Len(past) < Depth /\ from' = from
        /\ \E p \in Paths(docu.root) : \E o \in Ops(Sub(docu.root, p)) :
             LET op == [o EXCEPT !.p = [i \in DOMAIN p |-> p[i] - 1]] IN
             /\ docu' = [docu EXCEPT !.root = Apply(docu.root, op).r]
             /\ past' = Append(past, op)

----------------------------------------------------------------------------
\* What has to hold of the specification itself.

\* KNOWN: what follows the last value on its line, or an indented comment,
\* becomes part of a block scalar stored there.
HasBlock(o) == o.t = "block" \/ (o.then /= <<>> /\ o.then[1].t = "block")
Excused == (\E i \in DOMAIN past : HasBlock(past[i])) /\ Has(Docs[from], {"#"})

\* Its text reads back as the document.
ReadsBack == LET r == Parse(Text(docu)) IN Excused \/ (r.ok /\ Reads(Tree(docu.root), Tree(r.d.root)))
\* It touches nothing but what the operation is about.
Localized ==
  LET op == past'[Len(past')]
      k == Kept(docu, op)
      t == Text(docu')
  IN IF Idle(docu.root, op, Apply(docu.root, op).res) THEN docu' = docu
     ELSE Prefix(t, k.l) /\ Suffix(t, k.r) /\ Len(t) >= Len(k.l) + Len(k.r)
Local1 == [][Localized]_vars

\* To print every history once.
Emit == IF Len(past) = Depth THEN PrintT(<<"H", from, ToJson(<<Docs[from], past>>)>>) ELSE TRUE
=============================================================================
