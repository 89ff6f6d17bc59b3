------------------------------- MODULE MCTree -------------------------------
(* YAML by what it means: every small tree, written in every way which the   *)
(* rules of indentation and of inline collections allow.                     *)
(*                                                                           *)
(* A state is a tree with holes, of which every step fills the first.  This  *)
(* says in the other direction what Parse says: TLC checks that Parse reads  *)
(* each text as the tree which it was written from.  Every text is printed,  *)
(* to be read by the real code.                                              *)
EXTENDS Parse

CONSTANTS Depth, Wide

VARIABLE plan

----------------------------------------------------------------------------
\* The plan of a document: holes, scalars, and collections with a layout.

Hole(inl, dep, within) == [w |-> "hole", inl |-> inl, dep |-> dep, within |-> within]
Spot(s)  == [w |-> "leaf", s |-> s]
Group(kd, inl, lay, shift, sub) == [w |-> "coll", kd |-> kd, inl |-> inl, lay |-> lay, shift |-> shift, sub |-> sub]

Scalars == <<[t |-> "a", k |-> "str", v |-> "a"], [t |-> "", k |-> "null", v |-> ""], [t |-> "'q: #'", k |-> "str", v |-> "q: #"], [t |-> "12", k |-> "num", v |-> "12"],
             [t |-> "~", k |-> "null", v |-> ""], [t |-> "\"- \\t\"", k |-> "str", v |-> "- " \o TAB], [t |-> "|", k |-> "str", v |-> "x"], [t |-> "b c", k |-> "str", v |-> "b c"]>>
KeyText(i) == CASE i = 1 -> "k" [] i = 2 -> "'l'" [] OTHER -> "m n"
KeyName(i) == CASE i = 1 -> "k" [] i = 2 -> "l" [] OTHER -> "m n"

\* What may fill a hole.
Fills(h) ==
  LET few == ~Wide /\ h.dep < Depth
      subs(inl, kd, m) == [i \in 1..m |-> Hole(inl, IF i = 1 \/ Wide THEN h.dep - 1 ELSE 0, kd)]
      inline == {Group(kd, TRUE, lay, 0, subs(TRUE, kd, m)) : kd \in {"map", "seq"}, lay \in IF few THEN {1, 2} ELSE 1..4, m \in 0..2}
      block(lay, shifts, kds) == {Group(kd, FALSE, lay, s, subs(FALSE, kd, m)) : kd \in kds, s \in shifts, m \in IF Wide /\ h.dep = Depth THEN 1..3 ELSE 1..2}
      \* lay 1: begins on its own line, 2: on the line of its dash, 3: same as 1 with decoration.
  IN {Spot(i) : i \in (IF few THEN 1..4 ELSE DOMAIN Scalars) \ (IF h.inl THEN (IF h.within = "seq" THEN {2, 7} ELSE {7}) ELSE {})}
     \union IF h.dep = 0 THEN {} ELSE inline \union IF h.inl THEN {} ELSE
       CASE h.within = "root" -> block(1, {0, 2}, {"map", "seq"})
         [] h.within = "map"  -> block(1, {1, 2, 4}, {"map", "seq"}) \union block(1, {0}, {"seq"}) \union (IF few THEN {} ELSE block(3, {2}, {"map", "seq"}))
         [] h.within = "seq"  -> block(1, {1, 2}, {"map", "seq"}) \union block(2, {1, 3}, {"map", "seq"}) \union (IF few THEN {} ELSE block(3, {2}, {"map", "seq"}))

RECURSIVE Done(_), Filled(_, _)
Done(n) == CASE n.w = "hole" -> FALSE [] n.w = "leaf" -> TRUE [] OTHER -> \A i \in DOMAIN n.sub : Done(n.sub[i])
RECURSIVE FirstHole(_)
FirstHole(n) == IF n.w = "hole" THEN n ELSE LET i == CHOOSE j \in DOMAIN n.sub : ~Done(n.sub[j]) /\ \A x \in 1..(j - 1) : Done(n.sub[x]) IN FirstHole(n.sub[i])
Filled(n, f) == IF n.w = "hole" THEN f
                ELSE LET i == CHOOSE j \in DOMAIN n.sub : ~Done(n.sub[j]) /\ \A x \in 1..(j - 1) : Done(n.sub[x])
                     IN [n EXCEPT !.sub[i] = Filled(n.sub[i], f)]

Init == plan = Hole(FALSE, Depth, "root")
Next == /\ ~Done(plan)
        /\ \E f \in Fills(FirstHole(plan)) : plan' = Filled(plan, f)

----------------------------------------------------------------------------
\* How it is written.  Items of the collection around are indented by ind.

RECURSIVE Write(_, _, _), Rows(_, _, _), Cells(_, _)
Cells(n, i) ==
  IF i > Len(n.sub) THEN "" ELSE
  LET c == CASE n.lay = 2 -> " " [] n.lay = 3 -> NL \o " " [] n.lay = 4 -> " # c" \o NL [] OTHER -> ""
  IN c \o (IF n.kd = "map" THEN KeyText(i) \o ": " ELSE "") \o Write(n.sub[i], 0, "flow") \o (IF n.lay = 2 THEN " " ELSE "")
     \o (IF i < Len(n.sub) \/ n.lay = 3 THEN "," ELSE "") \o Cells(n, i + 1)
Rows(n, i, ind) ==
  IF i > Len(n.sub) THEN "" ELSE
  (IF i = 1 THEN "" ELSE NL \o (IF n.lay = 3 THEN NL \o "# c" \o NL ELSE "") \o Rep(SP, ind))
  \o (IF n.kd = "map" THEN KeyText(i) \o ":" ELSE "-") \o Write(n.sub[i], ind, n.kd) \o Rows(n, i + 1, ind)
Write(n, ind, within) ==
  IF n.w = "leaf" THEN
    LET s == Scalars[n.s]
        t == IF s.t = "|" THEN "|-" \o NL \o Rep(SP, ind + 2) \o "x" ELSE s.t
    IN IF t = "" THEN "" ELSE (IF within \in {"map", "seq"} THEN " " ELSE "") \o t
  ELSE IF n.inl THEN (IF within \in {"map", "seq"} THEN " " ELSE "") \o (IF n.kd = "map" THEN "{" ELSE "[") \o Cells(n, 1) \o (IF n.lay = 4 THEN NL ELSE "") \o (IF n.kd = "map" THEN "}" ELSE "]")
  ELSE IF within = "root" THEN Rep(SP, n.shift) \o Rows(n, 1, n.shift)
  ELSE IF n.lay = 2 THEN Rep(SP, n.shift) \o Rows(n, 1, ind + 1 + n.shift)
  ELSE (IF n.lay = 3 THEN "  # c" \o NL ELSE "") \o NL \o Rep(SP, ind + n.shift) \o Rows(n, 1, ind + n.shift)

\* What it means.
RECURSIVE Meaning(_)
Meaning(n) == IF n.w = "leaf" THEN [k |-> Scalars[n.s].k, v |-> Scalars[n.s].v, ks |-> <<>>, c |-> <<>>]
              ELSE [k |-> n.kd, v |-> "", ks |-> IF n.kd = "map" THEN [i \in DOMAIN n.sub |-> KeyName(i)] ELSE <<>>, c |-> [i \in DOMAIN n.sub |-> Meaning(n.sub[i])]]

Means == Done(plan) => LET t == Write(plan, 0, "root")
                           r == Parse(t)
                       IN r.ok /\ Tree(r.d.root) = Meaning(plan) /\ Text(r.d) = t
Emit == IF Done(plan) THEN PrintT(<<"H", 0, ToJson(Write(plan, 0, "root"))>>) ELSE TRUE
=============================================================================
