-------------------------------- MODULE Trace --------------------------------
(* Executions of the real code, replayed against the specification.          *)
(*                                                                           *)
(* Every case is an initial state.  Loading it parses its input, every       *)
(* further step takes the operation which the code was asked for.  Whatever  *)
(* the observations of the code do not live up to is printed.                *)
(*                                                                           *)
(* NB: no operator of the modules may use the name of a variable for one of  *)
(* its own, which would keep TLC from caching values.                        *)
EXTENDS Judge

CONSTANT File
Cases == TLCEval(ndJsonDeserialize(File))

VARIABLES kase, phase, docu
vars == <<kase, phase, docu>>

\* Properties which take the document of the specification along.
Modelled == Prop \in {"C03", "C08", "C10", "C11", "C12", "C13", "C14", "C19", "C23"}
NeedsParse == Modelled \/ Prop \in {"C04", "C05", "C06", "C07", "C21"}
NoDoc == [root |-> NullLeaf(""), suf |-> ""]
Stopped == -1

Say(x, step, codes) == IF codes = {} THEN TRUE ELSE PrintT(<<"V", x.id, step, codes>>)
Quit(x, step, codes) == /\ Say(x, step, codes)
                        /\ PrintT(<<"S", x.id, step>>)
                        /\ phase' = Stopped /\ docu' = NoDoc

Init == /\ kase \in DOMAIN Cases
        /\ phase = 0
        /\ docu = NoDoc

Goes(x, step, codes, d) ==
  IF codes = {} \/ ~Modelled THEN Say(x, step, codes) /\ phase' = step + 1 /\ docu' = d
  ELSE Quit(x, step, codes)

InSync(o, d) == /\ "text" \in DOMAIN o => o.text = Text(d)
                /\ "tree" \in DOMAIN o => o.tree = Tree(d.root)
                /\ "ids" \in DOMAIN o => SameShape(d.root, o.ids) /\ SameIds(d.root, o.ids)
Bound(o, d) == IF "ids" \in DOMAIN o THEN [d EXCEPT !.root = Bind(d.root, o.ids)] ELSE d

Load ==
  LET x == Cases[kase]
      p == IF NeedsParse THEN Parse(x.in) ELSE [ok |-> FALSE]
  IN
  /\ phase = 0 /\ kase' = kase
  /\ CASE x.r = "iter" -> Quit(x, 0, Must(\A z \in DOMAIN x.got : RunOk(x.script, x.got[z], x.n), "iterator"))
       [] x.r = "err" -> Quit(x, 0, OnErr(x, p))
       [] x.r \in {"hang", "panic", "dead"} ->
            Quit(x, 0, Must(~(Prop \in {"C02", "C04", "C05", "C06", "C07", "C21"} \/ x.edits), x.r))
       [] x.r = "ok" ->
            IF x.o.bad /= <<>> THEN Quit(x, 0, {"panic while reading"})
            ELSE LET codes == OnOk(x, p) IN
                 IF ~Modelled THEN Say(x, 0, codes) /\ phase' = 1 /\ docu' = NoDoc
                 ELSE IF ~p.ok \/ codes /= {} THEN Quit(x, 0, codes)
                 ELSE IF ~InSync(x.o, p.d) THEN Quit(x, 0, {})
                 ELSE phase' = 1 /\ docu' = Bound(x.o, p.d)

\* Observations of all documents after a step.
Obs(x, step) == IF step = 0 THEN <<x.o>> ELSE <<x.steps[step].o>> \o x.steps[step].f
Now(o) == [text |-> o.text, tree |-> o.tree]
Forked(x, step) ==
  LET a == Obs(x, step - 1)
      b == Obs(x, step)
      op == x.steps[step].op
      n == Len(a)
  IN IF op.op = "fork" THEN Must(Len(b) = n + 1 /\ SubSeq(b, 1, n) = a /\ b[n + 1] = a[op.d + 1], "fork")
     ELSE Must(Len(b) = n /\ \A z \in 1..n : z = op.d + 1 \/ b[z] = a[z], "other document")
          \union Must(op.op = "persist" => x.steps[step].res = "ok" /\ b = a, "persist")
          \union Must(op.twin => Now(b[1]) = Now(b[2]), "twin")

Step ==
  LET x == Cases[kase]
      s == x.steps[phase]
  IN
  /\ phase > 0 /\ phase <= Len(x.steps) /\ kase' = kase
  /\ IF s.res = "panic" THEN Quit(x, phase, {"panic"})
     ELSE IF s.o.bad /= <<>> \/ \E z \in DOMAIN s.f : s.f[z].bad /= <<>> THEN Quit(x, phase, {"panic while reading"})
     ELSE IF Prop \in {"C16", "C17"} THEN Goes(x, phase, Forked(x, phase), NoDoc)
     ELSE IF ~Modelled THEN Goes(x, phase, OnStep(x, s, Obs(x, phase - 1)[1], NoDoc, NoDoc, s.op, ""), NoDoc)
     ELSE LET op == Resolved(docu.root, s.op, s.o.tree)
              a == Apply(docu.root, op)
              e == [docu EXCEPT !.root = a.r]
              codes == OnStep(x, s, Obs(x, phase - 1)[1], docu, e, op, a.res)
                       \union IF Prop = "C11" /\ phase = Len(x.steps) THEN Must(Reused(x), "storage is not reused") ELSE {}
          IN IF codes = {} /\ ~InSync(s.o, e) THEN Quit(x, phase, {})
             ELSE Goes(x, phase, codes, IF codes = {} THEN Bound(s.o, e) ELSE NoDoc)

Next == Load \/ Step
=============================================================================
