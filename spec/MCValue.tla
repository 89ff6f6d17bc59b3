------------------------------ MODULE MCValue -------------------------------
(* Every string of up to K tokens, stored everywhere: as a value and as a    *)
(* key, in block and in inline collections.                                  *)
EXTENDS Judge

CONSTANTS K, Part, Parts

Tokens == <<"a", " ", ":", "#", "'", "\"", ",", "-", "~", NL, "\\", "1", ".", "[", "}", "null", Byte(195) \o Byte(169), "%", "?", "&", TAB, Byte(194) \o Byte(133)>>

VARIABLES txt, len

Init == txt = "" /\ len = 0
Next == /\ len < K /\ len' = len + 1
        /\ \E i \in DOMAIN Tokens : (len = 0 => i % Parts = Part) /\ txt' = txt \o Tokens[i]

\* Written as a value it reads back.
Places == {<<"", "", FALSE, <<>>>>, <<"k: ", NL, FALSE, <<1>>>>, <<"- ", NL \o "- b", FALSE, <<1>>>>, <<"- - ", "", FALSE, <<1, 1>>>>, <<"[", "]", TRUE, <<1>>>>,
           <<"[a,", ",b]", TRUE, <<2>>>>, <<"{k: ", ", l: 1}", TRUE, <<1>>>>, <<"k: [", "]" \o NL, TRUE, <<1, 1>>>>}
ReadsAs(p, w, s) == LET r == Parse(p[1] \o w \o p[2]) IN r.ok /\ HasPath(r.d.root, p[4]) /\ LET n == Sub(r.d.root, p[4]) IN n.k = "str" /\ n.v = s
ValueBack == \A p \in Places : ReadsAs(p, Written(txt, Style(txt, p[3])), txt)
DoubleBack == \A p \in Places : ReadsAs(p, Double(txt), txt)
SingleBack == Has(txt, {NL}) \/ \A p \in Places : ReadsAs(p, Single(txt), txt)
\* And written as a key.
KeyBack == \A p \in {<<"", ": 1", FALSE>>, <<"a: 1" \o NL, ": 2" \o NL, FALSE>>, <<"{", ": 1}", TRUE>>, <<"{k: 1, ", ": 2}", TRUE>>} :
             LET r == Parse(p[1] \o Written(txt, Style(txt, p[3])) \o p[2]) IN r.ok /\ r.d.root.k = "map" /\ r.d.root.it[Len(r.d.root.it)].kv = txt
Emit == IF len < K THEN TRUE ELSE PrintT(<<"H", 0, ToJson(txt)>>)
=============================================================================
