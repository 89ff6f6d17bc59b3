------------------------------- MODULE MCText -------------------------------
(* Every text of up to K tokens: what the grammar says of it.                *)
EXTENDS Parse

CONSTANT K

Alphabets == <<<<"a", ": ", "- ", NL, " ", "[", "]", ",", "#", "\"", "'", "{", "}", "|", "~">>,
               <<"k:", "- ", NL, " ", "a", "'b':">>,
               <<"k:", "-", NL, NL \o "  ", " ">>,
               <<"[", "]", "{", "}", ",", "a", "b: ">>,
               <<"0", "1", ".", "e", "-", "+", " ", "#">>,
               <<"|", ">", NL, " ", "a", "-", "+", "b: ">>,
               <<"\"", "\\", "x", "u", "0", "d", "'">>,
               <<NUL, "{", "}", "[", "]", ":", ",", "'", "\"", "a", NL, "\\">>,
               <<CR, TAB, FF, NL, "- ", "#", "a", ":", "[", "|", "'">>,
               <<Byte(255), Byte(195) \o Byte(169), Byte(194) \o Byte(160), NL, "- ", ":", " ", "'", "[", "%">>,
               <<"---", "%", NL, "- ", "a", " ", ":", "#", "[">>>>

VARIABLES abc, txt, len

Init == txt = "" /\ len = 0 /\ abc \in DOMAIN Alphabets
Next == /\ len < K /\ len' = len + 1 /\ abc' = abc
        /\ \E i \in DOMAIN Alphabets[abc] : txt' = txt \o Alphabets[abc][i]

\* It is a document which has this text, or there is an error within it.
Total == LET r == Parse(txt) IN
         IF r.ok THEN Text(r.d) = txt ELSE r.kind /= "" /\ 0 <= r.s /\ r.s <= r.e /\ r.e <= Len(txt) + 1
\* A document remains one with line breaks behind it, unless a block scalar
\* or something which was left open takes them.
RECURSIVE EndsOpen(_)
EndsOpen(n) == IF IsColl(n) THEN (n.it /= <<>> /\ ~n.fl /\ EndsOpen(n.it[Len(n.it)].val))
               ELSE n.k = "str" /\ n.txt /= "" /\ SubSeq(n.txt, 1, 1) \in {"|", ">", "'", "\""}
Ended == LET r == Parse(txt) IN
         r.ok => LET q == Parse(txt \o NL) IN EndsOpen(r.d.root) \/ (q.ok /\ Tree(q.d.root) = Tree(r.d.root) /\ q.d.suf = r.d.suf \o NL) \/ r.d.root.k = "null"
Emit == PrintT(<<"H", 0, ToJson(txt)>>)
=============================================================================
