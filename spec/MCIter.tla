------------------------------- MODULE MCIter -------------------------------
(* Every sequence of up to Calls calls of an iterator over n elements.       *)
EXTENDS Judge

CONSTANTS Calls, Size

VARIABLES n, lo, hi, past, seen

Init == n \in 0..Size /\ lo = 0 /\ hi = n /\ past = <<>> /\ seen = <<>>
Call == {<<"next", 0>>, <<"back", 0>>} \union {<<c, i>> : c \in {"nth", "nthback"}, i \in 0..(Size \div 2 + 1)}
Next == /\ Len(past) < Calls /\ n' = n
        /\ \E c \in Call : LET e == Ends(lo, hi, c) IN
             /\ lo' = e.lo /\ hi' = e.hi /\ past' = Append(past, c) /\ seen' = Append(seen, e.pos)
\* No element twice; those from the front ascend, those from the back descend.
Once == \A i \in DOMAIN seen : \A j \in 1..(i - 1) :
          /\ seen[i] = -1 \/ seen[j] = -1 \/ seen[i] /= seen[j]
          /\ past[i][1] \in {"next", "nth"} /\ past[j][1] \in {"next", "nth"} /\ seen[i] >= 0 => seen[j] >= 0 /\ seen[j] < seen[i]
          /\ past[i][1] \in {"back", "nthback"} /\ past[j][1] \in {"back", "nthback"} /\ seen[i] >= 0 => seen[j] > seen[i]
Within == 0 <= lo /\ lo <= hi /\ hi <= n /\ \A i \in DOMAIN seen : seen[i] \in -1..(n - 1)
\* What is left is what was not passed.
Left == \A i \in DOMAIN seen : seen[i] < lo \/ seen[i] >= hi
Emit == IF Len(past) < Calls THEN TRUE ELSE PrintT(<<"H", n, ToJson(past)>>)
=============================================================================
