------------------------------- MODULE MCFloat -------------------------------
(* Floats of a tiny format, where every literal has exactly one nearest one; *)
(* and literals half way between two floats of the formats there are.        *)
EXTENDS Float

CONSTANT Wide

VARIABLE lit

Tiny == {<<"tiny", d, k>> : d \in 0..130, k \in -4..2}
Expos(top) == LET b == top \div 2 IN
              {b + i : i \in -4..4} \union {b + i : i \in (IF top > 255 THEN {-70, -30, 51, 52, 53, 54, 64, 100} ELSE {-70, -30, 22, 23, 24, 25, 64, 100})} \union {top - 2, top - 1}
              \union (IF top = 255 THEN {0, 1, 2, 3} ELSE IF Wide THEN {0, 1, 2} ELSE {0})
Fracs(p) == {<<>>, <<1>>, <<2>>, Less1(Pow2(p)), Less1(Less1(Pow2(p))), Pow2(p - 1), Plus(Pow2(p - 3), <<1>>), <<77, 88, 99>>}
Half == {<<t, e, f>> : t \in {"f32"}, e \in Expos(255), f \in Fracs(23)}
        \union {<<t, e, f>> : t \in {"f64"}, e \in Expos(2047), f \in IF Wide THEN Fracs(52) ELSE {<<>>, <<1>>, <<2>>, Less1(Pow2(52))}}

Init == lit \in Tiny \union Half
Next == UNCHANGED lit

Unique == lit[1] /= "tiny" \/
          Cardinality({x \in (0..7) \X (0..3) : NearestTo(Limbs(ToString(lit[2])), lit[3], x[1], <<x[2]>>, 2, 7)}) = 1

RECURSIVE Pow5(_, _)
Pow5(a, j) == IF j >= 4 THEN Pow5(Times(a, 625), j - 4) ELSE IF j = 0 THEN a ELSE Pow5(Times(a, 5), j - 1)
\* The middle between a float and the next one.
Middle ==
  LET p == IF lit[1] = "f64" THEN 52 ELSE 23
      top == IF lit[1] = "f64" THEN 2047 ELSE 255
      m == IF lit[2] = 0 THEN lit[3] ELSE Plus(lit[3], Pow2(p))
      a == Plus(Times(m, 2), <<1>>)
      j == (IF lit[2] = 0 THEN 1 ELSE lit[2]) - top \div 2 - p - 1
  IN IF j >= 0 THEN [d |-> Spelled(Mul(Pow2(j), a)), d1 |-> Spelled(Less1(Mul(Pow2(j), a))), k |-> 0]
     ELSE [d |-> Spelled(Pow5(a, -j)), d1 |-> Spelled(Less1(Pow5(a, -j))), k |-> -j]
Expo(k) == IF k = 0 THEN "" ELSE "e-" \o ToString(k)
Point(d, k) == IF k > 0 /\ k < Len(d) THEN SubSeq(d, 1, Len(d) - k) \o "." \o SubSeq(d, Len(d) - k + 1, Len(d)) ELSE d \o Expo(k)
\* The middle itself, just below, and just above.
Literals == LET x == Middle IN <<Point(x.d, x.k), "-" \o x.d \o Expo(x.k), x.d1 \o "9" \o Expo(x.k + 1), x.d \o "00001" \o Expo(x.k + 5), Point(x.d1, x.k)>>
\* The two floats next to the middle, as the literals around it denote them.
Sides == lit[1] = "tiny" \/
         LET p == IF lit[1] = "f64" THEN 52 ELSE 23
             top == IF lit[1] = "f64" THEN 2047 ELSE 255
             near(s) == LET x == Decimal(s) IN NearestTo(Limbs(x.d), x.k, lit[2], lit[3], p, top)
             x == Middle
         IN /\ near(x.d1 \o "9" \o Expo(x.k + 1))
            /\ ~near(x.d \o "00001" \o Expo(x.k + 5))
            /\ near(x.d \o Expo(x.k)) = Even(lit[3])
Emit == IF lit[1] = "tiny" THEN TRUE ELSE PrintT(<<"H", 0, ToJson(Literals)>>)
=============================================================================
