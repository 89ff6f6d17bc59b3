------------------------------- MODULE Float -------------------------------
(* Which float a decimal literal denotes: exact arithmetic on natural        *)
(* numbers, as sequences of limbs in base 10000, least significant first.    *)
EXTENDS Scalar

Base == 10000
Upto(k) == [i \in 1..k |-> i]

Times(a, k) ==
  LET r == FoldL(LAMBDA z, x : LET t == x * k + z[2] IN <<Append(z[1], t % Base), t \div Base>>, <<<<>>, 0>>, a)
  IN IF r[2] = 0 THEN r[1] ELSE IF r[2] < Base THEN Append(r[1], r[2]) ELSE r[1] \o <<r[2] % Base, r[2] \div Base>>
Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
Plus(a, b) ==
  LET r == FoldL(LAMBDA z, i : LET t == Limb(a, i) + Limb(b, i) + z[2] IN <<Append(z[1], t % Base), t \div Base>>,
                 <<<<>>, 0>>, Upto(IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)))
  IN IF r[2] = 0 THEN r[1] ELSE Append(r[1], r[2])
RECURSIVE Less1(_), Trim(_), CmpL(_, _, _)
\* One less than a positive number.
Less1(a) == IF a[1] > 0 THEN <<a[1] - 1>> \o Tail(a) ELSE <<Base - 1>> \o Less1(Tail(a))
Trim(a) == IF a /= <<>> /\ a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a
\* The product, digit by digit of b.
Mul(a, b) == FoldL(LAMBDA z, i : Plus(<<0>> \o z, Times(a, b[Len(b) + 1 - i])), <<>>, Upto(Len(b)))
CmpL(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpL(a, b, i - 1)
Cmp(x, y) == LET a == Trim(x)
                 b == Trim(y)
             IN IF Len(a) /= Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE CmpL(a, b, Len(a))

Pow2Small == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096>>
Pow2Large == TLCEval(FoldL(LAMBDA z, i : Append(z, Times(z[i], 8192)), <<<<1>>>>, Upto(100)))
Pow2(j) == Times(Pow2Large[j \div 13 + 1], Pow2Small[(j % 13) + 1])
Pow10Small == <<1, 10, 100, 1000>>
Times10(a, k) == [i \in 1..(k \div 4) |-> 0] \o Times(a, Pow10Small[(k % 4) + 1])

RECURSIVE Limbs(_)
\* The number which digits spell.
Limbs(d) == IF d = "" THEN <<>> ELSE
            LET l == Len(d)
                h == IF l > 4 THEN SubSeq(d, l - 3, l) ELSE d
            IN <<FoldL(LAMBDA z, x : z * 10 + HexVal[x], 0, Chars(h))>> \o Limbs(IF l > 4 THEN SubSeq(d, 1, l - 4) ELSE "")
RECURSIVE Small(_, _)
Small(d, acc) == IF d = "" THEN acc ELSE Small(SubSeq(d, 2, Len(d)), acc * 10 + HexVal[SubSeq(d, 1, 1)])
FourDigits(x) == LET s == ToString(x) IN SubSeq("0000", 1, 4 - Len(s)) \o s
\* The digits of a number.
Spelled(x) == LET a == Trim(x) IN IF a = <<>> THEN "0" ELSE Strip0(MapCat(FourDigits, [i \in DOMAIN a |-> a[Len(a) + 1 - i]]))

\* A literal: its sign, digits, and power of ten.
Decimal(s) ==
  LET c == Ctx(s)
      st == IF At(c, 1) = "-" THEN 2 ELSE 1
      pe == Find(c, st, {"e", "E"})
      pd == LET p == Find(c, st, {"."}) IN IF p < pe THEN p ELSE pe
      fr == Cut(c, pd + 1, pe)
      es == IF At(c, pe + 1) \in {"+", "-"} THEN pe + 2 ELSE pe + 1
      ed == IF pe > c.n THEN "0" ELSE Strip0(Cut(c, es, c.n + 1))
      ex == IF Len(ed) > 6 THEN 999999 ELSE Small(ed, 0)
  IN [neg |-> st = 2, d |-> Strip0(Cut(c, st, pd) \o fr), k |-> (IF At(c, pe + 1) = "-" THEN -ex ELSE ex) - Len(fr)]

\* Compare d * 10^k with a * 2^j.
CmpTo(d, k, a, j) ==
  LET l == IF k >= 0 THEN Times10(d, k) ELSE d
      r == IF k >= 0 THEN a ELSE Times10(a, -k)
  IN IF j >= 0 THEN Cmp(l, Mul(Pow2(j), r)) ELSE Cmp(Mul(Pow2(-j), l), r)

Even(a) == Limb(a, 1) % 2 = 0
\* Whether d * 10^k is nearest to the float with the exponent and fraction as
\* they are stored, ties being even.  A fraction has p bits, top is the exponent
\* of infinities.
NearestTo(d, k, expo, frac, p, top) ==
  LET bias == top \div 2
      m == IF expo = 0 THEN Trim(frac) ELSE Plus(frac, Pow2(p))
      e == (IF expo = 0 THEN 1 ELSE expo) - bias - p
      up == CmpTo(d, k, Plus(Times(m, 2), <<1>>), e - 1)
      narrow == expo > 1 /\ Trim(frac) = <<>>
      down == IF narrow THEN CmpTo(d, k, Less1(Times(m, 4)), e - 2) ELSE CmpTo(d, k, Less1(Times(m, 2)), e - 1)
  IN IF expo = top
     THEN Trim(frac) = <<>> /\ CmpTo(d, k, Less1(Pow2(p + 2)), top - 2 - bias - p) >= 0
     ELSE /\ up < 0 \/ (up = 0 /\ Even(m))
          /\ m = <<>> \/ down > 0 \/ (down = 0 /\ Even(m))

Nibbles(b) == [i \in 1..Len(b) |-> HexVal[SubSeq(b, i, i)]]
FromNibbles(z) == FoldL(LAMBDA a, x : Plus(Times(a, 16), <<x>>), <<>>, z)
\* Whether the literal denotes the float with the given bits.
Denotes(s, bits, ty) ==
  LET z == Nibbles(bits)
      x == Decimal(s)
      h == z[1] * 256 + z[2] * 16 + z[3]
      wide == ty = "f64"
      expo == IF wide THEN h % 2048 ELSE (h \div 8) % 256
      frac == FromNibbles(IF wide THEN SubSeq(z, 4, 16) ELSE <<h % 8>> \o SubSeq(z, 4, 8))
      p == IF wide THEN 52 ELSE 23
      top == IF wide THEN 2047 ELSE 255
      mag == Len(x.d) + x.k
  IN /\ Len(bits) = (IF wide THEN 16 ELSE 8)
     /\ (z[1] >= 8) = x.neg
     /\ IF x.d = "0" \/ mag < -400 THEN expo = 0 /\ Trim(frac) = <<>>
        ELSE IF mag > 400 THEN expo = top /\ Trim(frac) = <<>>
        ELSE NearestTo(Limbs(x.d), x.k, expo, frac, p, top)
=============================================================================
