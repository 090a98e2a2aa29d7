------------------------------- MODULE ACorr -------------------------------
(* One-loop A correction (property C13), Taruya et al 2010 eq A3.            *)
EXTENDS Quad

AMix(x, m) == LET m2 == m * m  m3 == m2 * m  m4 == m2 * m2  x2 == x * x IN <<
  -(Cube(x) / 7) * (m + 6 * m3 + x2 * m * (-3 + 10 * m2) + x * (-3 + m2 - 12 * m4)),
  ((Sq(x2) / 14) * (m2 - 1)) * (-1 + 7 * x * m - 6 * m2),
  (Cube(x) / 14) * (x2 * m * (13 - 41 * m2) - 4 * (m + 6 * m3) + x * (5 + 9 * m2 + 42 * m4)),
  ((Sq(x2) / 14) * (m2 - 1)) * (-1 + 7 * x * m - 6 * m2),
  ((Cube(x) / 14) * (1 - 7 * x * m + 6 * m2)) * (-2 * m + x * (-1 + 3 * m2)) >>
ATil(x, m) == LET m2 == m * m  m4 == m2 * m2  x2 == x * x IN <<
  ((1 / 7) * (m + x - 2 * x * m2)) * (3 * x + 7 * m - 10 * x * m2),
  ((x / 14) * (m2 - 1)) * (3 * x + 7 * m - 10 * x * m2),
  (1 / 14) * (28 * m2 + x * m * (25 - 81 * m2) + x2 * (1 - 27 * m2 + 54 * m4)),
  ((x / 14) * (1 - m2)) * (x - 7 * m + 6 * x * m2),
  ((1 / 14) * (x - 7 * m + 6 * x * m2)) * (-2 * m - x + 3 * x * m2) >>

(* one-dimensional part: limits for small and large x, exact between          *)
ASmall(x) == LET y == x * x IN <<
  (8 * IPow(y, 4)) / 735 + (24 * Cube(y)) / 245 - ((24 * y) * y) / 35 + (8 * y) / 7 - 2 / 3,
  -(16 * IPow(y, 4)) / 8085 - (16 * Cube(y)) / 735 + ((48 * y) * y) / 245 - (16 * y) / 35,
  (32 * IPow(y, 4)) / 1617 + (128 * Cube(y)) / 735 - ((288 * y) * y) / 245 + (64 * y) / 35 - 4 / 3,
  -(16 * IPow(y, 4)) / 8085 - (16 * Cube(y)) / 735 + ((48 * y) * y) / 245 - (16 * y) / 35,
  (24 * IPow(y, 4)) / 2695 + (8 * Cube(y)) / 105 - ((24 * y) * y) / 49 + (24 * y) / 35 - 2 / 3 >>
ALarge(x) == LET z == 1 / (x * x)
  b == -16 / 35 + (48 / 245) * z - ((16 / 735) * z) * z - (16 / 8085) * Cube(z) - (16 / 35035) * IPow(z, 4) IN <<
  2 / 105 - (24 / 245) * z - ((8 / 735) * z) * z - (8 / 2695) * Cube(z) - (8 / 7007) * IPow(z, 4),
  b,
  -44 / 105 - ((32 / 735) * z) * z - (64 / 8085) * Cube(z) - (96 / 35035) * IPow(z, 4),
  b,
  -46 / 105 + (24 / 245) * z - ((8 / 245) * z) * z - (8 / 1617) * Cube(z) - (8 / 5005) * IPow(z, 4) >>
AExact(x) == LET y == x * x
  l == IF Abs(x - 1) \leq D("3e-14") THEN Flt(0) ELSE Log(Abs((x + 1) / (x - 1)))
  d == y - 1
  b == ((2 * x * (y + 1) * (3 - 14 * y + 3 * y * y) - 3 * IPow(d, 4) * l) / 112) / Cube(x) IN <<
  -((2 * x * (19 - 24 * y + 9 * y * y) - 9 * Cube(d) * l) / 84) / x,
  b,
  ((2 * x * (9 - 185 * y + 159 * y * y - 63 * Cube(y)) + 9 * Cube(d) * (7 * y + 1) * l) / 336) / Cube(x),
  b,
  ((2 * x * (9 - 109 * y + 63 * y * y - 27 * Cube(y)) + 9 * Cube(d) * (3 * y + 1) * l) / 336) / Cube(x) >>
AOneD(x) == IF x < D("1e-4") THEN ASmall(x) ELSE IF x > 100 THEN ALarge(x) ELSE AExact(x)
(* magnitude of the terms that cancel in it                                   *)
AOneDScale(x) == IF x < D("1e-4") \/ x > 100 THEN Flt(2)
                 ELSE (1 / (x * x) + 1 + IPow(x, 4)) * D("1e-1") + 2

ATerms(k, g, nmu, iplq, iplmu, t) ==
  LET pk == FindPk(t, k, iplq)
      mix(i, x, m) ==
        LET s == 1 + x * x - 2 * m * x
            pkq == FindPk(t, k * Sqrt(s), iplmu) / (s * s)
            a == AMix(x, m)  b == ATil(x, m)
        IN Tup([j \in 1 .. 5 |-> (a[j] * pk + b[j] * g.p[i]) * pkq])
           \o Tup([j \in 1 .. 5 |-> (Abs(a[j] * pk) + Abs(b[j] * g.p[i])) * Abs(pkq)])
      id(x) == x
      one == [i \in 1 .. g.n |->
               LET x == g.q[i] / k
               IN IF ~MuRange(x, g.q[1] / k, g.q[g.n] / k, FALSE)[1] THEN Tup([j \in 1 .. 10 |-> Flt(0)])
                  ELSE VScale(x * g.w[i] * pk * g.p[i], AOneD(x)) \o
                       Tup([j \in 1 .. 5 |-> Abs(x * g.w[i] * pk * g.p[i]) * AOneDScale(x)])]
      s == VScale(Cube(k) / (4 * Pi * Pi), VSum(<<VSum(Tup(one)), QMuSum(g, nmu, k, FALSE, mix, id)>>))
  IN [val |-> SubSeq(s, 1, 5), sc |-> SubSeq(s, 6, 10)]
============================================================================
