------------------------------ MODULE OneLoop ------------------------------
(* One-loop power-spectrum terms (property C11): propagator correction and  *)
(* tree mode coupling.  fld is "delta" or "theta".                          *)
EXTENDS Quad, PT

(* 504 x (density) or 168 x (velocity) angle-averaged third-order kernel      *)
G1Exact(fld, x) ==
  LET x2 == x * x
      l == Log(Sq((1 + x) / (1 - x)))   \* ln ((1+x)/(1-x))^2
      c == Cube(x2 - 1) / Cube(x)
  IN IF fld = "theta" THEN (6 / x2 - 41 + 2 * x2 - 3 * x2 * x2 + (((3 / 4) * c) * (2 + x2)) * l) / 168
     ELSE (6 / x2 - 79 + 50 * x2 - 21 * x2 * x2 + (((3 / 4) * c) * (2 + 7 * x2)) * l) / 504
G1Near(fld, d) == IF fld = "theta" THEN -3 / 14 - (5 / 42) * d + (d * d) / 84
                  ELSE -11 / 126 + d / 126 - ((29 / 252) * d) * d
G1Far(fld, x2) == IF fld = "theta" THEN -3 / 10 + (26 / 245) / x2 - ((38 / 2205) / x2) / x2
                  ELSE -61 / 630 + (2 / 105) / x2 - ((10 / 1323) / x2) / x2
G1(fld, x) ==
  IF Abs(x - 1) < D("0.01") THEN G1Near(fld, x - 1)
  ELSE IF x > 10 THEN G1Far(fld, x * x)
  ELSE G1Exact(fld, x)
(* the same for any x from the third-order kernel itself: 3 x^2 <F3(k, q, -q)> *)
G1Avg(fld, x, n) ==
  LET g == GL(n)
      k == <<Flt(0), Flt(0), Flt(1)>>
      at(m) == LET q == <<x * Sqrt(1 - m * m), Flt(0), x * m>>
                   A == Leg(q)  B == Leg(Neg3(q))  C == Leg(k)
                   a == Split(3, 1 / 3, A, Pair(B, C))  b == Split(3, 1 / 3, B, Pair(A, C))
               IN IF fld = "theta" THEN a[2] + b[2] ELSE a[1] + b[1]
  IN 3 * x * x * Sum(Tup([i \in 1 .. n |-> (g.w[i] / 2) * at(g.z[i])]))

Gamma1Loop(fld, k, g) ==
  (Cube(k) / (2 * Pi * Pi)) * Sum(Tup([i \in 1 .. g.n |-> LET x == g.q[i] / k IN x * G1(fld, x) * g.p[i] * g.w[i]]))
Gamma1Scale(fld, k, g) ==   \* magnitude of the summed terms before cancellation
  (Cube(k) / (2 * Pi * Pi)) * SumAbs(Tup([i \in 1 .. g.n |->
     LET x == g.q[i] / k IN x * g.p[i] * g.w[i] *
        (Abs(G1(fld, x)) + (IF x > 10 THEN 0 ELSE (12 / (x * x) + 160 + 100 * x * x + 42 * IPow(x, 4)) * D("1e-3")))]))

TreeKernel(a, b, k, q, kq, pq, pkq) ==
  LET d == (k * k - kq * kq - q * q) / 2
  IN 2 * F2(a, q * q, kq * kq, d) * F2(b, q * q, kq * kq, d) * pq * pkq

(* <<value, scale>> *)
TreeTree(a, b, k, g, nmu, iplmu, t) ==
  LET kern(i, x, m) ==
        LET kq == k * Sqrt(1 + x * x - 2 * m * x)
            v == TreeKernel(a, b, k, g.q[i], kq, g.p[i], FindPk(t, kq, iplmu))
        IN <<v, Abs(v)>>
  IN VScale(Cube(k) / (2 * Pi * Pi), QMuSum(g, nmu, k, TRUE, kern, Cube))
============================================================================
