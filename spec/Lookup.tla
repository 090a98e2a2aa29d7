------------------------------ MODULE Lookup ------------------------------
(* The linear power spectrum as a function of wavenumber: a table          *)
(* [k, p] with interpolation inside and power laws outside, and the running *)
(* displacement dispersion (properties C01, C02).                           *)
EXTENDS F64, Sequences

(* mean logarithmic slope over the table points lo..hi (interior points);   *)
(* <<FALSE, 0>> when the window contains a non-positive power.              *)
LogSlope(k, p, lo, hi) ==
  IF \E i \in (lo - 1) .. (hi + 1) : p[i] \leq 0 THEN <<FALSE, 0>>
  ELSE LET s == Tup([j \in 1 .. (hi - lo + 1) |->
                   LET i == lo + j - 1 IN Log(p[i+1] / p[i-1]) / Log(k[i+1] / k[i-1])])
       IN <<TRUE, Sum(s) / (hi - lo + 1)>>

(* A table with its two end slopes.                                         *)
MkTab(k, p) ==
  LET n == Len(k)
  IN [k |-> k, p |-> p, n |-> n,
      lo |-> LogSlope(k, p, 2, Min2(15, n - 1)),
      hi |-> LogSlope(k, p, Max2(2, n - 15), n - 1)]

(* Lagrange form of the polynomial through points lo..hi.                   *)
LagrangeW(k, lo, hi, x) ==
  Tup([a \in 1 .. (hi - lo + 1) |->
     LET i == lo + a - 1
     IN FoldLeft(LAMBDA acc, j : IF j = i THEN acc ELSE (acc * (x - k[j])) / (k[i] - k[j]), Flt(1),
                 [b \in 1 .. (hi - lo + 1) |-> lo + b - 1])])

PolyThrough(k, p, lo, hi, x) ==
  LET w == LagrangeW(k, lo, hi, x) IN Dot(w, SubSeq(p, lo, hi))
PolyScale(k, p, lo, hi, x) ==
  LET w == LagrangeW(k, lo, hi, x) IN SumAbs(Tup([a \in 1 .. (hi - lo + 1) |-> w[a] * p[lo + a - 1]]))

Line(x0, x1, y0, y1, x) == y0 + ((y1 - y0) * (x - x0)) / (x1 - x0)

FindPk(t, x, ipl) ==
  IF x > t.k[t.n] THEN IF t.hi[1] THEN t.p[t.n] * Pow(x / t.k[t.n], t.hi[2]) ELSE Flt(0)
  ELSE IF x < t.k[1] THEN IF t.lo[1] THEN t.p[2] * Pow(x / t.k[2], t.lo[2]) ELSE Flt(0)
  ELSE LET i == Rank(t.k, x)
       IN IF Eq(t.k[i], x) THEN t.p[i]
          ELSE IF ipl = "poly" THEN PolyThrough(t.k, t.p, Max2(1, i - 2), Min2(t.n, i + 2), x)
          ELSE Line(t.k[i], t.k[i+1], t.p[i], t.p[i+1], x)

(* magnitude against which rounding of one lookup is measured               *)
FindPkScale(t, x, ipl) ==
  IF x > t.k[t.n] \/ x < t.k[1] THEN Abs(FindPk(t, x, ipl))
  ELSE LET i == Rank(t.k, x)
       IN IF ipl = "poly" THEN PolyScale(t.k, t.p, Max2(1, i - 2), Min2(t.n, i + 2), x)
          ELSE Max2(Abs(t.p[i]), Abs(t.p[Min2(i+1, t.n)]))

(* 1/(6 pi^2) int_{k_1}^{uv k} P dq, trapezes, linear interpolation at the end *)
TrapTo(t, i) ==    \* integral up to table point i
  Sum(Tup([j \in 1 .. (i - 1) |-> ((t.p[j] + t.p[j+1]) * (t.k[j+1] - t.k[j])) / 2]))
SigmaD2(t, k, uv) ==
  LET km == k * uv
  IN IF km < t.k[1] THEN Flt(0)
     ELSE IF km \geq t.k[t.n] THEN TrapTo(t, t.n) / (6 * Pi * Pi)
     ELSE LET i  == Rank(t.k, km)
              pm == Line(t.k[i], t.k[i+1], t.p[i], t.p[i+1], km)
          IN (TrapTo(t, i) + ((t.p[i] + pm) * (km - t.k[i])) / 2) / (6 * Pi * Pi)
SigmaD2Scale(t) ==
  SumAbs(Tup([j \in 1 .. (t.n - 1) |-> ((Abs(t.p[j]) + Abs(t.p[j+1])) * (t.k[j+1] - t.k[j])) / 2])) / (6 * Pi * Pi)
===========================================================================
