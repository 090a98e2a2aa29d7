------------------------------- MODULE Quad -------------------------------
(* Gauss-Legendre rule (property C03) and the two grids built from it: the  *)
(* loop momentum grid, uniform in log q, and the cosine grid.               *)
EXTENDS Lookup

(* <<P_n(x), P_{n-1}(x)>> by the three-term recurrence                       *)
Legendre(n, x) ==
  FoldLeft(LAMBDA a, j : <<((2 * j - 1) * x * a[1] - (j - 1) * a[2]) / j, a[1]>>,
           <<Flt(1), Flt(0)>>, [j \in 1 .. n |-> j])
LegendreSlope(n, x, pp) == (n * (x * pp[1] - pp[2])) / (x * x - 1)

NewtonRoot(n, z0) ==
  FoldLeft(LAMBDA z, j : LET pp == Legendre(n, z) IN z - pp[1] / LegendreSlope(n, z, pp),
           z0, <<1, 2, 3, 4, 5, 6>>)

(* nodes in increasing order and weights on [-1, 1]                          *)
GLCalc(n) ==
  LET h == n \div 2
      pos == Tup([i \in 1 .. h |-> NewtonRoot(n, Cos((Pi * (i - D("0.25"))) / (n + D("0.5"))))])   \* decreasing, > 0
      wt(z) == LET s == LegendreSlope(n, z, Legendre(n, z)) IN 2 / ((1 - z * z) * s * s)
      wp == Tup([i \in 1 .. h |-> wt(pos[i])])
      mid == IF n % 2 = 1 THEN <<Flt(0)>> ELSE <<>>
      wm == IF n % 2 = 1 THEN <<wt(Flt(0))>> ELSE <<>>
      neg == Tup([i \in 1 .. h |-> -pos[i]])
  IN [z |-> neg \o mid \o Reverse(pos), w |-> wp \o wm \o Reverse(wp)]

GL(n) == Once("GL" \o Txt(n), GLCalc(n))

Nodes(n, lo, hi) == LET g == GL(n) IN
  [x |-> Tup([i \in 1 .. n |-> (hi + lo) / 2 + ((hi - lo) / 2) * g.z[i]]),
   w |-> Tup([i \in 1 .. n |-> ((hi - lo) / 2) * g.w[i]])]

(* range of a setting: the one given, or the ends of the table                *)
RangeOf(set, t) ==
  IF set.min \leq 0 \/ set.max \leq 0 THEN <<t.k[1], t.k[t.n]>> ELSE <<set.min, set.max>>

(* loop-momentum grid of a setting [n, min, max, ipl] for table t             *)
QGrid(set, t) == Once(JText(<<"Q", set, t.k, t.p>>),
  LET r == RangeOf(set, t)
      g == Nodes(set.n, Log(r[1]), Log(r[2]))
      q == Tup([i \in 1 .. set.n |-> Exp(g.x[i])])
  IN [n |-> set.n, q |-> q, w |-> g.w, p |-> Tup([i \in 1 .. set.n |-> FindPk(t, q[i], set.ipl)])])

(* cosine range for which |k - q| stays between the ends of the grid          *)
MuRange(x, xmin, xmax, half) ==
  LET lo == Max2(Flt(-1), ((1 + x * x - xmax * xmax) / 2) / x)
      hi == Min2(Flt(1), ((1 + x * x - xmin * xmin) / 2) / x)
  IN IF lo \geq 1 \/ hi \leq -1 \/ hi \leq lo THEN <<FALSE, lo, hi>>
     ELSE <<TRUE, lo, IF half /\ x \geq 1 / 2 THEN (1 / 2) / x ELSE hi>>

(* Sum over the (q, mu) grid of the vector Kern(iq, x, mu) with weight wq * Jac(x) * wmu *)
QMuSum(g, nmu, k, half, Kern(_, _, _), Jac(_)) ==
  LET row(i) ==
        LET x == g.q[i] / k
            m == MuRange(x, g.q[1] / k, g.q[g.n] / k, half)
        IN IF ~m[1] THEN <<>>
           ELSE LET gm == Nodes(nmu, m[2], m[3])
                IN VSum(Tup([j \in 1 .. nmu |-> VScale(gm.w[j] * g.w[i] * Jac(x), Kern(i, x, gm.x[j]))]))
  IN VSum(Tup([i \in 1 .. g.n |-> row(i)]))
===========================================================================
