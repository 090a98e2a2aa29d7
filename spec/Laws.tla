--------------------------------- MODULE Laws ---------------------------------
(* Laws the numeric part of the specification must obey whatever its formulas   *)
(* say: symmetries, conservation, limits, agreement of a published fit or        *)
(* expansion with what it stands for, agreement of a published kernel with the    *)
(* definition it was derived from.  One state per law and sample point.           *)
EXTENDS Machine, Inputs
LOCAL INSTANCE TLC
VARIABLES law, i
Samples == IF Env("VERIF_TIER") = "thorough" THEN 1000 ELSE 40

Agree(a, b, tol) == Abs(a - b) \leq tol * Max2(D("1e-300"), Max2(Abs(a), Abs(b)))
Alike(a, b, sc, tol) == Abs(a - b) \leq tol * sc
Rnd(s, lo, hi) == LET u == U(i * 131 + s * 17) IN lo * Pow(Flt(hi) / lo, u)      \* log-uniform
Uni(s, lo, hi) == lo + (hi - lo) * U(i * 137 + s * 19)
Fl(s) == IF UInt(i * 7 + s, 2) = 0 THEN "delta" ELSE "theta"
Vec(s) == LET c == Uni(s, -D("0.95"), D("0.95"))  p == Uni(s + 1, Flt(0), 6)  r == Rnd(s + 2, D("0.05"), 3) IN <<r * Sqrt(1 - c * c) * Cos(p), r * Sqrt(1 - c * c) * Sin(p), r * c>>
VMul(a, v) == <<a * v[1], a * v[2], a * v[3]>>
Tb == LET t == Table(<<"cdm", "cdm2", "irr", "coarse", "t4", "neg">>[1 + ((i - 1) % 6)]) IN MkTab(t[1], t[2])
Good == LET t == Table("fine") IN MkTab(t[1], t[2])
RowAt(k, s) == [k |-> k, pk_lin |-> Uni(s, 1, 50), sigmad2 |-> Rnd(s + 1, D("1e-2"), 30), gamma1a_1loop |-> Uni(s + 2, -1, 1), gamma1b_1loop |-> Uni(s + 3, -1, 1),
                gamma1a_2loop |-> Uni(s + 4, -1, 1), gamma1b_2loop |-> Uni(s + 5, -1, 1), pk_gamma2_tree_tree |-> Uni(s + 6, 0, 20), pk_gamma2_tree_1loop |-> Uni(s + 7, -5, 5),
                pk_gamma2_1loop_1loop |-> Uni(s + 8, -5, 5), pk_gamma3_tree |-> Uni(s + 9, 0, 5)]
Scaled_(r, cls, g) == [c \in DOMAIN r |-> r[c] * IPow(Flt(g), 2 * Order(cls, c))]

(* the B integrand from its definition: F(q) F(k - q) averaged over the angle about k, *)
(* F(q) = q_z/q^2 (P_dt + beta q_z^2/q^2 P_tt), for k = 1                              *)
BDef(x, m, mu, beta, dk, tk, dq, tq) ==
  LET n == 32
      s == 1 + x * x - 2 * m * x
      qz(f) == x * (m * mu + Sqrt(1 - m * m) * Sqrt(1 - mu * mu) * Cos(f))
      at(f) == LET z == qz(f)  y == mu - z IN (z / (x * x)) * (dq + ((beta * z * z) / (x * x)) * tq) * (y / s) * (dk + ((beta * y * y) / s) * tk)
  IN x * x * x * mu * mu * beta * beta * (Sum(Tup([j \in 1 .. n |-> at(((j - D("0.5")) * 2 * Pi) / n)])) / n)
BSum(x, m, mu, beta, dk, tk, dq, tq) ==
  LET v == BKern(x, m, dk, tk, dq, tq)
      c == << v[1], -(v[2] + v[3]), v[4], v[5], -(v[6] + v[7]), v[8], -(v[9] + v[10]), v[11], v[12] >>
  IN x * Sum(Tup([j \in 1 .. 9 |-> c[j] * IPow(mu, 2 * BPowers[j][1]) * IPow(beta, BPowers[j][2])]))
(* the A correction of the tree bispectrum, with the kernels of the two-loop class      *)
ATree(k, g, nmu, t) ==
  LET kern(j, x, m) ==
        LET kp == k * Sqrt(1 + x * x - 2 * m * x)  p == g.q[j]
            tree(f, a, b, c) == F2(f, a * a, b * b, (c * c - a * a - b * b) / 2)
            Pk == FindPk(t, k, "poly")  Pp == g.p[j]  Pkp == FindPk(t, kp, "poly")
            bis(b, c) == 2 * (tree("theta", kp, k, p) * Pkp * Pk + tree(b, p, k, kp) * Pp * Pk + tree(c, p, kp, k) * Pp * Pkp)
            bisT(b, c) == 2 * (tree("theta", p, k, kp) * Pp * Pk + tree(b, kp, k, p) * Pkp * Pk + tree(c, p, kp, k) * Pkp * Pp)
        IN AComp(ProjA(x, m), ProjT(x, m), <<bis("delta", "delta"), bis("theta", "delta"), bis("delta", "theta"), bis("theta", "theta")>>,
                 <<bisT("delta", "delta"), bisT("theta", "delta"), bisT("delta", "theta"), bisT("theta", "theta")>>)
      id(x) == x
  IN VScale(Cube(k) / (2 * Pi * Pi), QMuSum(g, nmu, k, TRUE, kern, id))

Small(e, vs) == VMul(D("1e-3") * Sqrt(FoldLeft(Min2, Dot3(vs[1], vs[1]), Tup([j \in 1 .. Len(vs) |-> Dot3(vs[j], vs[j])])) / Dot3(e, e)), e)      \* a thousandth of the smallest of them, along e

Laws == { "second-order kernels", "third-order kernels", "propagator kernel", "fit", "expansions", "nodes", "cosines", "lookup", "dispersion", "A in one dimension",
          "B from its definition", "A from the bispectrum", "loop kernel", "fourth order", "growth", "orders", "rsd", "slices", "no wiggle", "window", "bias", "three-point" }
Holds ==
  CASE law = "second-order kernels" ->      \* symmetric; the recursion; nothing at zero total momentum
         LET u == Vec(1)  v == Vec(5)  f == Fl(1)  x == Pair(Leg(u), Leg(v))  sc == 1 + Sqrt(Dot3(u, u) / Dot3(v, v)) + Sqrt(Dot3(v, v) / Dot3(u, u)) IN
         /\ Alike(F2v(f, u, v), F2v(f, v, u), sc, D("1e-14")) /\ Alike(Val(f, x), F2v(f, u, v), sc, D("1e-11"))
         /\ Alike(F2v(f, u, Neg3(u)), Flt(0), Flt(1), D("1e-14"))
         /\ Alike(F2v(f, VMul(3, u), VMul(3, v)), F2v(f, u, v), sc, D("1e-11"))
    [] law = "third-order kernels" ->       \* symmetric in its legs; of order K^2 at small total momentum K
         LET u == Vec(1)  v == Vec(5)  f == Fl(1)  e == Small(Vec(9), <<u, v, Add3(u, v)>>)
             w(h) == Sub3(VMul(h, e), Add3(u, v))
             x == Abs(F3v(f, u, v, w(Flt(1))))  y == Abs(F3v(f, u, v, w(D("0.5"))))
         IN /\ Agree(F3v(f, u, v, e), F3v(f, v, e, u), D("1e-9")) /\ Agree(F3v(f, u, v, e), F3v(f, e, v, u), D("1e-9"))
            /\ x \leq 1000 * Dot3(e, e) * (1 / Dot3(u, u) + 1 / Dot3(v, v) + 1 / Dot3(w(Flt(1)), w(Flt(1)))) /\ Alike(4 * y, x, x + D("1e-10"), D("0.2"))
    [] law = "propagator kernel" ->         \* the closed forms are 3 x^2 <F3(k, q, -q)>
         LET f == Fl(1)  x == Rnd(1, D("0.03"), 40) IN IF Abs(x - 1) < D("0.03") THEN TRUE ELSE Alike(G1(f, x), G1Avg(f, x, 60), Flt(1), D("1e-5"))
    [] law = "expansions" ->                \* and join where one takes over from another
         LET f == Fl(1)  d == D("0.01") * (IF i % 2 = 0 THEN 1 ELSE -1) IN
         /\ Alike(G1Near(f, d), G1Exact(f, 1 + d), Flt(1), D("2e-5")) /\ Alike(G1Far(f, Flt(100)), G1Exact(f, Flt(10)), Flt(1), D("1e-6"))
    [] law = "fit" ->                       \* the two-loop fit is symmetric, depends on ratios, and its expansions join
         LET f == Fl(1)  x == Rnd(1, D("0.01"), 30)  y == Rnd(2, D("0.01"), 30)  e == D("1e-5")
             at(z) == FitBeta(f, 1 + z, 1 - z)
         IN /\ Agree(FitAlpha(f, x, y), FitAlpha(f, y, x), D("1e-12")) /\ Agree(FitBeta(f, x, y), FitBeta(f, 7 * x, 7 * y), D("1e-6"))
            /\ Agree(at(D("0.01") - e), at(D("0.01") + e), D("3e-3")) /\ Agree(at(D("0.95") - e), at(D("0.95") + e), D("1e-4"))
    [] law = "nodes" ->
         LET n == 1 + UInt(i, 40)  g == GL(n)  d == UInt(i + 5, 2 * n) IN
         /\ Alike(Sum(Tup([j \in 1 .. n |-> g.w[j] * IPow(g.z[j], d)])), IF d % 2 = 1 THEN Flt(0) ELSE Flt(2) / (d + 1), Flt(2), D("1e-12"))
         /\ \A j \in 1 .. n : g.w[j] > 0 /\ g.z[j] > -1 /\ g.z[j] < 1
    [] law = "cosines" ->                   \* exactly the cosines for which |k - q| is in the range (and at least q, on the half domain)
         LET x == Rnd(1, D("0.02"), 50)  a == Rnd(2, D("0.01"), 1)  b == a * Rnd(3, D("1.1"), 100)  r == MuRange(x, a, b, i % 2 = 0)
             m == Uni(4, -1, 1)  kq == Sqrt(1 + x * x - 2 * m * x)
             in == kq \geq a /\ kq \leq b /\ (i % 2 = 1 \/ kq \geq x)
             edge(c) == Abs(m - c) < D("1e-9")
         IN x < a \/ x > b \/ edge(r[2]) \/ edge(r[3]) \/ (in <=> (r[1] /\ m \geq r[2] /\ m \leq r[3]))
    [] law = "lookup" ->                    \* table points, straight lines and quartics are reproduced, power laws continued
         LET k == Table("irr")[1]  n == Len(k)  pw == MkTab(k, Map(LAMBDA x : 3 * Pow(x, -D("1.7")), k))  q4 == MkTab(k, Map(LAMBDA x : 1 + x + x * x - Cube(x) + IPow(x, 4), k))
             x == Uni(1, k[3], k[n - 2])  out == IF i % 2 = 0 THEN k[1] / Rnd(2, D("1.1"), 50) ELSE k[n] * Rnd(2, D("1.1"), 50)
             j == 1 + UInt(i, n)
         IN /\ Agree(FindPk(q4, x, "poly"), 1 + x + x * x - Cube(x) + IPow(x, 4), D("1e-9")) /\ Agree(FindPk(pw, out, "lin"), 3 * Pow(out, -D("1.7")), D("1e-11"))
            /\ Eq(FindPk(q4, k[j], "poly"), q4.p[j]) /\ Eq(FindPk(q4, k[j], "lin"), q4.p[j])
    [] law = "dispersion" ->                \* zero, growing, constant; linear in the spectrum; the analytic integral of a constant
         LET t == Tb  k == Rnd(1, t.k[1] / 3, t.k[t.n] * 5)  c == MkTab(t.k, Map(LAMBDA x : Flt(7), t.k))  km == Min2(k, t.k[t.n]) IN
         /\ Alike(SigmaD2(MkTab(t.k, VScale(3, t.p)), k, Flt(1)), 3 * SigmaD2(t, k, Flt(1)), SigmaD2Scale(t), D("1e-13"))
         /\ Alike(SigmaD2(c, k, Flt(1)), (7 * Max2(Flt(0), km - t.k[1])) / (6 * Pi * Pi), SigmaD2Scale(c), D("1e-12"))
         /\ Agree(SigmaD2(c, k, D("0.5")), SigmaD2(c, k / 2, Flt(1)), D("1e-14"))
    [] law = "A in one dimension" ->        \* the limits join the closed form
         /\ \A j \in 1 .. 5 : Alike(ALarge(Flt(100))[j], AExact(Flt(100))[j], Flt(1), D("1e-3")) /\ Alike(ALarge(Flt(8))[j], AExact(Flt(8))[j], Flt(1), D("1e-4")) /\ Alike(ASmall(D("0.05"))[j], AExact(D("0.05"))[j], Flt(1), D("1e-4"))
    [] law = "B from its definition" ->
         LET x == Rnd(1, D("0.03"), 20)  m == Uni(2, -D("0.99"), D("0.99"))  mu == Uni(3, D("0.05"), Flt(1))  be == Uni(4, D("0.1"), 2)
             dk == Uni(5, -1, 3)  tk == Uni(6, -1, 3)  dq == Uni(7, -1, 3)  tq == Uni(8, -1, 3)
             a == BSum(x, m, mu, be, dk, tk, dq, tq)  b == BDef(x, m, mu, be, dk, tk, dq, tq)
         IN Alike(a, b, (Abs(a) + x * x + x) / Max2(D("1e-3"), 1 + x * x - 2 * m * x), D("1e-9"))
    [] law = "A from the bispectrum" ->     \* two independent derivations of the same correction
         i > 2 \/ LET t == Good  k == <<D("0.12"), D("0.37")>>[i]  g == QGrid([n |-> 90, min |-> Flt(-1), max |-> Flt(-1), ipl |-> "poly"], t)
                      a == ATerms(k, g, 24, "poly", "poly", t)  b == ATree(k, g, 24, t)
                  IN \A j \in 1 .. 5 : Alike(a.val[j], b[j], MaxAbs(b), D("4e-2"))
    [] law = "loop kernel" ->               \* does not depend on the order of the two legs
         i > 4 \/ LET k1 == Rnd(1, D("0.2"), 3)  k2 == Rnd(2, D("0.2"), 3)  k3 == Uni(3, Abs(k1 - k2) + D("0.3") * Min2(k1, k2), k1 + k2 - D("0.3") * Min2(k1, k2))  q == 10 * Max2(k1, k2)
                      a == LoopKernel(k1, k2, k3, q, 16)  b == LoopKernel(k2, k1, k3, q, 16)  c == LoopKernel(3 * k1, 3 * k2, 3 * k3, 3 * q, 16)
                  IN \A j \in 1 .. 2 : Alike(a[j], b[j], a[j + 2], D("1e-4")) /\ Alike(a[j], c[j], a[j + 2], D("1e-10"))
    [] law = "fourth order" ->              \* vanishes like K^2 with the total momentum of the two legs
         LET q == Vec(1)  u == Vec(5)  e == Small(Vec(9), <<q, u, Add3(q, u), Sub3(q, u)>>)  w(h) == Sub3(VMul(h, e), u)
             a == F4loop(q, u, w(Flt(1)))  b == F4loop(q, u, w(D("0.5")))  c == F4loop(Neg3(q), w(Flt(1)), u)
         IN \A j \in 1 .. 2 : Alike(4 * b[j], a[j], Abs(a[j]) + D("1e-9"), D("0.2")) /\ Alike(a[j], c[j], Abs(a[j]) + D("1e-9"), D("1e-3"))
    [] law = "growth" ->                    \* growing the columns is growing the argument
         LET k == Rnd(1, D("0.01"), D("0.5"))  r == RowAt(k, 10)  g == Rnd(3, D("0.3"), 2)
             r1 == Scaled_(r, "Spectrum1Loop", g)  r2 == Scaled_(r, "Spectrum2Loop", g)
         IN /\ Agree(OneLoopPk(r1, 1, r1.sigmad2), OneLoopPk(r, g, r.sigmad2), D("1e-11")) /\ Agree(TwoLoopPk(r2, 1, r2.sigmad2), TwoLoopPk(r, g, r.sigmad2), D("1e-10"))
            /\ Agree(Damped(r.pk_lin, k, g, r.sigmad2), Damped(IPow(g, 4) * r.pk_lin, k, 1, g * g * r.sigmad2), D("1e-12"))
    [] law = "orders" ->                    \* expanding in the growth: D^2 P, then the one-loop terms, the same in both classes
         LET k == Rnd(1, D("0.05"), D("0.5"))  r == RowAt(k, 10)  d == D("0.02")
             x0 == (Sq(k) * r.sigmad2) / 2
             one == OneLoopPk(r, d, r.sigmad2)  two == TwoLoopPk(r, d, r.sigmad2)
             spt == IPow(d, 2) * r.pk_lin + IPow(d, 4) * ((r.gamma1a_1loop + r.gamma1b_1loop) * r.pk_lin + r.pk_gamma2_tree_tree)
             room == IPow(d, 6) * 100 * (1 + IPow(x0, 3)) * 100
         IN Abs(one - spt) \leq room /\ Abs(two - spt) \leq room
    [] law = "rsd" ->                       \* at a table point; linear; the edges
         LET ks == <<Flt(1), Flt(2), Flt(4)>>  cs == Tup([a \in 1 .. 3 |-> Tup([j \in 1 .. 5 |-> Uni(a * 7 + j, -2, 2)])])  be == Uni(30, 0, 2)  m2 == Uni(31, 0, 1)
             at(x) == RsdInterp(APowers, x, ks, cs, m2, be, 1, Flt(5), Flt(6))[1]
             edge(v) == Sum(Tup([j \in 1 .. 5 |-> v * IPow(m2, APowers[j][1]) * IPow(be, APowers[j][2])]))
         IN Alike(at(Flt(3)), (at(Flt(2)) + at(Flt(4))) / 2, Flt(20), D("1e-14")) /\ Alike(at(D("0.5")), edge(5), Flt(20), D("1e-14")) /\ Alike(at(Flt(9)), edge(6), Flt(20), D("1e-14"))
    [] law = "slices" ->                    \* selections are increasing or decreasing, inside, and reversing twice is nothing
         LET n == UInt(i, 7)  b(s) == IF UInt(i * 3 + s, 4) = 0 THEN None ELSE UInt(i * 5 + s, 13) - 6  st == <<1, 2, 3, -1, -2, None>>[1 + UInt(i + 3, 6)]
             r == PySlice(n, <<b(1), b(2), st>>)  rev == PySlice(n, <<None, None, -1>>)
             stp == IF st = None THEN 1 ELSE st
         IN /\ \A j \in 1 .. Len(r) : r[j] \in 1 .. n /\ (j > 1 => r[j] - r[j - 1] = stp)
            /\ rev = Reverse(Iota(n)) /\ PySlice(n, <<None, None, None>>) = Iota(n)
            /\ Tup([j \in 1 .. Len(rev) |-> rev[rev[j]]]) = Iota(n)
    [] law = "no wiggle" ->                 \* one at large scales, decreasing
         LET h == Uni(1, D("0.5"), D("0.9"))  om == Uni(2, D("0.1"), D("0.3"))  ob == om * Uni(3, D("0.05"), D("0.3"))  k == Rnd(4, D("1e-3"), 5) IN
         /\ Alike(NoWiggleT(D("1e-7"), h, ob, om, D("2.7255")), Flt(1), Flt(1), D("1e-3")) /\ NoWiggleT(k, h, ob, om, D("2.7255")) > NoWiggleT(D("1.1") * k, h, ob, om, D("2.7255"))
    [] law = "window" -> Alike(TopHat(D("0.01")), Flt(1), Flt(1), D("1e-4")) /\ Alike(TopHat(Rnd(1, D("0.1"), 50)), Flt(0), Flt(1), Flt(1))
    [] law = "bias" ->                      \* the mean of the counter-terms: what is subtracted cancels the large-loop limit
         LET m == Uni(1, -1, 1)  g == GL(12)
             mean(F(_)) == Sum(Tup([j \in 1 .. 12 |-> (g.w[j] / 2) * F(g.z[j])])) IN
         /\ Alike(mean(LAMBDA z : S2(z)), Flt(0), Flt(1), D("1e-14")) /\ Alike(mean(LAMBDA z : S2(z) * D2(z)), Flt(8) / 315, Flt(1), D("1e-14")) /\ Alike(S2(m), S2(-m), Flt(1), D("1e-15"))
    [] law = "three-point" ->               \* the same for exchanged fields
         LET t == Good  x == Points(1, i)  r == <<D("1e-2"), Flt(5)>>  a == Gamma3At("delta", "theta", D("0.3"), x, r, "poly", t)  b == Gamma3At("theta", "delta", D("0.3"), x, r, "poly", t)
         IN Alike(a, b, Abs(a), D("1e-12"))
Init == law \in Laws /\ i \in 1 .. Samples
Next == UNCHANGED <<law, i>>
Spec == Init /\ [][Next]_<<law, i>>
===============================================================================
