------------------------------ MODULE SuiteTwo ------------------------------
(* Behaviours for the two-loop calculations: fourth-order kernels (C21),      *)
(* integrands handed to the integrator (C22), two-loop A correction (C23).    *)
EXTENDS SuiteNum
LOCAL INSTANCE TLC

(* ---- C21: kernels ------------------------------------------------------------- *)
(* triangles <<k1, k2, k3>>                                                         *)
Triangles == << <<D("0.1"), D("0.13"), D("0.09")>>, <<D("0.2"), D("0.05"), D("0.17")>>, <<D("0.03"), D("0.9"), D("0.88")>>, <<Flt(1), D("0.7"), D("1.6")>>,
               <<D("0.3"), D("0.29"), D("0.02")>>, <<D("0.11"), D("0.1101"), D("0.21")>>, <<D("0.4"), D("0.398"), D("0.13")>>, <<D("0.05"), D("0.6"), D("0.62")>>,
               <<D("0.02"), D("0.0201"), D("0.0007")>>, <<D("2"), D("0.01"), D("1.995")>>,
               <<Flt(1), D("1.03"), D("0.035")>>, <<D("0.1"), D("0.094"), D("0.0071")>> >>
(* one side much shorter than the others, which differ by up to its length *)
Needle(s) == LET a == D("0.02") * Exp(4 * U(s))  e == D("0.021") * Exp(D("1.4") * U(s + 1))  f == e * Exp(D("-0.95") * U(s + 2))
             IN IF s % 3 = 0 THEN <<a, a * (1 - f), a * e>> ELSE IF s % 3 = 1 THEN <<a * (1 - f), a, a * e>> ELSE <<a * e, a, a * (1 + f)>>
RandomTriangle(s) == LET a == D("0.02") * Exp(4 * U(s))  b == a * Exp(3 * (U(s + 1) - D("0.5")))  c == -D("0.98") + D("1.96") * U(s + 2)
                     IN <<a, b, Sqrt(a * a + b * b + 2 * a * b * c)>>
Tri(i) == IF i \leq Len(Triangles) THEN Triangles[i] ELSE IF i % 3 = 0 THEN Needle(i * 10 + i \div 3) ELSE RandomTriangle(10 * i)
Other(i) == LET t == Tri(i) IN <<t[2], t[1], t[3]>>
Kern(f, t, qs, tol, nf) == [op |-> "kern", h |-> "o", f |-> f, x |-> Flat(Map(LAMBDA q : <<t[1], t[2], t[3], q>>, qs)), tol |-> D(tol), nf |-> nf]
MaxOf(t) == Max2(t[1], Max2(t[2], t[3]))
MinOf(t) == Min2(t[1], Min2(t[2], t[3]))
KernelBeh(i) ==
  LET t == Tri(i)  hi == MaxOf(t)  lo == MinOf(t)
      far == SelectSeq(<<lo / 300, lo / 70, lo / 23, lo / D("11.5"), lo / 6, lo / 3, hi * D("2.7"), hi * 6, hi * D("9.2"), hi * D("11.3"), hi * 29, hi * 80, hi * 400>>,
                       LAMBDA q : Abs(q / t[1] - 1) > D("0.3") /\ Abs(q / t[2] - 1) > D("0.3"))
  IN Beh("kernel" \o Txt(i), << New("o", "Spectrum2Loop"), Quiet("o"), Kern("d", t, far, "2e-3", 12), Kern("t", t, far, "2e-3", 12),
                                Kern("d", Other(i), SubSeq(far, 1, 4), "2e-3", 12), Kern("t", Other(i), SubSeq(far, 1, 4), "2e-3", 12) >>)
(* momenta comparable with the sides: finer angular grid                              *)
NearBeh(i) ==
  LET t == Tri(i)
      near == << t[1] * D("1.02"), t[2] * D("0.98"), t[3] * D("1.07"), (t[1] + t[2]) / 2, t[1] >>
  IN Beh("near" \o Txt(i), << New("o", "Spectrum2Loop"), Quiet("o"), Kern("d", t, near, "5e-3", 32), Kern("t", t, near, "5e-3", 32) >>)

(* through the two-loop spectrum itself                                                *)
LoopCols == <<"pk_gamma2_tree_tree", "pk_gamma2_tree_1loop", "pk_gamma2_1loop_1loop">>
LoopBeh(i) ==
  LET t == Table(At(<<"cdm", "irr", "coarse">>, i))
      rd == At(<< <<D("0.02"), D("0.6")>>, <<D("0.3"), D("3")>>, <<D("4e-3"), D("0.05")>> >>, i)
      rt == At(<< <<D("0.02"), D("0.6")>>, <<D("4e-3"), D("0.05")>>, <<D("0.1"), D("2")>>, <<D("0.3"), D("3")>> >>, i)
      ab == At(FieldPairs, i)
      k == At(<<D("0.1"), D("0.35"), D("0.03"), D("0.8")>>, i)
  IN Beh("loop" \o Txt(i), Base(t, "Spectrum2Loop") \o
       << SetNR("o", "gamma1_1loop_q", 4, D("0.01"), Flt(2)), SetN("o", "gamma1_2loop_q", 2), SetNR("o", "gamma2_tree_q", 3, D("0.02"), D("1.5")), SetN("o", "gamma2_tree_mu", 2),
          SetNR("o", "gamma2d_1loop_q", 3, rd[1], rd[2]), SetNR("o", "gamma2t_1loop_q", IF i % 2 = 0 THEN 3 ELSE 2, rt[1], rt[2]),
          SetI("o", At(<<"gamma2d_1loop_q", "gamma2t_1loop_q", "all", "gamma2_1loop_q">>, i), "lin"),
          Arr("x", <<k>>), Grid("o", "x"), [ltol |-> D("1e-2"), nf |-> 12] @@ GoFAbs("o", ab[1], ab[2], 2, LoopCols),
          \* exchange of the fields, the other setting changed: no difference for equal fields
          SetN("o", IF ab[1] = "theta" THEN "gamma2d_1loop_q" ELSE "gamma2t_1loop_q", 2), [ltol |-> D("1e-2"), nf |-> 12] @@ GoF("o", ab[2], ab[1], 1) >>)
SuiteC21 == Tup([i \in 1 .. Pick(28, 300) |-> KernelBeh(i)]) \o Tup([i \in 1 .. Pick(10, 60) |-> NearBeh(i)]) \o Tup([i \in 1 .. Pick(8, 60) |-> LoopBeh(i)])

(* ---- C22: integrands ------------------------------------------------------------------ *)
G3Cols == <<"pk_gamma3_tree">>
G3Base(t) == Base(t, "Spectrum2Loop") \o Small("o", 2, 1, <<D("0.02"), D("0.5")>>)
G3Ks(t) == <<D("0.013"), D("0.07"), D("0.2"), D("0.7"), D("2.5"), t[1][1] / 4, t[1][Len(t[1])] * 2>>
G3Beh(i) ==
  LET t == Table(At(<<"cdm", "irr", "coarse", "dip", "plaw">>, i))
      r == At(Ranges(t), i + 1)
      ab == At(FieldPairs, i)
      one(j) == << Pts(Points(At(<<1, 1, 2, 5>>, j), 700 * i + 50 * j)), GoFAbs("o", ab[1], ab[2], 1 + (j % 3), G3Cols), Op("suave") >>
  IN Beh("three-point" \o Txt(i), G3Base(t) \o << SetR("o", "gamma3_tree_q", r[1], r[2]), SetI("o", At(<<"gamma3_tree_q", "gamma2_tree_q", "all_q">>, i), "lin"), Arr("x", G3Ks(t)), Grid("o", "x") >>
       \o FlatOver(Upto(8), one))
(* default range, automatic range and the spectrum in force at the time of the run          *)
G3Range(i) ==
  LET t == Table("cdm")  u == Table("irr")  ab == At(FieldPairs, i)
      go == GoFAbs("o", ab[1], ab[2], 1, G3Cols) IN
  Beh("range" \o Txt(i), G3Base(t) \o TableOps(u, "2") \o
    << Pts(Points(4, 41 * i)), Arr("x", G3Ks(t)), Grid("o", "x"), Reset("o", "gamma3_tree_q"), go, SetR("o", "gamma3_tree_q", Flt(-1), Flt(-1)), go,
       Reg("o", "s2"), go, SetR("o", "spectrum_2loop_q", D("0.004"), Flt(3)), go, Reg("o", "s"), go, SetR("o", "all_q", Flt(0), Flt(0)), go, Reg("o", "s2"), go >>)
(* the two-loop A integrand alone: momenta of part I outside the range for these k           *)
A2Cols == <<"pk_lin", "sigmad2", "pk">>
A2Base(t) == Base(t, "A2Loop") \o << SetNR("o", "all_q", 2, D("0.02"), D("0.5")), SetN("o", "all_mu", 1), SetNR("o", "A_2loop_I_q", 2, D("1e-5"), D("2e-5")) >>
A2Beh(i) ==
  LET t == Table(At(<<"cdm", "irr", "coarse", "dip", "plaw">>, i))
      r == At(Ranges(t), i + 1)
      go(nt) == [ltol |-> D("1e-8")] @@ GoAbs("o", nt, A2Cols)
      one(j) == << Pts(Points(At(<<1, 1, 2>>, j), 900 * i + 60 * j)), go(1 + (j % 3)), Op("suave") >>
  IN Beh("bispectrum" \o Txt(i), A2Base(t) \o << SetR("o", "A_2loop_II_III_q", r[1], r[2]), SetI("o", "bispectrum_1loop_pk_lin", At(<<"poly", "lin">>, i)),
          Cut("o", At(<<"bispectrum_1loop", "all", "A_2loop">>, i), D("0.8")), Arr("x", <<D("0.013"), D("0.07"), D("0.2"), D("0.7")>>), Grid("o", "x") >>
       \o FlatOver(Upto(6), one))
A2Range(i) ==
  LET t == Table("cdm")  u == Table("irr")
      go == [ltol |-> D("1e-8")] @@ GoAbs("o", 2, A2Cols) IN
  Beh("range A" \o Txt(i), A2Base(t) \o TableOps(u, "2") \o
    << Pts(Points(3, 43 * i)), Arr("x", <<D("0.05"), D("0.4")>>), Grid("o", "x"), Reset("o", "A_2loop_II_III_q"), go, SetR("o", "A_2loop_II_III_q", Flt(-1), Flt(-1)), go,
       Reg("o", "s2"), go, SetR("o", "A_2loop_II_III_q", D("0.004"), Flt(3)), go, Reg("o", "s"), go, SetR("o", "A_2loop_II_III_q", Flt(0), Flt(0)), go, Reg("o", "s2"), go >>)
(* points where two momenta cancel or share components: opposite, equal, in one plane or on one axis *)
Aligned(i) ==
  LET u == D("0.15") + D("0.3") * U(3 * i)  v == D("0.5") + D("0.4") * U(3 * i + 1)  h == D("0.5")  z == Flt(0) IN
  << <<u, h, h, u, h>>, <<u, h, h, v, h>>, <<u, h, z, v, h>>, <<v, h, z, u, h>>, <<u, h, D("0.2"), u, h>>, <<u, h, h, u, D("0.3")>> >>
G3Aligned(i) ==
  LET t == Table(At(<<"cdm", "irr", "plaw">>, i))  ab == At(FieldPairs, i)
      one(j) == << Pts(Aligned(i)[j]), GoFAbs("o", ab[1], ab[2], 1, G3Cols), Op("suave") >>
  IN Beh("aligned" \o Txt(i), G3Base(t) \o << SetR("o", "gamma3_tree_q", D("0.01"), Flt(1)), Arr("x", <<D("0.07"), D("0.3"), D("0.9")>>), Grid("o", "x") >> \o FlatOver(Upto(6), one))
AAligned(i) ==
  LET t == Table(At(<<"cdm", "irr", "plaw">>, i))
      u == D("0.15") + D("0.3") * U(5 * i)  v == D("0.5") + D("0.4") * U(5 * i + 1)  h == D("0.5")  z == Flt(0)
      pts == << <<u, h, u, h, z>>, <<u, h, u, h, h>>, <<u, h, v, h, z>>, <<v, h, u, h, h>>, <<u, D("0.6"), v, h, D("0.25")>> >>
      one(j) == << Pts(pts[j]), [ltol |-> D("1e-8")] @@ GoAbs("o", 1, A2Cols), Op("suave") >>
  IN Beh("aligned A" \o Txt(i), A2Base(t) \o << SetR("o", "A_2loop_II_III_q", D("0.01"), Flt(1)), Arr("x", <<D("0.07"), D("0.3"), D("0.9")>>), Grid("o", "x") >> \o FlatOver(Upto(5), one))
(* nearly so, and the corners of the unit cube                                                          *)
On(x) == Log(x / D("0.01")) / Log(Flt(100))
Corners(i) == Tup([j \in 1 .. 5 |-> At(<<Flt(0), Flt(1), D("1e-7"), 1 - D("1e-7"), D("0.35")>>, At(<<i, i \div 2 + j, (i * j) \div 3, i + j * j, j + i * i>>, j))])
G3Near(i, k) ==
  LET e == At(<<D("1e-2"), D("1e-3"), D("4e-2")>>, i)  q == On(D("0.02") + D("0.5") * U(i)) IN
  << <<On(k * (1 + e)), e / 3, D("0.3"), q, D("0.7")>>, <<On(k * (1 - e)), e / 9, D("0.1"), q, 1 - e>>, <<On(k), e / 50, D("0.6"), q, D("0.96")>>, <<On(k * (1 + e)), e / 3, D("0.3"), On(D("0.011")), D("0.2")>>,
     <<On(k / 2), e, D("0.2"), On(k / 2), 1 - e>>, <<On(k / 2), e, D("0.2"), On(D("0.5") * k * (1 + e)), e>>, <<q, e, e, q, 1 - e>>, <<q, e / 2, D("0.5"), q, 1 - e / 3>>, <<q, 1 - e, D("0.5"), q, e / 3>>, <<D("0.02"), e, 1 - e, D("0.98"), D("0.5")>>,
     <<D("0.98"), D("0.3"), 1 - e, D("0.02"), 1 - e>>, Corners(i) >>
G3Close(i) ==
  LET t == Table(At(<<"cdm", "irr", "plaw">>, i))  ab == At(FieldPairs, i)
      k == At(<<D("0.07"), D("0.3"), D("0.6")>>, i)
      one(p) == << Pts(p), GoFAbs("o", ab[1], ab[2], 1, G3Cols), Op("suave") >>
  IN Beh("close" \o Txt(i), G3Base(t) \o << SetR("o", "gamma3_tree_q", D("0.01"), Flt(1)), Arr("x", <<k>>), Grid("o", "x") >> \o FlatOver(G3Near(i, k), one))
ANear(i, k) ==
  LET e == At(<<D("1e-2"), D("1e-3"), D("4e-2")>>, i)  q == On(D("0.02") + D("0.5") * U(i)) IN
  << <<On(D("0.5") * k * (1 - e)), 1 - e * e * D("0.25"), q, D("0.3"), D("0.7")>>, <<On(k / 2), 1 - e, On(k / 2), e, D("0.2")>>, <<On(k / 2), 1 - e, On(k), e, D("0.2")>>, <<On(k / 2), D("0.3"), On(k), 1 - e, D("0.2")>>, <<On(k * (1 + e)), D("0.5"), On(k * (1 - e)), e / 2, D("0.2")>>,
     <<On(D("0.011")), 1 - e, On(D("0.0107")), e, e>>, <<On(D("0.011")), 1 - e, q, 1 - e, D("0.4")>>, <<On(D("0.97")), e, q, e, D("0.4")>>, <<On(D("0.97")), D("0.4"), On(D("0.96")), D("0.6"), 1 - e>>, <<q, D("0.5"), q, D("0.5"), e>>, <<q, D("0.5"), q, D("0.5"), D("0.5") - e>>, Corners(i) >>
AClose(i) ==
  LET t == Table(At(<<"cdm", "irr", "plaw">>, i))
      k == At(<<D("0.07"), D("0.3"), D("0.12")>>, i)
      one(p) == << Pts(p), [ltol |-> D("1e-8")] @@ GoAbs("o", 1, A2Cols), Op("suave") >>
  IN Beh("close A" \o Txt(i), A2Base(t) \o << SetR("o", "A_2loop_II_III_q", D("0.01"), Flt(1)), Arr("x", <<k>>), Grid("o", "x") >> \o FlatOver(ANear(i, k), one))
SuiteC22 == Tup([i \in 1 .. Pick(20, 150) |-> G3Beh(i)]) \o Tup([i \in 1 .. 4 |-> G3Range(i)])
         \o Tup([i \in 1 .. Pick(15, 100) |-> A2Beh(i)]) \o Tup([i \in 1 .. 3 |-> A2Range(i)])
         \o Tup([i \in 1 .. Pick(2, 12) |-> G3Aligned(i)]) \o Tup([i \in 1 .. Pick(2, 12) |-> AAligned(i)])
         \o Tup([i \in 1 .. Pick(9, 36) |-> G3Close(i)]) \o Tup([i \in 1 .. Pick(9, 36) |-> AClose(i)])

(* ---- C23: part I ------------------------------------------------------------------------- *)
(* loop grids placed where the spectrum vanishes: part I without one-loop corrections         *)
TightBeh(i) ==
  LET t == Table("dip")
      r == At(<< <<D("0.01"), D("2")>>, <<D("1.1e-3"), D("4.9")>>, <<D("0.05"), D("0.6")>> >>, i)
      n == At(<<5, 8, 3, 2>>, i)
      q == NodeOf(n, r, (n + 1) \div 2)
  IN Beh("products" \o Txt(i), Base(t, "A2Loop") \o
       << SetNR("o", "gamma1_1loop_q", At(<<9, 4>>, i), D("0.005"), Flt(2)), SetNR("o", "gamma2_1loop_q", 2, D("20"), Flt(30)),
          SetNR("o", "A_2loop_I_q", n, r[1], r[2]), SetN("o", "A_2loop_I_mu", At(<<4, 2, 7>>, i)), SetI("o", "bispectrum_1loop_pk_lin", At(<<"poly", "lin", "poly">>, i)),
          SetI("o", At(<<"A_2loop_I_q", "A_2loop_I_mu", "gamma1_1loop_q">>, i), "lin"),
          Cut("o", "bispectrum_1loop", At(<<D("0.5"), D("0.9"), D("0.2")>>, i)), Cut("o", "A_2loop", D("0.7")),
          Pts(IF i % 3 = 0 THEN Points(1, 17 * i) ELSE <<>>),
          Arr("x", <<D("0.007"), D("0.0099"), D("0.0101"), D("0.02"), D("0.05"), D("0.2"), D("0.9"), q, q * D("1.01"), D("4e-4"), D("6")>>), Grid("o", "x"),
          [ltol |-> D("1e-8")] @@ GoAbs("o", 1 + (i % 4), A2Cols) >>)
A2LoopBeh(i) ==
  LET t == Table(At(<<"cdm", "coarse">>, i))
      k == At(<<D("0.05"), D("0.2"), D("0.013"), D("0.6")>>, i)
  IN Beh("loops" \o Txt(i), Base(t, "A2Loop") \o
       << SetNR("o", "gamma1_1loop_q", 5, D("0.01"), Flt(2)), SetNR("o", "gamma2d_1loop_q", 2, D("0.02"), D("0.4")), SetNR("o", "gamma2t_1loop_q", 2, D("0.05"), D("1.5")),
          SetNR("o", "A_2loop_I_q", 2, D("0.03"), D("0.5")), SetN("o", "A_2loop_I_mu", 2), Pts(Points(1, 7 * i)), Arr("x", <<k>>), Grid("o", "x"),
          [ltol |-> D("1e-2"), nf |-> 10] @@ GoAbs("o", 1, A2Cols) >>)
SuiteC23 == Tup([i \in 1 .. Pick(24, 160) |-> TightBeh(i)]) \o Tup([i \in 1 .. Pick(8, 60) |-> A2LoopBeh(i)])
=============================================================================
