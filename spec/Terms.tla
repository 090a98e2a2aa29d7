-------------------------------- MODULE Terms --------------------------------
(* The columns of every class: their order, shape and scaling, what each row   *)
(* of each column depends on (Key), and what its value is (Value).             *)
EXTENDS Settings, ATwo, ACorr, BCorr, Bias, Assemble

None == 9999      \* an omitted bound of a slice

Fields(cls) ==
  CASE cls \in {"SpectrumLin", "SpectrumNoWiggle"} -> <<"k", "pk">>
    [] cls = "Spectrum1Loop" -> <<"k", "pk_lin", "sigmad2", "gamma1a_1loop", "gamma1b_1loop", "pk_gamma2_tree_tree">>
    [] cls = "Spectrum2Loop" -> <<"k", "pk_lin", "sigmad2", "gamma1a_1loop", "gamma1a_2loop", "gamma1b_1loop", "gamma1b_2loop",
                                  "pk_gamma2_tree_tree", "pk_gamma2_tree_1loop", "pk_gamma2_1loop_1loop", "pk_gamma3_tree">>
    [] cls = "Bias1Loop" -> <<"k", "pk_lin", "sigmad2">> \o BiasNames
    [] cls \in {"A1Loop", "A2Loop", "B1Loop", "B2Loop"} -> <<"k", "pk_lin", "sigmad2", "pk">>
    [] OTHER -> <<>>
LibClasses == {"Spectrum1Loop", "Spectrum2Loop", "Bias1Loop", "A1Loop", "A2Loop", "B1Loop", "B2Loop"}
LinClasses == {"SpectrumLin", "SpectrumNoWiggle"}
NComp(cls, c) == IF c # "pk" THEN 0 ELSE CASE cls \in {"A1Loop", "A2Loop"} -> 5 [] cls \in {"B1Loop", "B2Loop"} -> 9 [] OTHER -> 0

(* perturbative order in the linear spectrum                                     *)
Order(cls, c) ==
  CASE c = "k" -> 0
    [] cls \in LinClasses -> 1
    [] c \in {"pk_lin", "sigmad2", "gamma1a_1loop", "gamma1b_1loop", "sigma3sq"} -> 1
    [] c \in {"pk_gamma2_tree_1loop", "pk_gamma3_tree"} -> 3
    [] c = "pk_gamma2_1loop_1loop" -> 4
    [] OTHER -> 2
(* power of the unit of wavenumber                                               *)
Dimension(c) ==
  CASE c = "k" -> 1
    [] c = "sigmad2" -> -2
    [] c \in {"gamma1a_1loop", "gamma1b_1loop", "gamma1a_2loop", "gamma1b_2loop", "sigma3sq"} -> 0
    [] OTHER -> -3

Fld(x) == IF x = "theta" THEN "theta" ELSE "delta"      \* an unknown field is the density
Sym(a, b) == IF Fld(a) = Fld(b) THEN Fld(a) ELSE "both"

(* A linear spectrum in force: [tab, id, m, l]: table id with powers times 2^m and *)
(* wavenumbers times 2^l (so powers times 2^(-3 l)).                                *)
Unit(l) == IPow(Flt(2), l)
QSet(set, name, sp) == LET s == set[name]  r == RangeOf(s, sp.tab)
                       IN <<s.n, r[1] / Unit(sp.l), r[2] / Unit(sp.l), s.ipl>>
MuSet(set, name) == <<set[name].n, set[name].ipl>>
RSet(set, name, sp) == LET s == set[name]  r == RangeOf(s, sp.tab) IN <<r[1] / Unit(sp.l), r[2] / Unit(sp.l)>>
LoopSets(a, b, set, sp) == (IF "delta" \in {Fld(a), Fld(b)} THEN <<QSet(set, "gamma2d_1loop_q", sp)>> ELSE <<>>)
                        \o (IF "theta" \in {Fld(a), Fld(b)} THEN <<QSet(set, "gamma2t_1loop_q", sp)>> ELSE <<>>)
ClsName(cls) == CASE cls = "Spectrum1Loop" -> "spectrum_1loop" [] cls = "Spectrum2Loop" -> "spectrum_2loop" [] cls = "Bias1Loop" -> "bias_1loop"
                  [] cls = "A1Loop" -> "A_1loop" [] cls = "A2Loop" -> "A_2loop" [] OTHER -> "B"

(* Everything the row for wavenumber k of column c depends on.  Two rows with     *)
(* equal keys are equal up to their scales (properties C04 .. C10, C16, C17).     *)
Key(cls, c, a, b, k, set, sp, pts) ==
  LET base == <<sp.id, k / Unit(sp.l)>>
      oneloop == <<QSet(set, "gamma1_1loop_q", sp), QSet(set, "gamma2_tree_q", sp), MuSet(set, "gamma2_tree_mu")>>
      dep ==
        CASE c = "pk_lin" -> <<"pk", set[ClsName(cls) \o "_pk_lin"]>>
          [] c = "sigmad2" -> <<"sd2", set[CutOf(ClsName(cls))]>>
          [] c = "gamma1a_1loop" -> <<"g1", Fld(a), QSet(set, "gamma1_1loop_q", sp)>>
          [] c = "gamma1b_1loop" -> <<"g1", Fld(b), QSet(set, "gamma1_1loop_q", sp)>>
          [] c = "gamma1a_2loop" -> <<"g2", Fld(a), QSet(set, "gamma1_1loop_q", sp), QSet(set, "gamma1_2loop_q", sp)>>
          [] c = "gamma1b_2loop" -> <<"g2", Fld(b), QSet(set, "gamma1_1loop_q", sp), QSet(set, "gamma1_2loop_q", sp)>>
          [] c = "pk_gamma2_tree_tree" -> <<"tt", Sym(a, b), QSet(set, "gamma2_tree_q", sp), MuSet(set, "gamma2_tree_mu")>>
          [] c \in {"pk_gamma2_tree_1loop", "pk_gamma2_1loop_1loop"} ->
               <<c, Sym(a, b), QSet(set, "gamma2_tree_q", sp), MuSet(set, "gamma2_tree_mu")>> \o LoopSets(a, b, set, sp)
          [] c = "pk_gamma3_tree" -> <<"g3", Sym(a, b), RSet(set, "gamma3_tree_q", sp), set["gamma3_tree_q"].ipl, pts>>
          [] cls = "Bias1Loop" -> <<c, QSet(set, "bias_1loop_q", sp), MuSet(set, "bias_1loop_mu")>>
          [] cls = "A1Loop" -> <<"A1", QSet(set, "A_1loop_q", sp), MuSet(set, "A_1loop_mu")>>
          [] cls = "B1Loop" -> <<"B1", QSet(set, "B_q", sp), MuSet(set, "B_mu")>>
          [] cls = "B2Loop" -> <<"B2", sp.m, QSet(set, "B_q", sp), MuSet(set, "B_mu"), set["spectrum_1loop_pk_lin"], set[CutOf("spectrum_1loop")]>> \o oneloop
          [] cls = "A2Loop" -> <<"A2", sp.m, sp.l, QSet(set, "A_2loop_I_q", sp), MuSet(set, "A_2loop_I_mu"), RSet(set, "A_2loop_II_III_q", sp),
                                 set["bispectrum_1loop_pk_lin"], set[CutOf("bispectrum_1loop")], QSet(set, "gamma1_1loop_q", sp),
                                 QSet(set, "gamma2d_1loop_q", sp), QSet(set, "gamma2t_1loop_q", sp), pts>>
  IN JText(base \o dep)

(* factor between a row and the row of the unscaled spectrum                       *)
ScaleOf(cls, c, sp) == IPow(Flt(2), (IF cls \in {"A2Loop", "B2Loop"} /\ c = "pk" THEN 0 ELSE sp.m * Order(cls, c))
                                    + (IF cls = "A2Loop" /\ c = "pk" THEN 0 ELSE sp.l * Dimension(c)))

(* ---- values ------------------------------------------------------------------ *)
V1(p) == [val |-> <<p[1]>>, sc |-> <<p[2]>>]
G(set, name, t) == QGrid(set[name], t)

(* mean of the three-point integrand over the integrator's points                   *)
PtsOf(pts) == Tup([i \in 1 .. (Len(pts) \div 5) |-> SubSeq(pts, 5 * i - 4, 5 * i)])
Gamma3(a, b, k, set, t, pts) ==
  LET P == PtsOf(pts)
      s == set["gamma3_tree_q"]
      v == Tup([i \in 1 .. Len(P) |-> LET x == Gamma3At(a, b, k, P[i], RangeOf(s, t), s.ipl, t) IN <<x, Abs(x)>>])
  IN IF P = <<>> THEN <<Flt(0), Flt(0)>> ELSE VScale((6 / IPow(2 * Pi, 6)) / Len(P), VSum(v))
ATwoMC(k, set, t, pts) ==
  LET P == PtsOf(pts)
      r == RangeOf(set["A_2loop_II_III_q"], t)
      v == Tup([i \in 1 .. Len(P) |-> LET x == ATwoAt(k, P[i], r, set["bispectrum_1loop_pk_lin"], set[CutOf("bispectrum_1loop")], t)
                                      IN x \o Tup([j \in 1 .. 12 |-> Abs(x[j])])])
      s == VScale((Cube(k) / (2 * Pi * Pi)) / Len(P), VSum(v))
  IN IF P = <<>> THEN [val |-> Tup([j \in 1 .. 5 |-> Flt(0)]), sc |-> Tup([j \in 1 .. 5 |-> Flt(0)])]
     ELSE [val |-> AFold(SubSeq(s, 1, 12)), sc |-> AFold(SubSeq(s, 13, 24))]

(* the one-loop spectrum of fields a, b on the table's own wavenumbers, as a table    *)
OneLoopRow(a, b, k, set, t) ==
  [k |-> k, pk_lin |-> FindPk(t, k, set["spectrum_1loop_pk_lin"]),
   gamma1a_1loop |-> Gamma1Loop(Fld(a), k, G(set, "gamma1_1loop_q", t)),
   gamma1b_1loop |-> Gamma1Loop(Fld(b), k, G(set, "gamma1_1loop_q", t)),
   pk_gamma2_tree_tree |-> LET r == TreeTree(Fld(a), Fld(b), k, G(set, "gamma2_tree_q", t), set["gamma2_tree_mu"].n, set["gamma2_tree_mu"].ipl, t)
                           IN IF r = <<>> THEN Flt(0) ELSE r[1]]
OneLoopAt(a, b, k, Dg, set, t) == OneLoopPk(OneLoopRow(a, b, k, set, t), Dg, SigmaD2(t, k, set[CutOf("spectrum_1loop")]))
OneLoopTab(a, b, set, t) == Once(JText(<<"tab", a, b, set["gamma1_1loop_q"], set["gamma2_tree_q"], set["gamma2_tree_mu"], set["spectrum_1loop_pk_lin"], set[CutOf("spectrum_1loop")], t.k, t.p>>), MkTab(t.k, Tup([i \in 1 .. t.n |-> OneLoopAt(a, b, t.k[i], 1, set, t)])))

(* [val, sc] of one row.  nf is the order of the angular grid of the fourth-order     *)
(* kernel average.                                                                     *)
Value(cls, c, a0, b0, k, set, t, pts, nf) ==
  LET a == Fld(a0)  b == Fld(b0)
      mt == set["gamma2_tree_mu"]
      ipl == set[ClsName(cls) \o "_pk_lin"]
      g1(f) == <<Gamma1Loop(f, k, G(set, "gamma1_1loop_q", t)), Gamma1Scale(f, k, G(set, "gamma1_1loop_q", t))>>
      g2(f) == LET x == g1(f)  y == Gamma1TwoLoop(f, k, G(set, "gamma1_2loop_q", t))
               IN <<y[1] + Sq(x[1]) / 2, y[2] + Abs(x[1]) * x[2] + Sq(x[1])>>
      \* evaluated once for all the columns that share it
      dep(name, sets) == JText(<<name, a, b, k, Tup([j \in 1 .. Len(sets) |-> set[sets[j]]]), t.k, t.p, pts, nf>>)
      loops == Once(dep("loops", <<"gamma2_tree_q", "gamma2_tree_mu", "gamma2d_1loop_q", "gamma2t_1loop_q">>), LoopTerms(a, b, k, G(set, "gamma2_tree_q", t), mt.n, mt.ipl, t, G(set, "gamma2d_1loop_q", t), G(set, "gamma2t_1loop_q", t), nf))
      one(i) == <<loops[i], loops[i + 2]>>
      bias == Once(dep("bias", <<"bias_1loop_q", "bias_1loop_mu">>), BiasTerms(k, G(set, "bias_1loop_q", t), set["bias_1loop_mu"].n, set["bias_1loop_mu"].ipl, t))
      two == ATwoI(k, G(set, "A_2loop_I_q", t), set["A_2loop_I_mu"].n,
                   [t |-> t, ipl |-> set["bispectrum_1loop_pk_lin"], uv |-> set[CutOf("bispectrum_1loop")], g1 |-> G(set, "gamma1_1loop_q", t),
                    gd |-> G(set, "gamma2d_1loop_q", t), gt |-> G(set, "gamma2t_1loop_q", t), n |-> nf])
      mc == ATwoMC(k, set, t, pts)
      B(dt, tt) == BTerms(k, G(set, "B_q", t), set["B_mu"].n, set["B_mu"].ipl, dt, tt)
  IN CASE c = "pk_lin" -> V1(<<FindPk(t, k, ipl), FindPkScale(t, k, ipl)>>)
       [] c = "sigmad2" -> V1(<<SigmaD2(t, k, set[CutOf(ClsName(cls))]), SigmaD2Scale(t)>>)
       [] c = "gamma1a_1loop" -> V1(g1(a))
       [] c = "gamma1b_1loop" -> V1(g1(b))
       [] c = "gamma1a_2loop" -> V1(g2(a))
       [] c = "gamma1b_2loop" -> V1(g2(b))
       [] c = "pk_gamma2_tree_tree" -> LET r == TreeTree(a, b, k, G(set, "gamma2_tree_q", t), mt.n, mt.ipl, t)
                                       IN IF r = <<>> THEN V1(<<Flt(0), Flt(0)>>) ELSE V1(r)
       [] c = "pk_gamma2_tree_1loop" -> V1(one(1))
       [] c = "pk_gamma2_1loop_1loop" -> V1(one(2))
       [] c = "pk_gamma3_tree" -> V1(Gamma3(a, b, k, set, t, pts))
       [] cls = "Bias1Loop" -> LET i == CHOOSE i \in 1 .. 8 : BiasNames[i] = c IN V1(<<bias.val[i], bias.sc[i]>>)
       [] cls = "A1Loop" -> ATerms(k, G(set, "A_1loop_q", t), set["A_1loop_mu"].n, set["A_1loop_q"].ipl, set["A_1loop_mu"].ipl, t)
       [] cls = "B1Loop" -> B(t, t)
       [] cls = "B2Loop" -> B(OneLoopTab("delta", "theta", set, t), OneLoopTab("theta", "theta", set, t))
       [] cls = "A2Loop" -> [val |-> VSum(<<two.val, mc.val>>), sc |-> VSum(<<two.sc, mc.sc>>)]
=============================================================================
