------------------------------ MODULE SuiteNum ------------------------------
(* Behaviours for the numerical properties: lookup (C01), dispersion (C02),   *)
(* quadrature (C03) and the defining integrals (C11 .. C14, C20 .. C23).      *)
EXTENDS Inputs
LOCAL INSTANCE TLC

Q8(lo, hi) == <<lo, hi>>
CdmTables == <<"cdm", "irr", "coarse", "dip">>
(* a fresh instance o of a class, told to be quiet, with table "s" registered      *)
Base(t, cls) == TableOps(t, "") \o << New("o", cls), Quiet("o"), Reg("o", "s") >>
(* settings of every calculation reduced to n momenta and m cosines                 *)
Small(h, n, m, r) == << SetNR(h, "all_q", n, r[1], r[2]), SetN(h, "all_mu", m) >>

(* ---- C01: lookups --------------------------------------------------------------- *)
LookupTables == Map(Table, <<"cdm", "irr", "coarse", "plaw", "dip", "neg", "t3", "t4", "t5", "t6">>)
  \o Map(LAMBDA e : Smooth(Geom("2e-3", "7", 40), LAMBDA k : 3 * Pow(k, e)), <<Flt(0), D("4e-4"), -D("4e-4"), D("1e-7"), Flt(12)>>)
  \o Flat(Tup([n \in 1 .. 6 |-> LET m == At(<<15, 16, 17, 18, 31, 32>>, n) IN
            << HoleTable(m, Min2(16, m), Flt(0)), HoleTable(m, Min2(17, m), -D("0.5")), HoleTable(m, Max2(1, m - 15), Flt(0)), HoleTable(m, Max2(1, m - 16), -D("0.5")) >>]))
  \o Tup([i \in 1 .. Pick(14, 120) |-> RandomTable(1000 * i)])
Finds(t) ==
  LET q == Queries(t[1])
      z == Scramble(q)
      one(i) == <<Arr("one", <<q[i]>>), Find("o", "one", "poly"), Find("o", "one", "lin")>>
  IN << Arr("up", t[1]), Arr("down", Reverse(t[1])), ArrAs("mix", IF Len(z) % 2 = 0 THEN z ELSE Tail(z), "f2"), ArrAs("rmix", Reverse(z), "strided"),
        Find("o", "up", "poly"), Find("o", "up", "lin"), Find("o", "down", "poly"), Find("o", "down", "lin"),
        Find("o", "mix", "poly"), Find("o", "rmix", "poly"), Find("o", "mix", "lin"), Find("o", "rmix", "lin") >>
     \o FlatOver(<<1, Len(t[1]), Len(t[1]) + 1, Len(q), Len(q) - 3>>, one)
(* queries around the last point visited before: every ordered pair of a short list   *)
Pairs(t) ==
  LET n == Len(t[1])
      q == << t[1][1] / 2, t[1][1], t[1][2], (t[1][1] + t[1][2]) / 2, t[1][(n + 1) \div 2], (t[1][(n + 1) \div 2] + t[1][((n + 1) \div 2) + 1]) / 2,
              t[1][n-1], (t[1][n-1] + t[1][n]) / 2, t[1][n], 2 * t[1][n] >>
      all == Flat(Tup([i \in 1 .. 10 |-> Flat(Tup([j \in 1 .. 10 |-> <<q[i], q[j]>>]))]))
  IN << Arr("pp", all), Find("o", "pp", "poly"), Find("o", "pp", "lin") >>
Polys(i) ==
  LET m == 1 + (i % 7)
      x == Irregular("0.02", "3", m, 77 * i)
      y == Tup([j \in 1 .. m |-> 10 * (U(31 * i + j) - D("0.5"))])
      xs == << x[1], x[m], (x[1] + x[m]) / 2, x[1] + D("0.3") * (x[m] - x[1]), x[1] / 2, x[m] * D("1.4") >>
      lay == At(<<"c", "strided", "off", "ro", "rev", "be">>, i)
      ask(z) == <<[op |-> "ipoly", h |-> "o", x |-> z, tx |-> "tx", ty |-> "ty"]>> \o (IF m = 2 THEN <<[op |-> "ilin", h |-> "o", x |-> z, tx |-> "tx", ty |-> "ty"]>> ELSE <<>>)
  IN << ArrAs("tx", x, lay), ArrAs("ty", y, lay) >> \o FlatOver(IF m = 1 THEN <<x[1]>> ELSE xs, ask)
LookupCols(cls, t, i) ==
  Base(t, cls) \o Small("o", 3, 2, <<t[1][1], t[1][Len(t[1])]>>)
    \o << Arr("x", Thin(Queries(t[1]), 25)), Grid("o", "x"), GoCls("o", cls, "delta", "theta", 3, <<"pk_lin">>),
          SetI("o", ClsName(cls) \o "_pk_lin", "lin"), GoCls("o", cls, "delta", "theta", 2, <<"pk_lin">>),
          SetI("o", "all_pklin", "poly"), GoCls("o", cls, "theta", "theta", 1, <<"pk_lin">>) >>
SuiteC01 ==
  Tup([i \in 1 .. Len(LookupTables) |-> LET t == LookupTables[i] IN
         Beh("lookup" \o Txt(i), Base(t, "Spectrum1Loop") \o Finds(t) \o Pairs(t))])
  \o Tup([i \in 1 .. Pick(14, 40) |-> Beh("poly" \o Txt(i), << New("o", "Spectrum1Loop"), Quiet("o") >> \o Polys(i))])
  \o Flat(Tup([i \in 1 .. 3 |-> Tup([c \in 1 .. 7 |-> LET cls == At(SetSeq(LibClasses), c) IN
         Beh("column" \o Txt(i) \o cls, LookupCols(cls, Table(At(<<"t5", "coarse", "dip">>, i)), i))])]))
  \* tables of many points
  \o Map(LAMBDA n : LET t == Table(n)  z == Thin(Queries(t[1]), 900) IN
       Beh("many points " \o n, Base(t, "Bias1Loop") \o << Arr("x", z), Find("o", "x", "poly"), Find("o", "x", "lin"), Arr("y", SortSeqNum(SubSeq(z, 1, 150))), Find("o", "y", "poly"), Find("o", "y", "lin"), Sig("o", "y", D("0.5")), Sig("o", "x", Flt(1)) >>), <<"long", "linear", "longer">>)
  \* one instance, several tables in turn
  \o << Beh("tables", FlatOver(<<"cdm", "t3", "irr", "t6">>, LAMBDA n : TableOps(Table(n), n))
          \o << New("o", "A1Loop"), Quiet("o") >>
          \o FlatOver(<<"cdm", "t3", "irr", "t6", "cdm">>, LAMBDA n : << Reg("o", "s" \o n), Arr("x", Scramble(Queries(Table(n)[1]))), Find("o", "x", "poly"), Find("o", "x", "lin") >>)) >>
  \* one table, its power changed in place and registered again
  \o Map(LAMBDA n : LET t == Table(n) IN
       Beh("tilted " \o n, Base(t, "Spectrum1Loop") \o << Arr("x", Scramble(Queries(t[1]))), Find("o", "x", "poly"), Find("o", "x", "lin") >>
         \o FlatOver(<<D("0.4"), -D("0.7"), D("0.2")>>, LAMBDA e : << [op |-> "poke", h |-> "p", fs |-> Map(LAMBDA k : Pow(k, e), t[1])], Reg("o", "s"), Find("o", "x", "poly"), Find("o", "x", "lin"), Sig("o", "x", D("0.5")) >>)), <<"cdm", "t5", "plaw">>)

(* ---- C02: dispersion ---------------------------------------------------------------- *)
Cuts == <<D("0.5"), Flt(1), D("0.1"), Flt(2), D("13"), Flt(0)>>
Sigs(t) ==
  LET q == Queries(t[1])
      z == Scramble(q)
      down == Reverse(t[1])
      x == << t[1][2], t[1][Len(t[1])], t[1][1] / 3, t[1][2], t[1][Len(t[1])] * 90, t[1][1] >>
      ask(uv) == << Sig("o", "mix", uv), Sig("o", "down", uv), Sig("o", "up", uv), Sig("o", "jump", uv), Sig("o", "one", uv), Sig("o", "low", uv) >>
  IN << Arr("up", t[1]), Arr("down", down), ArrAs("mix", z, "strided"), Arr("jump", x), Arr("one", <<t[1][2] * D("2.3")>>), Arr("low", <<t[1][1] / 2, t[1][1] / 7, t[1][1] * D("0.99")>>) >>
     \o FlatOver(Cuts, ask)
SigCols(cls, t, i) ==
  Base(t, cls) \o Small("o", 3, 2, <<t[1][1], t[1][Len(t[1])]>>)
    \o << Arr("x", Thin(Queries(t[1]), 25)), Grid("o", "x"), GoCls("o", cls, "delta", "theta", 3, <<"sigmad2">>),
          Cut("o", ClsName(cls), D("0.21")), GoCls("o", cls, "delta", "theta", 2, <<"sigmad2">>),
          Cut("o", "all", D("1.7")), GoCls("o", cls, "theta", "theta", 1, <<"sigmad2">>),
          Cut("o", ClsName(cls), Flt(0)), GoCls("o", cls, "delta", "theta", 2, <<"sigmad2">>) >>
SuiteC02 ==
  Tup([i \in 1 .. Len(LookupTables) |-> LET t == LookupTables[i] IN Beh("dispersion" \o Txt(i), Base(t, At(SetSeq(LibClasses), i)) \o Sigs(t))])
  \o Flat(Tup([i \in 1 .. 3 |-> Tup([c \in 1 .. 7 |-> LET cls == At(SetSeq(LibClasses), c) IN
         Beh("column" \o Txt(i) \o cls, SigCols(cls, Table(At(<<"t5", "coarse", "neg">>, i)), i))])]))

(* ---- C03: quadrature -------------------------------------------------------------------- *)
Intervals == << <<Flt(-1), Flt(1)>>, <<Flt(0), Flt(1)>>, <<-D("7.6"), D("2.3")>>, <<D("0.3"), D("0.31")>>, <<Flt(100), Flt(104)>>, <<-D("2e-3"), D("5e4")>>, <<Flt(3), Flt(1)>>, <<D("0.4"), -D("7.1")>> >>
Nodes1(n, r) == [op |-> "nodes", h |-> "o", lo |-> r[1], hi |-> r[2], n |-> n]
SuiteC03 ==
  Tup([n \in 1 .. Pick(64, 200) |-> Beh("order" \o Txt(n), << New("o", "Spectrum1Loop"), Quiet("o") >> \o Tup([j \in 1 .. (IF n \leq 32 THEN 8 ELSE 3) |-> Nodes1(n, At(Intervals, j + n))]))])
  \o Map(LAMBDA n : Beh("order" \o Txt(n), << New("o", "A1Loop"), Quiet("o"), Nodes1(n, At(Intervals, n)) >>), Pick(<<100, 127, 128, 150, 200, 300, 500, 600, 1000, 1501, 2000, 2001, 2400, 4001>>, <<300, 500, 511, 512, 600, 1000, 1001, 1500, 1999, 2000, 2001, 2048, 2400, 3001, 4001, 6000, 10001>>))

(* ---- defining integrals -------------------------------------------------------------------- *)
FieldPairs == << <<"delta", "delta">>, <<"delta", "theta">>, <<"theta", "delta">>, <<"theta", "theta">> >>
(* wavenumbers: inside, at and beyond the ends of the table, and exactly on or very near *)
(* to the nodes of the momentum grid                                                      *)
NodeOf(n, r, i) == LET g == Nodes(n, Log(r[1]), Log(r[2])) IN Exp(g.x[i])
KList(t, n, r) ==
  LET q == NodeOf(n, r, (n + 1) \div 2)
      z == NodeOf(n, r, n)
  IN << D("0.013"), D("0.05"), D("0.11"), D("0.31"), D("0.9"), D("2.2"), t[1][1] / 3, t[1][1], t[1][Len(t[1])], t[1][Len(t[1])] * 4,
        q, q * D("1.004"), q / D("1.0097"), q * D("1.0103"), q / D("1.0104"), q * D("1.0000001"), z / D("9.98"), z / D("10.03"), z / 40, D("1.95") * z, D("2.1") * z, z / 2 >>
Ranges(t) == << <<t[1][1], t[1][Len(t[1])]>>, <<D("0.01"), Flt(1)>>, <<Flt(-1), Flt(-1)>>, <<D("5e-4"), Flt(10)>>, <<D("0.03"), D("0.4")>> >>
RealRange(t, r) == IF r[1] \leq 0 \/ r[2] \leq 0 THEN <<t[1][1], t[1][Len(t[1])]>> ELSE r

(* one-loop power spectrum                                                                  *)
OneLoopCols == <<"pk_lin", "sigmad2", "gamma1a_1loop", "gamma1b_1loop", "pk_gamma2_tree_tree">>
Case(i, n) == At(<<7, 4, 12, 1, 2, 9, 6>>, i)
OneLoopBeh(i) ==
  LET t == Table(At(CdmTables, i))
      r == At(Ranges(t), i)
      n == Case(i, 0) + 1
      m == At(<<4, 7, 1, 10, 3>>, i)
      ab == At(FieldPairs, i)
      ba == At(FieldPairs, i + 1)
  IN Beh("one-loop" \o Txt(i), Base(t, "Spectrum1Loop") \o
       << SetNR("o", "gamma1_1loop_q", n + 3, r[1], r[2]), SetNR("o", "gamma2_tree_q", n, r[1], r[2]), SetN("o", "gamma2_tree_mu", m),
          SetI("o", At(<<"gamma1_1loop_q", "gamma2_tree_q", "gamma2_tree_mu", "B_q">>, i), "lin"),
          SetI("o", "spectrum_1loop_pk_lin", At(<<"poly", "lin">>, i)),
          Arr("x", Scramble(KList(t, n + 3, RealRange(t, r)) \o KList(t, n, RealRange(t, r)))), Grid("o", "x"),
          GoFAbs("o", ab[1], ab[2], 1 + (i % 4), OneLoopCols), GoFAbs("o", ba[1], ba[2], 3, OneLoopCols) >>)
DefaultBeh(cls, t, x, a, b, cols) ==
  Beh("default " \o cls, Base(t, cls) \o << Arr("x", x), Grid("o", "x"), GoCls("o", cls, a, b, 8, cols) >>)
(* legs up to a hundred thousand times apart, none of which dominates                       *)
SteepBeh(cls, pre(_, _), a, b, cols, i) ==
  LET t == Table("steep")
      r == At(<< <<D("6e-4"), D("60")>>, <<D("5e-3"), D("70")>>, <<D("4e-4"), D("2")>> >>, i)
  IN Beh("steep" \o cls \o Txt(i), Base(t, cls) \o pre(r, 4 + i) \o
       << Arr("x", << D("30"), D("5e-4"), D("11"), D("8e-3"), D("0.4"), D("2e-3"), D("1.9") >>), Grid("o", "x"), IF cls = "Spectrum1Loop" THEN GoFAbs("o", a, b, 1 + (i % 3), cols) ELSE GoAbs("o", 1 + (i % 3), cols) >>)
(* both momenta confined to a thin shell, and a wide range cut thin near its ends                *)
ThinBeh(cls, pre(_, _), a, b, cols, i) ==
  LET t == Table(At(<<"cdm", "irr">>, i))
      c == At(<<D("0.1"), D("0.02"), D("0.9")>>, i)
      w == At(<<D("1e-3"), D("0.03"), D("3e-5"), D("0.2")>>, i)
      z == IF w < D("0.02") THEN D("0.02") ELSE w
      dense == i % 4 = 0
      go == IF cls = "Spectrum1Loop" THEN GoFAbs("o", a, b, 1 + (i % 3), cols) ELSE GoAbs("o", 1 + (i % 3), cols)
      x == IF dense THEN << c * D("9.1"), c * D("16.3"), c * D("19.7"), c * D("19.96") >>
           ELSE << 2 * c * (1 - w / 2), c, c / 2, 2 * c, c * D("1.5"), 2 * c * (1 + w / 5), c / 30, c * z, c * z * D("1.7"), c * z * 2, c * z * D("2.5"), 2 * c * (1 - w), 2 * c * (1 - w * D("0.9")) >>
  IN Beh("thin " \o cls \o Txt(i), Base(t, cls) \o (IF dense THEN pre(<<c / 10, c * 10>>, Pick(90, 300)) ELSE pre(<<c * (1 - w), c * (1 + w)>>, At(<<6, 3, 9>>, i)))
       \o << Arr("x", x), Grid("o", "x"), go >>)
P1Pre(r, n) == << SetNR("o", "gamma1_1loop_q", n, r[1], r[2]), SetNR("o", "gamma2_tree_q", n, r[1], r[2]), SetN("o", "gamma2_tree_mu", 3) >>
SuiteC11 ==
  Tup([i \in 1 .. Pick(4, 12) |-> SteepBeh("Spectrum1Loop", P1Pre, FieldPairs[1 + (i % 4)][1], FieldPairs[1 + (i % 4)][2], OneLoopCols, i)]) \o
  Tup([i \in 1 .. Pick(8, 24) |-> ThinBeh("Spectrum1Loop", P1Pre, At(FieldPairs, i + i \div 4)[1], At(FieldPairs, i + i \div 4)[2], OneLoopCols, i)]) \o
  Tup([i \in 1 .. Pick(24, 160) |-> OneLoopBeh(i)])
  \o << DefaultBeh("Spectrum1Loop", Table("cdm"), <<D("0.1")>>, "delta", "theta", OneLoopCols),
        DefaultBeh("Spectrum1Loop", Table("fine"), <<D("0.02"), D("3")>>, "theta", "delta", OneLoopCols),
        DefaultBeh("Spectrum1Loop", Table("plaw"), <<D("0.2"), D("1e-3")>>, "delta", "delta", OneLoopCols) >>
  \* the library's own assembled spectrum, fields it does not know
  \o << Beh("unknown field", Base(Table("coarse"), "Spectrum1Loop") \o Small("o", 6, 4, <<D("0.01"), Flt(2)>>)
          \o << Arr("x", <<D("0.05"), D("0.4")>>), Grid("o", "x"), GoFAbs("o", "rho", "theta", 1, OneLoopCols), GoFAbs("o", "", "x", 1, OneLoopCols) >>) >>

(* bias                                                                                     *)
GridBeh(name, cls, i, qn, mn, cols, nq, nmu, ks) ==
  LET t == Table(At(CdmTables, i))
      r == At(Ranges(t), i)
  IN Beh(name \o Txt(i), Base(t, cls) \o
       << SetNR("o", qn, nq, r[1], r[2]), SetN("o", mn, nmu), SetI("o", At(<<qn, mn, "all_q", "all_mu", "gamma1_1loop_q">>, i), At(<<"lin", "poly", "lin">>, i)),
          Arr("x", Thin(Scramble(KList(t, nq, RealRange(t, r))), ks)), Grid("o", "x"), GoAbs("o", 1 + (i % 5), cols) >>)
BiasCols == <<"pk_lin", "sigmad2">> \o BiasNames
BiasPre(r, n) == << SetNR("o", "bias_1loop_q", n, r[1], r[2]), SetN("o", "bias_1loop_mu", 3) >>
SuiteC12 ==
  Tup([i \in 1 .. Pick(3, 12) |-> SteepBeh("Bias1Loop", BiasPre, "", "", BiasCols, i)]) \o
  Tup([i \in 1 .. Pick(8, 24) |-> ThinBeh("Bias1Loop", BiasPre, "", "", BiasCols, i)]) \o
  Tup([i \in 1 .. Pick(24, 160) |-> GridBeh("bias", "Bias1Loop", i, "bias_1loop_q", "bias_1loop_mu", BiasCols, 2 + Case(i, 0), At(<<5, 3, 1, 8>>, i), 21)])
  \o (IF Thorough THEN << DefaultBeh("Bias1Loop", Table("cdm"), <<D("0.1")>>, "", "", BiasCols) >> ELSE <<>>)
A1Pre(r, n) == << SetNR("o", "A_1loop_q", n, r[1], r[2]), SetN("o", "A_1loop_mu", 3) >>
SuiteC13 ==
  Tup([i \in 1 .. Pick(3, 12) |-> SteepBeh("A1Loop", A1Pre, "", "", <<"pk">>, i)]) \o
  Tup([i \in 1 .. Pick(8, 24) |-> ThinBeh("A1Loop", A1Pre, "", "", <<"pk">>, i)]) \o
  Tup([i \in 1 .. Pick(24, 160) |-> GridBeh("A1", "A1Loop", i, "A_1loop_q", "A_1loop_mu", <<"pk_lin", "sigmad2", "pk">>, 2 + Case(i, 0), At(<<5, 3, 1, 8>>, i), 21)])
  \o (IF Thorough THEN << DefaultBeh("A1Loop", Table("cdm"), <<D("0.1")>>, "", "", <<"pk">>) >> ELSE <<>>)

(* B, with the linear and with the one-loop spectra                                          *)
B2Beh(i) ==
  LET t == Table(At(<<"coarse", "t6", "coarse", "t5">>, i))
      r == At(<< <<D("0.01"), Flt(1)>>, <<t[1][1], t[1][Len(t[1])]>>, <<D("0.03"), D("0.4")>> >>, i)
      n == At(<<4, 3, 5, 2>>, i)
  IN Beh("B2" \o Txt(i), Base(t, "B2Loop") \o
       << SetNR("o", "gamma1_1loop_q", 5, r[1], r[2]), SetNR("o", "gamma2_tree_q", 3, r[1], r[2]), SetN("o", "gamma2_tree_mu", 3),
          SetNR("o", "B_q", n, r[1], r[2]), SetN("o", "B_mu", 3), SetI("o", "spectrum_1loop_pk_lin", At(<<"poly", "lin">>, i)),
          Cut("o", At(<<"spectrum_1loop", "B", "all", "bias_1loop">>, i), D("0.3")), SetI("o", At(<<"B_q", "B_mu", "gamma2_tree_q">>, i), "lin"),
          Arr("x", Thin(KList(t, n, r), 6)), Grid("o", "x"), GoAbs("o", 1 + (i % 3), <<"pk_lin", "sigmad2", "pk">>) >>)
(* the library's own B terms: two different spectra given, or none (its one-loop spectra)    *)
OwnB(nt) == [op |-> "cb", h |-> "o", k |-> "x", nt |-> nt]
GivenB(dt, tt) == [g |-> "g"] @@ dt @@ tt
OwnBBeh(i) ==
  LET t == Table(At(<<"coarse", "irr", "t6">>, i))  g == Table(At(<<"cdm2", "coarse", "cdm3">>, i))
      r == At(<< <<D("0.01"), Flt(1)>>, <<D("0.03"), D("0.4")>>, <<Flt(-1), Flt(-1)>> >>, i)
      some == Arr("d", Map(LAMBDA v : D("1.3") * v, g[2]))
      none == IF i % 2 = 1 THEN << OwnB(2), Arr("g", g[1]), some, OwnB(2) @@ GivenB([dt |-> "d"], [dd |-> "d"]), OwnB(1) @@ GivenB([tt |-> "d"], <<>>), OwnB(2) @@ GivenB([td |-> "d"], <<>>), SetN("o", "gamma2_tree_mu", 3), OwnB(3), SetI("o", "spectrum_1loop_pk_lin", "lin"), Cut("o", "spectrum_1loop", D("0.3")), OwnB(1) >> ELSE <<>>
  IN Beh("own B" \o Txt(i), Base(t, "B1Loop") \o
       << SetNR("o", "gamma1_1loop_q", 5, D("0.01"), Flt(1)), SetNR("o", "gamma2_tree_q", 3, D("0.01"), Flt(1)), SetN("o", "gamma2_tree_mu", 2),
          SetNR("o", "B_q", 4, r[1], r[2]), SetN("o", "B_mu", 3), Arr("x", <<D("0.11"), D("0.02"), D("0.7")>>) >> \o none \o
       << Arr("g", g[1]), some, Arr("u", Tup([j \in 1 .. Len(g[1]) |-> (D("0.5") + U(i + j)) * g[2][j]])), Arr("z", Tup([j \in 1 .. Len(g[1]) |-> D("1e5")])),
          OwnB(2) @@ GivenB([dt |-> "d"], [tt |-> "u"]), OwnB(1) @@ GivenB([td |-> "u"], [tt |-> "d"]), SetI("o", "B_mu", "lin"), OwnB(4) @@ GivenB([dt |-> "d"], [tt |-> "u", dd |-> "z"]),
          Grid("o", "x"), GoAbs("o", 2, <<"pk">>), OwnB(2) @@ GivenB([td |-> "d"], [tt |-> "u"]), Grid("o", "x"), GoAbs("o", 1, <<"pk">>),
          \* tabulated at other wavenumbers, as many or fewer
          Arr("g2", Map(LAMBDA v : D("1.07") * v, g[1])), Arr("g3", SubSeq(g[1], 2, Len(g[1]) - 1)), Arr("u3", SubSeq(g[2], 2, Len(g[2]) - 1)),
          OwnB(2) @@ GivenB([dt |-> "d"], [tt |-> "u", ttk |-> "g2"]), OwnB(1) @@ GivenB([dt |-> "d", dtk |-> "g2"], [tt |-> "u"]), OwnB(1) @@ GivenB([td |-> "u3", tdk |-> "g3"], [tt |-> "u"]), OwnB(3) @@ GivenB([dt |-> "d"], [tt |-> "u3", ttk |-> "g3"]) >>)
BPre(r, n) == << SetNR("o", "B_q", n, r[1], r[2]), SetN("o", "B_mu", 3) >>
SuiteC14 ==
  Tup([i \in 1 .. Pick(4, 12) |-> OwnBBeh(i)]) \o
  Tup([i \in 1 .. Pick(3, 12) |-> SteepBeh("B1Loop", BPre, "", "", <<"pk">>, i)]) \o
  Tup([i \in 1 .. Pick(8, 24) |-> ThinBeh("B1Loop", BPre, "", "", <<"pk">>, i)]) \o
  Tup([i \in 1 .. Pick(20, 140) |-> GridBeh("B1", "B1Loop", i, "B_q", "B_mu", <<"pk_lin", "sigmad2", "pk">>, 2 + Case(i, 0), At(<<5, 3, 1, 8>>, i), 21)])
  \o Tup([i \in 1 .. Pick(8, 40) |-> B2Beh(i)])
  \o << DefaultBeh("B1Loop", Table("cdm"), <<D("0.1"), D("0.6")>>, "", "", <<"pk">>) >>

(* two-loop propagator                                                                         *)
PropCols == <<"gamma1a_1loop", "gamma1a_2loop", "gamma1b_1loop", "gamma1b_2loop">>
PropBeh(i) ==
  LET t == Table(At(CdmTables, i))
      r == At(Ranges(t), i)
      rr == RealRange(t, r)
      n == At(<<6, 11, 3, 1, 16>>, i)
      q == NodeOf(n, rr, (n + 1) \div 2)
      ab == At(FieldPairs, i)
  IN Beh("propagator" \o Txt(i), Base(t, "Spectrum2Loop") \o Small("o", 2, 2, <<D("0.02"), D("0.5")>>)
       \o << SetNR("o", "gamma1_2loop_q", n, r[1], r[2]), SetNR("o", "gamma1_1loop_q", 7, rr[1], rr[2]),
             SetI("o", At(<<"gamma1_2loop_q", "gamma1_1loop_q">>, i), "lin"),
             Arr("x", <<D("0.013"), D("0.11"), D("0.9"), D("3"), t[1][1] / 2, q, q * 7, q / 9>>), Grid("o", "x"),
             GoFAbs("o", ab[1], ab[2], 2, PropCols) >>)
(* all pairs of momenta close to each other, or far from each other, and around the        *)
(* ratios where the fit is replaced by its expansions                                       *)
Widths == <<D("1.0005"), D("1.004"), D("1.0099"), D("1.017"), D("1.0198"), D("1.0207"), D("1.03"), D("1.09"), D("1.5"), Flt(36), D("38.5"), D("39.5"), Flt(44), Flt(400), Flt(30000)>>
FitBeh(i) ==
  LET t == Table(At(CdmTables, i))
      lo == At(<<D("0.004"), D("0.05"), D("0.3"), D("0.0012")>>, i)
      one(w) == << SetNR("o", "gamma1_2loop_q", 3, lo, lo * w), GoFAbs("o", "delta", "theta", 1, PropCols), SetN("o", "gamma1_2loop_q", 8), GoFAbs("o", "theta", "delta", 2, PropCols) >>
  IN Beh("fit" \o Txt(i), Base(t, "Spectrum2Loop") \o Small("o", 2, 1, <<D("0.02"), D("0.5")>>) \o << SetNR("o", "gamma1_1loop_q", 2, D("1e4"), D("2e4")), Arr("x", <<lo, lo * D("1.001"), lo / 5, lo * 40, D("0.1")>>), Grid("o", "x") >> \o FlatOver(Widths, one))
(* the one-loop columns of a two-loop run and of a one-loop run                                 *)
BothBeh(i) ==
  LET t == Table(At(<<"cdm", "irr", "dip">>, i))
      ab == At(FieldPairs, i)
      one == <<"pk_lin", "sigmad2", "gamma1a_1loop", "gamma1b_1loop", "pk_gamma2_tree_tree">>
  IN Beh("both" \o Txt(i), Base(t, "Spectrum2Loop") \o << New("w", "Spectrum1Loop") >> \o Small("o", 3, 2, <<D("0.01"), Flt(2)>>)
       \o << SetN("o", "gamma1_1loop_q", 40), Arr("x", <<D("0.02"), D("0.2"), D("1.4"), D("7")>>), Grid("o", "x"), Grid("w", "x"),
             GoFAbs("o", ab[1], ab[2], 2, one), GoFAbs("w", ab[1], ab[2], 3, one) >>)
SuiteC20 ==
  Tup([i \in 1 .. Pick(30, 200) |-> PropBeh(i)]) \o Tup([i \in 1 .. Pick(4, 12) |-> FitBeh(i)]) \o Tup([i \in 1 .. Pick(8, 16) |-> BothBeh(i)])
  \o (IF Thorough THEN << DefaultBeh("Spectrum2Loop", Table("cdm"), <<D("0.12")>>, "delta", "theta", PropCols) >> ELSE <<>>)
=============================================================================
