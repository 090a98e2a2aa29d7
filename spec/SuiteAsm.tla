------------------------------ MODULE SuiteAsm ------------------------------
(* Behaviours for the assembled quantities (C15, C24, C26): objects filled by  *)
(* runs and objects given arbitrary columns, evaluated with many arguments.     *)
EXTENDS SuiteRel
LOCAL INSTANCE TLC

(* arbitrary columns: signs, magnitudes and zeros as no run would give them         *)
Wild(n, salt, mag) == Tup([j \in 1 .. n |-> LET u == U(salt + j) IN
                       CASE (j + salt) % 7 = 0 -> Flt(0) [] (j + salt) % 3 = 0 -> -(u * D(mag)) [] OTHER -> u * D(mag)])
Growing(n, lo, hi, salt) == IF n = 1 THEN <<D(lo)>> ELSE Irregular(lo, hi, n, salt)
MagOf(c) == CASE c = "pk_lin" -> "9e3" [] c = "sigmad2" -> "30" [] c \in {"gamma1a_1loop", "gamma1b_1loop"} -> "0.4"
              [] c \in {"gamma1a_2loop", "gamma1b_2loop"} -> "0.1" [] OTHER -> "4e3"
Cell(h, c) == h \o "_" \o c
Synthetic(h, cls, k, salt) ==
  LET n == Len(k)
      cs == SelectSeq(Fields(cls), LAMBDA c : c # "k")
      w(c) == Max2(1, NComp(cls, c))
      one(j) == LET c == cs[j]
                    v == Wild(n * w(c), salt * 53 + 211 * j, MagOf(c))
                    vv == IF c = "sigmad2" THEN Map(Abs, v) ELSE v
                IN << IF w(c) = 1 THEN Arr(Cell(h, c), vv) ELSE ArrAs(Cell(h, c), vv, IF w(c) = 5 THEN "w5" ELSE "w9"), [op |-> "setc", h |-> h, c |-> c, v |-> Cell(h, c)] >>
  IN << New(h, cls), Quiet(h), Arr(Cell(h, "k"), k), [op |-> "setc", h |-> h, c |-> "k", v |-> Cell(h, "k")] >> \o FlatOver(Upto(Len(cs)), one)
SyntheticLin(h, cls, k, salt) == << New(h, cls), Arr(Cell(h, "k"), k), Arr(Cell(h, "pk"), Map(Abs, Wild(Len(k), salt, "8e3"))),
                               [op |-> "setc", h |-> h, c |-> "k", v |-> Cell(h, "k")], [op |-> "setc", h |-> h, c |-> "pk", v |-> Cell(h, "pk")] >>

Growths == << D("1"), D("0.7"), D("0.31"), D("1.44"), D("2.5"), D("0"), D("1e-3") >>
Arg(g) == [D |-> g]
Given(s) == [s2 |-> s]
Nul == [x \in {} |-> 0]
(* arguments of an assembled spectrum: growth given or not, dispersion stored, scalar or per row   *)
PkArgs == << Nul >> \o Map(LAMBDA g : Arg(g), Growths) \o << Given(Flt(0)), Given(D("36.5")), Given("s2") >>
          \o << Arg(D("0.7")) @@ Given(D("4.2")), Arg(D("1.3")) @@ Given("s2"), Arg(D("0.2")) @@ Given(Flt(0)), Arg(D("3")) @@ Given(D("1e-3")), Arg("dg"), Arg("dg") @@ Given("s2"), Arg("dg") @@ Given(D("2.5")), Arg(Flt(0)) @@ Given(D("2.5")), Arg(Flt(0)), Arg(-D("0.8")) >>
Ask(op, h, x) == [op |-> op, h |-> h] @@ x
S2Arr(n, salt) == Arr("s2", Map(Abs, Wild(n, salt, "25")))
GrArr(n, salt) == Arr("dg", Tup([j \in 1 .. n |-> D("0.3") + U(salt + 7 * j)]))
BiasAcc == SelectSeq(BiasNames, LAMBDA c : c # "sigma3sq") \o << "pk_sigma3sq", "pk_lin" >>
DampAcc == << "pk_b22_damp", "pk_b2s2_damp", "pk_bs22_damp" >>
Assembled == << "Spectrum1Loop", "Spectrum2Loop" >>

SynthBeh(cls, i) ==
  LET n == At(<<1, 5, 12, 2, 30, 7>>, i)
      k == Growing(n, "2e-3", "1.7", 40 * i)
      q == At(<<Nul, Given("s2"), Arg(D("0.8"))>>, i)
      accs == Flat(Map(LAMBDA f : Map(LAMBDA g : Ask("acc", "o", [f |-> f] @@ Arg(g)), <<D("1"), D("0.6"), D("1.7"), Flt(0), "dg">>) \o << Ask("acc", "o", [f |-> f]) >>, BiasAcc))
      damp == Flat(Map(LAMBDA f : Map(LAMBDA a : Ask("acc", "o", [f |-> f] @@ a), PkArgs), DampAcc))
      one == << Ask("acc", "o", [f |-> "pk_lin"]), Ask("acc", "o", [f |-> "pk_lin"] @@ Arg(D("0.4"))) >>
      asks == CASE cls = "Bias1Loop" -> accs \o damp
                [] cls \in {"Spectrum1Loop", "Spectrum2Loop"} -> one \o Map(LAMBDA a : Ask("pk", "o", a), PkArgs)
                [] OTHER -> one \o Map(LAMBDA g : Ask("pk", "o", Arg(g)), Growths) \o << Ask("pk", "o", Nul) >>
  IN Beh("assembled " \o cls \o Txt(i), Synthetic("o", cls, k, i) \o << S2Arr(n, i), GrArr(n, i) >> \o asks
        \o << Ask("resc", "o", Arg(D("0.7"))) >> \o asks \o << [op |-> "sl", h |-> "o", o |-> "o", ix |-> [k |-> "slice", v |-> <<None, None, 1>>]] >> \o SubSeq(asks, 1, 3))
LinAsm(cls, i) ==
  LET k == Growing(At(<<9, 1, 24>>, i), "2e-3", "1.7", 40 * i) IN
  Beh("assembled " \o cls \o Txt(i), SyntheticLin("o", cls, k, 7 * i) \o << GrArr(Len(k), i), Ask("pk", "o", Arg("dg")), Ask("pk", "o", Nul) >> \o Map(LAMBDA g : Ask("pk", "o", Arg(g)), Growths)
      \o << Ask("resc", "o", Arg(D("0.7"))), Ask("pk", "o", Nul), Ask("pk", "o", Arg(D("1.9"))) >>)
(* spectra of runs, and the library's own                                              *)
RunAsm(cls, i) ==
  LET t == Table(At(<<"cdm", "irr", "plaw", "dip">>, i))
      ks == Ks(t)  ab == At(FieldPairs, i)
      own == [op |-> "cpk", h |-> "o", k |-> "x", a |-> ab[1], b |-> ab[2], nt |-> 3]
      lib == [op |-> "clib", h |-> "o", n |-> IF cls = "Spectrum1Loop" THEN 1 ELSE 2]
  IN Beh("spectrum " \o cls \o Txt(i), Base(t, cls) \o Medium("o", cls) \o << Pts(Points(3, i)), Arr("x", ks), S2Arr(Len(ks), 60 + i), GrArr(Len(ks), 60 + i), Grid("o", "x"),
        GoCls("o", cls, ab[1], ab[2], 3, <<>>), lib >> \o Map(LAMBDA a : Ask("pk", "o", a), PkArgs)
        \o (IF cls = "Spectrum1Loop" THEN << own, Cut("o", "spectrum_1loop", D("0.21")), own, GoCls("o", cls, ab[1], ab[2], 2, <<>>), lib, Ask("pk", "o", Nul), own,
               SetI("o", "spectrum_1loop_pk_lin", "lin"), own, GoCls("o", cls, ab[1], ab[2], 2, <<>>), Ask("pk", "o", Nul),
               SetI("o", "spectrum_2loop_pk_lin", "lin"), own, Reset("o", "spectrum_1loop_q"), SetNR("o", "spectrum_1loop_q", 12, D("0.01"), D("0.9")), own >> ELSE <<>>))
(* the library's own spectrum before any run, and for few rows                            *)
OwnFirst(i) ==
  LET t == Table(At(<<"cdm", "coarse">>, i))  ab == At(FieldPairs, i)
      own(x) == [op |-> "cpk", h |-> "o", k |-> x, a |-> ab[1], b |-> ab[2], nt |-> 1] IN
  Beh("own spectrum" \o Txt(i), Base(t, "Spectrum1Loop") \o << SetN("o", "all_q", 12), SetN("o", "all_mu", 4), Arr("x", SubSeq(Ks(t), 1, i)), own("x"), own("x"), Arr("y", SubSeq(Ks(t), 2, 9)), own("y"), own("x") >>)
SuiteC15 == FlatOver(<<"Spectrum1Loop", "Spectrum2Loop", "Bias1Loop", "A1Loop", "A2Loop", "B1Loop", "B2Loop">>, LAMBDA c : Tup([i \in 1 .. Pick(6, 30) |-> SynthBeh(c, i)]))
            \o FlatOver(<<"SpectrumLin", "SpectrumNoWiggle">>, LAMBDA c : Tup([i \in 1 .. 3 |-> LinAsm(c, i)]))
            \o FlatOver(Assembled, LAMBDA c : Tup([i \in 1 .. Pick(6, 24) |-> RunAsm(c, i)])) \o Tup([i \in 1 .. 4 |-> OwnFirst(i)])

(* ---- C24 --------------------------------------------------------------------------- *)
QueryK(k) == Scramble(k \o Between(k, D("0.5")) \o Between(k, D("0.01")) \o Between(k, D("0.999")) \o << k[1] * D("0.99999"), k[1] / 7, k[Len(k)] * D("1.00001"), k[Len(k)] * 9 >>)
Ends == << Nul, [l |-> D("-3.5")], [r |-> D("17")], [l |-> D("2.25"), r |-> D("-8")] >>
RsdArgs == << Nul, [beta |-> D("0.43")], [D |-> D("0.66")], [beta |-> D("1.7"), D |-> D("1.2")], [beta |-> Flt(0)], [beta |-> D("-0.5"), D |-> D("0.9")], [beta |-> "be"], [beta |-> "be", D |-> D("0.8")] >>
Mu2s == << "mu", D("0.36"), Flt(1), Flt(0), D("0.81") >>
RsdAsk(mu) == LET ask(e, a) == [op |-> "rsd", h |-> "o", k |-> "q", mu2 |-> mu] @@ e @@ a IN Flat(Map(LAMBDA e : Map(LAMBDA a : ask(e, a), RsdArgs), Ends))
RsdBeh(cls, i) ==
  LET n == At(<<6, 11, 2, 25, 1>>, i)
      k == Growing(n, "3e-3", "0.9", 71 * i)
      q == QueryK(k)
      mu == Tup([j \in 1 .. Len(q) |-> U(900 + i + j)])
  IN Beh("redshift space " \o cls \o Txt(i), Synthetic("o", cls, k, 100 + i) \o << Arr("q", q), Arr("mu", mu), Arr("be", Tup([j \in 1 .. Len(q) |-> D("0.2") + U(1900 + i + j)])) >> \o FlatOver(Mu2s, RsdAsk)
         \o << Ask("resc", "o", Arg(D("0.7"))) >> \o RsdAsk("mu"))
(* one component at a time                                                               *)
UnitBeh(cls, i) ==
  LET w == NComp(cls, "pk")  k == Growing(4, "1e-2", "0.5", 5 * i)
      comp(c) == Tup([j \in 1 .. (4 * w) |-> IF ((j - 1) % w) + 1 = c THEN 10 + U(j + 3 * c) ELSE Flt(0)])
      one(c) == << ArrAs("u" \o Txt(c), comp(c), IF w = 5 THEN "w5" ELSE "w9"), [op |-> "setc", h |-> "o", c |-> "pk", v |-> "u" \o Txt(c)] >> \o
                << [op |-> "rsd", h |-> "o", k |-> "q", mu2 |-> D("0.3"), beta |-> D("0.6"), D |-> D("1.1"), l |-> Flt(0), r |-> Flt(0)],
                   [op |-> "rsd", h |-> "o", k |-> "q", mu2 |-> "mu", beta |-> D("1.9"), l |-> D("0.5"), r |-> Flt(-2)] >>
  IN Beh("component " \o cls \o Txt(i), Synthetic("o", cls, k, 300 + i) \o << Arr("q", QueryK(k)), Arr("mu", Tup([j \in 1 .. Len(QueryK(k)) |-> U(77 + j)])) >> \o FlatOver(Upto(w), one))
InterpBeh(cls, i) ==
  LET n == At(<<5, 14, 1, 3>>, i)
      k == Growing(n, "3e-3", "0.9", 31 * i)
      make == IF cls \in LinClasses THEN SyntheticLin("o", cls, k, 9 * i) ELSE Synthetic("o", cls, k, 200 + i)
      args == IF cls \in LinClasses THEN << Nul, Arg(D("0.6")), Arg(Flt(0)), Arg("dg") >> ELSE << Nul, Arg(D("0.6")), Arg(Flt(0)), Given("s2"), Arg(D("1.5")) @@ Given(D("3.3")), Arg("dg") >>
  IN Beh("interpolated " \o cls \o Txt(i), make \o << S2Arr(n, 5 * i), GrArr(n, 5 * i), Arr("q", QueryK(k)), Arr("q1", <<k[1]>>) >>
       \o Flat(Map(LAMBDA e : Map(LAMBDA a : [op |-> "interp", h |-> "o", k |-> "q"] @@ e @@ a, args), Ends)) \o << [op |-> "interp", h |-> "o", k |-> "q1"] >>)
RunRsd(cls, i) ==
  LET t == Table(At(<<"cdm", "irr">>, i))  k == SortSeqNum(Ks(t)) IN
  Beh("run and interpolate " \o cls \o Txt(i), Base(t, cls) \o Medium("o", cls) \o << Pts(Points(2, i)), Arr("x", k), Grid("o", "x"), Arr("q", QueryK(k)), Arr("mu", Tup([j \in 1 .. Len(QueryK(k)) |-> U(17 + j)])), Arr("be", Tup([j \in 1 .. Len(QueryK(k)) |-> U(27 + j)])),
       GoCls("o", cls, "delta", "delta", 2, <<>>) >> \o RsdAsk("mu"))
RsdClasses == << "A1Loop", "B1Loop", "A2Loop", "B2Loop" >>
SuiteC24 == FlatOver(RsdClasses, LAMBDA c : Tup([i \in 1 .. Pick(5, 25) |-> RsdBeh(c, i)]) \o Tup([i \in 1 .. Pick(2, 6) |-> UnitBeh(c, i)]) \o << RunRsd(c, 1) >>)
            \o FlatOver(<<"SpectrumLin", "SpectrumNoWiggle", "Spectrum1Loop", "Spectrum2Loop">>, LAMBDA c : Tup([i \in 1 .. Pick(4, 20) |-> InterpBeh(c, i)]))

(* ---- C26 ---------------------------------------------------------------------------- *)
Radii == << Flt(8), D("1"), D("0.2"), D("30"), D("110") >>
StatAsk(args) == Flat(Map(LAMBDA a : << Ask("sv", "o", a), Ask("s8", "o", a) >> \o Map(LAMBDA R : Ask("sr", "o", [R |-> R] @@ a), Radii), args))
Positive(n, salt, mag) == Tup([j \in 1 .. n |-> (D("0.02") + U(salt + j)) * D(mag)])
StatBeh(cls, i) ==
  LET n == At(<<40, 7, 2, 150, 1, 90>>, i)
      k == Growing(n, At(<<"1e-3", "1e-2", "5e-4">>, i), At(<<"3", "0.4", "12">>, i), 13 * i)
      lin == cls \in LinClasses
      make == IF lin THEN << New("o", cls), Arr("ok", k), Arr("op", Positive(n, 60 + i, "2e4")), [op |-> "setc", h |-> "o", c |-> "k", v |-> "ok"], [op |-> "setc", h |-> "o", c |-> "pk", v |-> "op"] >>
              ELSE Synthetic("o", cls, k, 400 + i)
              \* positive spectra
              \o << Arr("pl", Positive(n, 70 + i, "2e4")), [op |-> "setc", h |-> "o", c |-> "pk_lin", v |-> "pl"], Arr("tt", Positive(n, 80 + i, "90")), [op |-> "setc", h |-> "o", c |-> "pk_gamma2_tree_tree", v |-> "tt"] >>
              \o (IF cls = "Spectrum2Loop" THEN Flat(Map(LAMBDA c : << Arr("t" \o c, Positive(n, 90 + i, "40")), [op |-> "setc", h |-> "o", c |-> c, v |-> "t" \o c] >>, <<"pk_gamma2_tree_1loop", "pk_gamma2_1loop_1loop", "pk_gamma3_tree">>)) ELSE <<>>)
              \* propagators positive
              \o Flat(Map(LAMBDA c : << Arr("g" \o c, Positive(n, 95 + i, "0.3")), [op |-> "setc", h |-> "o", c |-> c, v |-> "g" \o c] >>, IF cls = "Spectrum2Loop" THEN <<"gamma1a_1loop", "gamma1b_1loop", "gamma1a_2loop", "gamma1b_2loop">> ELSE <<"gamma1a_1loop", "gamma1b_1loop">>))
      args == IF lin THEN << Nul, Arg(D("0.6")), Arg(Flt(0)), Arg("dg") >> ELSE << Nul, Arg(D("0.6")), Arg(Flt(0)), Given("s2"), Arg(D("1.5")) @@ Given(D("0.3")), Arg("dg") >>
  IN Beh("statistics " \o cls \o Txt(i), make \o << S2Arr(n, 3 * i), GrArr(n, 3 * i) >> \o StatAsk(args) \o << Ask("resc", "o", Arg(D("1.25"))) >> \o StatAsk(<<Nul>>))
RunStat(cls, i) ==
  LET t == Table(At(<<"cdm", "plaw">>, i))  k == SortSeqNum(Ks(t)) IN
  Beh("statistics of a run " \o cls \o Txt(i), Base(t, cls) \o Medium("o", cls) \o << Pts(Points(2, i)), Arr("x", k), Grid("o", "x"), GoF("o", "delta", "theta", 2) >> \o StatAsk(<<Nul, Arg(D("0.8"))>>))
Cosmologies == << Nul, [h |-> D("0.7")], [omega_b |-> D("0.03")], [omega_m |-> D("0.11")], [T_cmb |-> D("2.9")], [Omega_m |-> D("0.31")], [Omega_b |-> D("0.049")],
                  [h |-> D("0.55"), Omega_m |-> D("0.4"), Omega_b |-> D("0.06"), T_cmb |-> D("2.7")], [h |-> D("0.73"), omega_m |-> D("0.14"), Omega_b |-> D("0.03")],
                  [h |-> D("0.6774"), omega_b |-> D("0.0223"), omega_m |-> D("0.1419"), T_cmb |-> D("2.7255")], [omega_m |-> D("0.2"), Omega_m |-> D("0.25")] >>
NoWigBeh(i) ==
  LET n == At(<<30, 1, 8, 70>>, i)
      k == Growing(n, "8e-4", "6", 19 * i)
      ns == <<Nul, [n_s |-> D("0.96")], [n_s |-> Flt(0)], [n_s |-> D("1.2")]>>
      run(c) == << [op |-> "nwrun", h |-> "o", c |-> c @@ At(ns, i), p |-> "p"], Ask("pk", "o", Arg(D("0.8"))), Ask("sv", "o", Nul),
                   [op |-> "nwrun", h |-> "o", c |-> c @@ At(ns, i + 1) @@ [A |-> D("3.2e5")]], Ask("s8", "o", Nul),
                   [op |-> "nwrun", h |-> "o", c |-> c @@ At(ns, i + 2) @@ [A |-> D("7.1e4")], p |-> "p"], Ask("interp", "o", [k |-> "q"]),
                   [op |-> "nwrun", h |-> "o", c |-> c @@ At(ns, i) @@ [A |-> Flt(0)], p |-> "p"], Ask("pk", "o", Nul) >>
  IN Beh("no wiggle" \o Txt(i), << New("o", "SpectrumNoWiggle"), Arr("x", k), Arr("p", Positive(n, 60 + i, "3e3")), Arr("q", QueryK(k)), Grid("o", "x"), Ask("pk", "o", Nul) >>
       \o Flat(Map(LAMBDA c : << Ask("trans", "o", [c |-> c]) >> \o run(c), Cosmologies)))
ShotBeh(i) ==
  LET k == Scramble(Growing(At(<<20, 3, 60>>, i), "1e-5", "50", 23 * i) \o << D("5e-4"), D("10"), D("0.01"), D("0.2") >>)
      args == << Nul, [kmin |-> D("0.01")], [kmax |-> D("0.2")], [kmin |-> D("0.01"), kmax |-> D("0.2")], [kmin |-> Flt(0)], [kmin |-> D("60"), kmax |-> D("70")], [kmax |-> D("1e-6"), kmin |-> D("1e-7")] >>
  IN Beh("shot noise" \o Txt(i), << New("o", "Bias1Loop"), Quiet("o"), Arr("x", k), Grid("o", "x") >> \o Map(LAMBDA a : Ask("shot", "o", a), args))
SuiteC26 == FlatOver(<<"SpectrumLin", "SpectrumNoWiggle", "Spectrum1Loop", "Spectrum2Loop">>, LAMBDA c : Tup([i \in 1 .. Pick(6, 24) |-> StatBeh(c, i)]))
            \o << RunStat("Spectrum1Loop", 1), RunStat("Spectrum2Loop", 2) >> \o Tup([i \in 1 .. Pick(6, 12) |-> NoWigBeh(i)]) \o Tup([i \in 1 .. 3 |-> ShotBeh(i)])
=============================================================================
