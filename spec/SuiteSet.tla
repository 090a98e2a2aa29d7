------------------------------ MODULE SuiteSet ------------------------------
(* Behaviours for the settings (C04), their reset (C05) and verbosity (C16).   *)
EXTENDS Session
LOCAL INSTANCE TLC

(* one object of every class, on two wavenumbers                                     *)
ObjName(c) == "o" \o c
Everyone(x) == FlatOver(Classes, LAMBDA c : << New(ObjName(c), c), Quiet(ObjName(c)), Grid(ObjName(c), x) >>)
RunAs(c, ab, how) == (IF c = "B2Loop" THEN [atol |-> D("1e-6")] ELSE Nul) @@ GoCls(ObjName(c), c, ab[1], ab[2], 2, how)
RunAll(ab, how) == Map(LAMBDA c : RunAs(c, ab, how), Classes)
NewRows == <<"new">>
Setting(t, x) == TableOps(t, "") \o << Arr("x", x), New("z", "Bias1Loop"), Quiet("z"), Reg("z", "s"), Pts(Points(2, 9)) >>
TwoK == << D("0.05"), D("0.33") >>

(* a behaviour, and its runs of the calculations whose values are not computed again    *)
(* here, repeated with every setting given by its own name                               *)
WithRepeats(id, ops) == LET w == Take(Begin, ops) IN Beh(id, w.ops \o FlatOver(SelectSeq(w.runs, LAMBDA r : r.cls \in {"A2Loop", "Spectrum2Loop"}), RepeatShort))
(* calculations that may be given a single point                                      *)
OnePoint(name) == Members(name) \subseteq MuNames \union {"gamma1_1loop_q", "gamma1_2loop_q"}
(* what a call may specify                                                            *)
Calls(h, name) ==
  LET n == At(SmallN(name), 2)  m == At(SmallN(name), 1) IN
  << SetN(h, name, n), SetR(h, name, D("0.02"), Flt(1)), SetI(h, name, "lin"), [ipl |-> "lin"] @@ SetNR(h, name, m, D("0.01"), D("3")),
     SetI(h, name, At(OtherModes, Len(name))), [ipl |-> At(OtherModes, Len(name) + 3)] @@ SetN(h, name, m), SetNR(h, name, n, Flt(2), Flt(1)), Reset(h, name), SetR(h, name, Flt(-1), Flt(-1)),
     [ipl |-> "poly"] @@ SetR(h, name, D("0.03"), Flt(2)), IF OnePoint(name) THEN SetN(h, name, 1) ELSE SetN(h, name, m),
     IF Members(name) \subseteq MuNames THEN SetR(h, name, Flt(0), Flt(1)) ELSE SetR(h, name, D("0.3"), D("0.3")) >>
Who(i) == At(<<"z", "oSpectrum1Loop", "oA2Loop", "oBias1Loop", "oB2Loop">>, i)
(* settings different from the defaults, everywhere                                      *)
Others(h) == << SetNR(h, "all_q", 7, D("0.015"), D("1.5")), [ipl |-> "lin"] @@ SetN(h, "all_mu", 4), SetN(h, "gamma2_1loop_q", 5), SetN(h, "A_2loop_I_q", 5),
                SetNR(h, "bias_1loop_q", 12, D("0.03"), D("2.5")), SetI(h, "A_1loop_q", "lin"), SetI(h, "all_pklin", "lin"), Cut(h, "all", D("0.21")) >>
Base4(i) == IF i % 2 = 0 THEN Tiny("z") ELSE Others("z")
(* small again after a reset, so that the default range and mode show                    *)
Smaller(name) == LET s == Map(LAMBDA x : SetN("z", x, At(SmallN(x), 1)), SelectSeq(SetSeq(PrecNames \ RangeNames), LAMBDA x : x \in Members(name))) IN s
CallBeh(j, i) ==
  LET name == AllNames[j]
      cs == Calls(Who(i + j), name)
      c(m) == At(cs, m)
      ab == At(FieldPairs, i + j)
      needs(op) == Update(CHOOSE s \in Members(name) : TRUE, Prec(5, "1", "2"), Opt(op, "n", 0), Opt(op, "min", Flt(1)), Opt(op, "max", Flt(-1)), Opt(op, "ipl", "test")).n # 5
      do(op) == << op >> \o (IF Opt(op, "n", 0) > 0 THEN <<>> ELSE Smaller(name)) \o RunAll(ab, NewRows)
  IN WithRepeats("call " \o name \o Txt(i), Setting(Table("coarse"), TwoK) \o Everyone("x") \o Base4(i) \o RunAll(ab, NewRows) \o do(c(3 * i + 5 * j)) \o do(c(3 * i + 5 * j + 1)) \o do(c(3 * i + 5 * j + 2)))
PkCutBeh(i) ==
  LET ab == At(FieldPairs, i)
      pk(j) == Map(LAMBDA m : SetI(Who(j), SetSeq(PkLinNames \union {"all_pklin"})[1 + ((j + i) % 8)], m), At(<< <<"lin">>, <<"poly">>, <<"lin", At(OtherModes, i + j)>>, <<At(OtherModes, 3 * i + j)>>, <<"lin", "poly">> >>, i + j))
      ct(j) == LET c == SetSeq(CutNames \union {"all"})[1 + ((j * 3 + i) % 8)] IN IF (i + j) % 5 = 0 THEN << [op |-> "cut", h |-> Who(j), name |-> c] >> ELSE << Cut(Who(j), c, At(<<D("0.2"), D("0.5"), Flt(1), D("0.05"), Flt(0)>>, i + j)) >>
      one(j) == (IF (i + j) % 2 = 0 THEN pk(j) ELSE ct(j)) \o (IF j % 4 = 0 THEN pk(j + 1) ELSE <<>>) \o RunAll(ab, NewRows)
  IN WithRepeats("modes and cutoffs" \o Txt(i), Setting(Table(At(<<"coarse", "t6">>, i)), TwoK) \o Everyone("x") \o Base4(i) \o FlatOver(Upto(9), one))
WalkSet(i) ==
  LET one(j) == LET z == 500 * i + j IN CASE j % 5 = 3 -> << RandPk(Who(j), z) >> [] j % 5 = 4 -> << RandCut(Who(j), z) >> [] OTHER -> << RandSet(Who(j), z) >>
      round(j) == FlatOver(Upto(4), LAMBDA m : one(7 * j + m)) \o Tiny("z") \o FlatOver(Upto(3), LAMBDA m : LET r == RandSet(Who(m), 900 * i + 31 * j + m) IN IF "n" \in DOMAIN r \/ r.op = "prec" THEN << r >> \o Smaller(r.name) ELSE << r >>)
                  \o RunAll(At(FieldPairs, i), NewRows)
  IN WithRepeats("settings walk" \o Txt(i), Setting(Table("coarse"), TwoK) \o Everyone("x") \o FlatOver(Upto(3), round))
(* unknown calculations change nothing                                                            *)
Unknown(i) ==
  LET bad == << SetN("z", "gamma4_q", 3), SetN("z", "gamma1_1loop", 3), [op |-> "cut", h |-> "z", name |-> "A", uv |-> D("0.1")], SetI("z", "pk_lin", "lin"), SetN("z", "", 3), SetI("z", "gamma2_tree_pk_lin", "lin") >>
  IN WithRepeats("unknown names" \o Txt(i), Setting(Table("coarse"), TwoK) \o Everyone("x") \o Base4(i) \o RunAll(<<"delta", "theta">>, NewRows) \o bad \o RunAll(<<"delta", "theta">>, NewRows))
SuiteC04 == FlatOver(Upto(Len(AllNames)), LAMBDA j : Tup([i \in 1 .. Pick(4, 10) |-> CallBeh(j, i + (IF Thorough THEN 0 ELSE 0))]))
            \o Tup([i \in 1 .. Pick(10, 40) |-> PkCutBeh(i)]) \o Tup([i \in 1 .. Pick(16, 200) |-> WalkSet(i)]) \o << Unknown(1), Unknown(2) >>

(* ---- C05 ---------------------------------------------------------------------------------- *)
Small5 == SubSeq(Classes, 1, 4) \o SubSeq(Classes, 6, 7)
RunSome(i, ab) == Map(LAMBDA c : RunAs(c, ab, <<>>), IF i % 4 = 1 THEN Classes ELSE Small5)
Spoil(i) == FlatOver(Upto(5), LAMBDA j : LET z == 700 * i + j IN << RandSet(Who(j), z), RandPk(Who(j + 1), z + 3), RandCut(Who(j + 2), z + 5) >>)
SpoilAll(i) == Others(Who(i)) \o << SetR(Who(i), "A_2loop_II_III_q", D("0.02"), Flt(1)), SetR(Who(i), "gamma3_tree_q", D("0.02"), Flt(1)), [ipl |-> "lin"] @@ SetR(Who(i), "all_q", D("0.02"), Flt(1)) >>
ClearBeh(i) ==
  LET ab == At(FieldPairs, i)
      x == Arr("x", << At(<<D("0.11"), D("0.4"), D("0.03")>>, i) >>)
      head == TableOps(Table("coarse"), "") \o << x, New("z", "Bias1Loop"), Quiet("z"), Reg("z", "s"), Pts(Points(2, 9)) >> \o Everyone("x")
      still(h) == << [op |-> "clear", h |-> h], [op |-> "nop"], Grid("oB1Loop", "x"), RunAs("B1Loop", ab, <<>>) >>
  IN Beh("clear" \o Txt(i), head \o RunSome(i, ab) \o (IF i % 2 = 0 THEN << Again >> \o head ELSE <<>>)
        \o SpoilAll(i) \o still(Who(i + 1)) \o RunSome(i, ab)
        \o << Verb("z", "quiet") >> \o Spoil(i) \o Tiny("oA1Loop") \o RunAll(ab, <<>>) \o << Verb(Who(i), At(<<"debug", "quiet">>, i)), [op |-> "drop", hs |-> <<"s", "k", "p">>], [op |-> "clear", h |-> "oB2Loop"] >> \o RunSome(i, ab)
        \o << Verb("oA1Loop", "quiet") >> \o SpoilAll(i + 1) \o << [op |-> "clear", h |-> "oA2Loop"] >> \o RunSome(i + 2, ab))
(* a group reset: the settings of the group are the defaults, the others stay                   *)
GroupBeh(j, i) ==
  LET g == SetSeq(GroupNames \ {"all_pklin"})[j]
      ab == At(FieldPairs, i)
      x == << D("0.21") >>
      start == Take(Begin, Setting(Table("coarse"), x) \o Everyone("x") \o (IF i % 2 = 0 THEN Tiny("z") \o Others("z") ELSE Tiny("z") \o Spoil(i) \o Tiny("z")) \o RunAll(ab, <<>>) \o << Reset(Who(i), g) >>)
      done == Take([start EXCEPT !.runs = <<>>], RunSome(IF g \in {"A_2loop_q", "all_mu"} THEN 1 ELSE 0, ab))
  IN Beh("reset " \o g \o Txt(i), done.ops \o Repeats(done.runs, 7))
(* the defaults themselves                                                                      *)
AtDefault(c, cols, i) ==
  Beh("defaults " \o c \o Txt(i), Setting(Table("coarse"), << D("0.21") >>) \o << New("o" \o c, c), Quiet("o" \o c), Grid("o" \o c, "x"), GoCls("o" \o c, c, "delta", "theta", 1, cols) >>)
SuiteC05 == Tup([i \in 1 .. Pick(12, 60) |-> ClearBeh(i)]) \o FlatOver(Upto(7), LAMBDA j : Tup([i \in 1 .. Pick(2, 8) |-> GroupBeh(j, i)]))
            \o << AtDefault("Spectrum1Loop", NewRows, 1), AtDefault("B1Loop", NewRows, 1), AtDefault("A1Loop", <<"pk_lin", "sigmad2">>, 1), AtDefault("Bias1Loop", <<"pk_lin", "sigmad2">>, 1),
                  AtDefault("B2Loop", <<"pk_lin", "sigmad2">>, 1), AtDefault("A2Loop", <<"pk_lin", "sigmad2">>, 1), AtDefault("Spectrum2Loop", <<"pk_lin", "sigmad2", "gamma1a_1loop", "pk_gamma2_tree_tree", "pk_gamma3_tree">>, 1) >>
            \o (IF Thorough THEN << AtDefault("Bias1Loop", NewRows, 2), AtDefault("A1Loop", NewRows, 2), AtDefault("Spectrum2Loop", <<"gamma1a_2loop">>, 2), AtDefault("Spectrum2Loop", <<"gamma1b_2loop">>, 3) >> ELSE <<>>)

(* ---- C16 ------------------------------------------------------------------------------------ *)
OtherLevels == <<"nonsense", "debugging", "infos", "quieter", "deb", "inf", "qui", "", "Debug", "QUIET">>
Levels == <<"quiet", "info", "debug", "quiet", "debug", "info">> \o OtherLevels
Shadow(st, z) == LET h == PickOf(Ids, z, 50)  cls == PickOf(Classes, z, 51) IN << New(h, cls), Arr("x" \o h, Xs(z)), Grid(h, "x" \o h) >>
NoQuiet(ops) == SelectSeq(ops, LAMBDA op : op.op # "verb")
OwnPk(st, z) == LET h == Someone(st, z)  f == <<"delta", "theta">> IN
                << Arr("y", Xs(z)), [op |-> "cpk", h |-> h, k |-> "y", a |-> PickOf(f, z, 31), b |-> PickOf(f, z, 32), nt |-> 2] >>
Extras(st, z) ==
  IF NonEmpty(st) = <<>> THEN Shadow(st, z) ELSE
  LET h == PickOf(NonEmpty(st), z, 120)  cls == st.obj[h].cls IN
  CASE Chance(D("0.3"), z, 121) -> << [op |-> "nodes", h |-> h, n |-> 5, lo |-> Flt(-1), hi |-> Flt(1)] >>
    [] Chance(D("0.4"), z, 122) /\ cls # "Bias1Loop" -> << [op |-> "pk", h |-> h] >>
    [] Chance(D("0.4"), z, 123) -> << [op |-> "nan0", h |-> h] >>
    [] OTHER -> << [op |-> "has", h |-> h, c |-> "pk"], [op |-> "iter", h |-> h] >>
VerbChoice(st, z) ==
  LET u == U(z * 61 + 1) IN
  CASE u < D("0.30") -> << Verb(Someone(st, z), PickOf(Levels, z, 130)) >>
    [] u < D("0.55") -> IF NonEmpty(st) = <<>> THEN Shadow(st, z) ELSE RunOne(st, z)
    [] u < D("0.65") -> Shadow(st, z)
    [] u < D("0.70") -> Regs(st, z)
    [] u < D("0.75") -> << RandSet(Someone(st, z), z) >>
    [] u < D("0.80") -> Lookups(st, z)
    [] u < D("0.84") -> NoQuiet(Failed(st, z))
    [] u < D("0.89") -> IF Grids(st) = <<>> THEN Shadow(st, z) ELSE Derived(st, z)
    [] u < D("0.93") -> Extras(st, z)
    [] u < D("0.95") -> << [op |-> "clear", h |-> Someone(st, z)] >> \o Tiny(Someone(st, z + 1))
    [] OTHER -> OwnPk(st, z)
Loud(i) == LET w == Walk(HistStart(i), VerbChoice, 30, 2003 * i)  e == Take(w, RunOne(w.st, 5 + i)) IN Beh("verbosity " \o Txt(i), e.ops \o Repeats(e.runs, 4))
(* every level in force for every calculation and every kind of call                              *)
LevelBeh(c, i) ==
  LET lv == At(<<"quiet", "debug", "info", "loud">>, i)
      all(h) == << Grid(h, "x"), GoCls(h, c, "delta", "theta", 2, <<>>), Find(h, "x", "lin"), Sig(h, "x", D("0.5")), SetN(h, "all_mu", 4), SetI(h, "gamma1_1loop_q", At(OtherModes, i)), Reg(h, "s"), GoCls(h, c, "what", "theta", 2, <<>>),
                [op |-> "nodes", h |-> h, n |-> 4, lo |-> Flt(0), hi |-> Flt(1)], [op |-> "cpk", h |-> h, k |-> "x", a |-> "delta", b |-> "theta", nt |-> 2] >>
      low == [op |-> "copy", h |-> "o", o |-> "w"]
  IN Beh("level " \o lv \o " " \o c \o Txt(i), << New("o", c), Quiet("o") >> \o Tiny("o") \o TableOps(Table("coarse"), "") \o << Pts(Points(2, 9)), Arr("x", SubSeq(Ks(Table("coarse")), 1, 5)), Reg("o", "s") >> \o all("o")
       \o << Verb("o", lv) >> \o all("o") \o << New("n", c), Verb("n", At(OtherLevels, 4 * Len(c) + i)) >> \o all("n") \o << low, [op |-> "deep", h |-> "o", o |-> "w2"], [op |-> "sl", h |-> "o", o |-> "w3", ix |-> [k |-> "slice", v |-> <<0, 2, None>>]] >> \o all("o")
       \o << Verb("n", "info") >> \o all("o") \o << Verb("w2", "debug") >> \o all("n") \o << Verb("o", "quiet"), New("n2", c) >> \o all("n2") \o << [op |-> "clear", h |-> "n"] >> \o Tiny("n") \o all("o"))
SuiteC16 == Tup([i \in 1 .. Pick(60, 600) |-> Loud(i)]) \o FlatOver(Classes, LAMBDA c : Tup([i \in 1 .. 4 |-> LevelBeh(c, i)]))
=============================================================================
