------------------------------ MODULE SuiteObj ------------------------------
(* Behaviours for what runs write (C17), containers (C18), padding (C19) and   *)
(* memory (C25).                                                                *)
EXTENDS SuiteSet
LOCAL INSTANCE TLC

(* ---- C17: several objects of a class ------------------------------------------------- *)
Three17(i) == << At(Classes, i), At(Classes, i), At(Classes, i + 1 + (i \div 7)) >>
Make17(st, z, i) ==
  LET h == PickOf(Ids, z, 50)  cls == PickOf(Three17(i), z, 51)
      x == "x" \o PickOf(<<"1", "2">>, z, 52)
      lay == PickOf(<<"c", "strided", "rev", "ro", "be", "off", "list", "2d", "f2">>, z, 53)
  IN << New(h, cls), Quiet(h), ArrAs(x, Xs(z), lay), Grid(h, x) >> \o (IF Chance(D("0.3"), z, 55) /\ lay \notin {"ro", "list"} THEN << PokeArr(x, D("0.8")) >> ELSE <<>>) \o (IF Chance(D("0.5"), z, 54) THEN << [op |-> "guard", h |-> h] >> ELSE <<>>)
Poke(st, z) ==       \* the user writes into a column, or gives another one
  IF NonEmpty(st) = <<>> THEN <<>> ELSE
  LET h == PickOf(NonEmpty(st), z, 140)  n == Rows(Col(st, h, "k"))
      c == PickOf(SelectSeq(Fields(st.obj[h].cls), LAMBDA c : c # "k" /\ NComp(st.obj[h].cls, c) = 0), z, 141)
      v == "v" \o PickOf(<<"1", "2">>, z, 142)
      wide == PickOf(<<"c", "strided", "rev", "off">>, z, 143)
  IN CASE Chance(D("0.3"), z, 144) -> << [op |-> "sl", h |-> h, o |-> "o5", ix |-> [k |-> "slice", v |-> <<0, 1, None>>]] >>
       [] Chance(D("0.5"), z, 145) -> << ArrAs(v, Wild(n, z, "50"), wide), [op |-> "setc", h |-> h, c |-> c, v |-> v] >>
       [] Chance(D("0.5"), z, 146) -> << [op |-> "guard", h |-> h] >>
       [] OTHER -> << Ask("resc", h, Arg(PickOf(<<D("0.5"), Flt(1), D("1.5")>>, z, 147))) >>
Own17(st, z, i) ==
  LET u == U(z * 61 + 1) IN
  CASE u < D("0.42") -> RunOne(st, z)
    [] u < D("0.60") -> Make17(st, z, i)
    [] u < D("0.70") -> Regs(st, z)
    [] u < D("0.78") -> Forget(st, z)
    [] u < D("0.90") -> Poke(st, z)
    [] u < D("0.93") -> IF Grids(st) = <<>> THEN Make17(st, z, i) ELSE Derived(st, z)
    [] u < D("0.97") -> Reuse(st, z)
    [] OTHER -> OwnPk(st, z)
Owner(i) == LET w == Walk(HistStart(i), LAMBDA st, z : Own17(st, z, i), 30, 3001 * i)  e == Take(w, RunOne(w.st, 5 + i)) IN Beh("owner " \o Txt(i), e.ops \o Repeats(e.runs, 3))
(* two objects of a class, run one after the other, in each order                             *)
TwoObj(c, i) ==
  LET run(h) == GoCls(h, c, "delta", "theta", 3, <<>>)
      xs == << Arr("x", << D("2e-7") >> \o SubSeq(Ks(Table("cdm")), 1, 4) \o << D("4e-5"), Flt(900), D("0.1") >>), Arr("y", SubSeq(Ks(Table("cdm")), 5, 11) \o << Flt(40), D("7e-5"), D("0.2"), D("0.2"), Flt(7) >>) >>
      both == << New("o", c), Quiet("o"), New("w", c) >>
      grids == IF i % 2 = 0 THEN << Grid("o", "x"), Grid("w", "y") >> ELSE << Grid("w", "y"), Grid("o", "x") >>
  IN Beh("two objects " \o c \o Txt(i), both \o Tiny("o") \o TableOps(Table("irr"), "") \o << Reg("w", "s"), Pts(Points(2, i)) >> \o xs \o grids
       \o << OpH("guard", "o"), OpH("guard", "w"), run("o"), run("w"), run("o") >> \o (IF i > 1 THEN << Grid("o", "y"), run("w"), run("o"), [op |-> "copy", h |-> "o", o |-> "z"], run("z"), [op |-> "deep", h |-> "w", o |-> "z"], run("z"), run("w"),
             Drop(<<"w">>), [op |-> "scrib", ns |-> <<7, 35, 63, 4, 20, 36>>, v |-> Flt(-7)], run("o"), run("z") >> ELSE <<>>))
(* every history of some length of runs, copies, slices and edits of three objects sharing columns         *)
Letters17(c, i) ==
  LET go(h) == GoCls(h, c, "delta", "theta", 1 + (i % 3), <<>>)
      col == IF IsSpectrum(c) THEN "pk_lin" ELSE IF c = "Bias1Loop" THEN "sigmad2" ELSE "pk"
  IN << << go("o") >>, << go("w") >>, << go("z") >>, << [op |-> "copy", h |-> "o", o |-> "z"] >>, << [op |-> "deep", h |-> "w", o |-> "z"] >>,
        << [op |-> "sl", h |-> "o", o |-> "z", ix |-> [k |-> "slice", v |-> <<1, None, None>>]] >>, << [op |-> "sl", h |-> "w", o |-> "z", ix |-> [k |-> "slice", v |-> <<None, None, 2>>]] >>,
        << Grid("o", "x") >>, << [op |-> "setv", h |-> "z", ix |-> [k |-> "slice", v |-> <<0, 1, None>>], v |-> D("0.2")] >>, << [op |-> "nan0", h |-> "o"] >> >>
Everything17(c, i, n) ==
  LET ta == Table("irr")
      start == << New("o", c), Quiet("o"), New("w", c) >> \o Tiny("o") \o << Arr("ka", ta[1]), Arr("pa", ta[2]), RegK("o", "ka", "pa"), Pts(Points(2, i)),
                  Arr("x", SubSeq(Ks(Table("cdm")), 1, 3)), Arr("y", SubSeq(Ks(Table("cdm")), 5, 8)), Grid("o", "x"), Grid("w", "y"), [op |-> "copy", h |-> "o", o |-> "z"] >>
  IN Beh("every history of objects " \o c \o Txt(i), start \o Spelled(Letters17(c, i), n))
SuiteC17 == Tup([j \in 1 .. Len(Classes) |-> Everything17(Classes[j], j, Pick(3, 4))]) \o Tup([i \in 1 .. Pick(90, 900) |-> Owner(i)]) \o FlatOver(Classes, LAMBDA c : Tup([i \in 1 .. 3 |-> TwoObj(c, i)]))

(* ---- C18: every sequence of container operations ---------------------------------------------- *)
Slices == << <<None, None, 1>>, <<1, None, None>>, <<None, -1, 2>>, <<None, None, -1>>, <<2, 2, None>> >>
CutOps(h, o) == Map(LAMBDA v : [op |-> "sl", h |-> h, o |-> o, ix |-> [k |-> "slice", v |-> v]], Slices)
           \o << [op |-> "sl", h |-> h, o |-> o, ix |-> [k |-> "list", v |-> <<2, 0, -1>>]], [op |-> "sl", h |-> h, o |-> o, ix |-> [k |-> "mask", v |-> <<1, 0, 1, 1>>]] >>
Puts(h) == << [op |-> "setv", h |-> h, ix |-> [k |-> "slice", v |-> <<1, 3, None>>], v |-> D("5.5")], [op |-> "setv", h |-> h, ix |-> [k |-> "list", v |-> <<0, -1>>], v |-> D("-2")],
            [op |-> "setv", h |-> h, ix |-> [k |-> "int", v |-> 2], v |-> D("NaN")], [op |-> "setv", h |-> h, ix |-> [k |-> "int", v |-> -1], v |-> D("1.25")], [op |-> "setv", h |-> h, ix |-> [k |-> "mask", v |-> <<0, 1, 1, 0>>], v |-> D("0.75")],
            [op |-> "setv", h |-> h, ix |-> [k |-> "slice", v |-> <<None, None, -2>>], v |-> D("6")] >>
Some18(st, h, w) ==
  LET n == IF "k" \in Cols(st, h) THEN Rows(Col(st, h, "k")) ELSE 0
      c == IF st.obj[h].cls \in {"SpectrumLin", "A1Loop"} THEN "pk" ELSE "pk_lin"
      v == IF st.obj[h].cls \in LinClasses THEN "nv" ELSE "nw"
  IN << [op |-> "copy", h |-> h, o |-> w], [op |-> "deep", h |-> h, o |-> w] >> \o SelectSeq(CutOps(h, w), LAMBDA x : n = 4 \/ x.ix.k = "slice")
     \o (IF n = 4 THEN SubSeq(Puts(h), 1, 2) ELSE << Puts(h)[1] >>) \o << [op |-> "pop", h |-> h, c |-> c], [op |-> "setc", h |-> h, c |-> c, v |-> v], [op |-> "setc", h |-> h, c |-> "sigmad2", v |-> v], [op |-> "nan0", h |-> h] >>
     \o (IF Cols(st, h) \subseteq {Fields(st.obj[h].cls)[i] : i \in 1 .. Len(Fields(st.obj[h].cls))} THEN << Ask("resc", h, Arg(D("0.5"))) >> ELSE <<>>)
Enabled18(st) == Some18(st, "o", "w") \o (IF "w" \in DOMAIN st.obj THEN Some18(st, "w", "v") ELSE <<>>)
Look(h, cls) == << [op |-> "has", h |-> h, c |-> "pk"], [op |-> "has", h |-> h, c |-> "sigmad2"], OpH("iter", h), OpH("fields", h), OpH("len", h), OpH("tolist", h), OpH("asd", h), [op |-> "asd", h |-> h, f |-> <<"pk">>], [op |-> "asd", h |-> h, f |-> <<>>],
              [op |-> "asd", h |-> h, f |-> <<"k", "nothing">>], [op |-> "get", h |-> h, c |-> "pk"], [op |-> "get", h |-> h, c |-> "sigmad2"], [op |-> "get", h |-> h, c |-> "nothing"], OpH("attrk", h), [op |-> "pop", h |-> h, c |-> "nothing"] >>
Obj18(cls) ==
  LET fresh == D("NaN") IN
  << Arr("a", <<D("0.1"), D("0.2"), D("0.4"), D("0.8")>>), Arr("b", <<Flt(7), fresh, Flt(5), Flt(-3)>>), Arr("nv", <<Flt(11), D("Infinity"), fresh, D("-Infinity")>>), ArrAs("nw", Tup([j \in 1 .. 20 |-> IF j = 7 THEN fresh ELSE IF j = 9 THEN D("Infinity") ELSE Flt(j)]), "w5") >>
  \o (IF cls \in LinClasses THEN << [kw |-> FALSE, cls |-> cls] @@ Lin("o", "a", "b") >>
      ELSE << New("o", cls), Quiet("o"), Grid("o", "a"), [op |-> "setv", h |-> "o", ix |-> [k |-> "slice", v |-> <<1, 2, None>>], v |-> D("3.5")], [op |-> "setc", h |-> "o", c |-> "pk", v |-> "nw"] >>)
RECURSIVE Tree(_, _, _)
Tree(st, ops, depth) == IF depth = 0 THEN << ops >> ELSE FlatOver(Enabled18(st), LAMBDA op : Tree(After(st, op), Append(ops, op), depth - 1))
Start18(cls) == Take(Begin, Obj18(cls))
Fresh18(cls) == << Drop(<<"o", "w", "v", "a", "b", "nv", "nw">>) >> \o Obj18(cls)
Chains(cls, d, look) ==      \* the sequences of length d, all those with the same beginning in one behaviour
  LET s == Start18(cls)
      one(first) == LET seqs == Tree(After(s.st, first), <<first>>, d - 1)
                    IN Beh("container " \o cls \o " " \o JText(first), FlatOver(seqs, LAMBDA q : Fresh18(cls) \o q
                          \o (IF look THEN Look("o", cls) \o (IF \E i \in 1 .. Len(q) : "o" \in DOMAIN q[i] THEN Look("w", cls) ELSE <<>>) ELSE << OpH("iter", "o"), OpH("len", "o") >>)))
  IN Map(one, Enabled18(s.st))
(* long random sequences over four objects                                                             *)
Names18 == <<"o", "w", "v", "z">>
Rand18(cls, i) ==
  LET live(st) == SelectSeq(Names18, LAMBDA h : h \in DOMAIN st.obj)
      pick(st, z) == LET h == PickOf(live(st), z, 1)  s == Some18(st, h, PickOf(Names18, z, 2)) \o (IF "k" \in Cols(st, h) /\ Rows(Col(st, h, "k")) = 4 THEN SubSeq(Puts(h), 3, Len(Puts(h))) ELSE <<>>) IN << PickOf(s, z, 3) >>
      w == Walk(Fresh18(cls), pick, 14, 7001 * i)
  IN Beh("container walk " \o cls \o Txt(i), w.ops \o FlatOver(live(w.st), LAMBDA h : Look(h, cls)))
(* the run's columns and their slices                                                                     *)
RunSl(c, i) ==
  LET t == Table("coarse") IN
  Beh("slices of a run " \o c \o Txt(i), Base(t, c) \o Tiny("o") \o << Pts(Points(2, i)), Arr("x", SubSeq(Ks(t), 1, 4)), Grid("o", "x"), GoCls("o", c, "delta", "theta", 2, <<>>) >>
      \o FlatOver(CutOps("o", "w"), LAMBDA op : << op, OpH("iter", "w"), OpH("len", "w"), OpH("tolist", "w"), [op |-> "deep", h |-> "w", o |-> "v"] >> \o (IF c = "Bias1Loop" THEN <<>> ELSE << OpH("pk", "w") >>)
             \o << [op |-> "setv", h |-> "w", ix |-> [k |-> "slice", v |-> <<0, 1, None>>], v |-> D("0.3")], OpH("nan0", "w"), Ask("resc", "w", Arg(D("0.9"))), [op |-> "copy", h |-> "w", o |-> "z"], [op |-> "pop", h |-> "z", c |-> "sigmad2"], OpH("fields", "w"), OpH("fields", "o") >>))
SuiteC18 == FlatOver(<<"SpectrumLin", "A1Loop">>, LAMBDA c : Chains(c, 2, TRUE) \o (IF Thorough THEN Chains(c, 3, FALSE) ELSE <<>>))
            \o FlatOver(<<"SpectrumNoWiggle", "Spectrum1Loop">>, LAMBDA c : Chains(c, 2, TRUE)) \o FlatOver(Classes, LAMBDA c : << RunSl(c, 1) >>)
            \o FlatOver(<<"SpectrumLin", "SpectrumNoWiggle", "A1Loop", "Spectrum1Loop", "Bias1Loop">>, LAMBDA c : Tup([i \in 1 .. Pick(12, 300) |-> Rand18(c, i)]))

(* ---- C19 -------------------------------------------------------------------------------------------- *)
PadKs(old) == LET a == old[1]  b == old[Len(old)] IN
  << <<a / 2, a / 3>>, <<b * 2, b * 3, b * 5>>, <<a / 2, b * 2>>, old, <<a, b>>, <<b * 3, a / 5, b * 2, a / 2, (a + b) / 2, a * D("0.999999"), b * D("1.000001")>>, <<(a + b) / 2>>, <<a / 4>>, <<b * 4>>,
     <<a / 9, a / 7, a / 5, a / 3, a, b>>, <<a, b, b * 2, b * 4>> >>
PadArgs(lib) == << Nul, [cv |-> D("-3.5")], [mode |-> "edge"], [mode |-> "constant", cv |-> Flt(1)] >> \o (IF lib THEN << [ipl |-> "lin"], [ipl |-> "poly", mode |-> "edge"] >> ELSE <<>>)
PadOp(x, a) == [op |-> "pad", h |-> "w", k |-> x] @@ a
PadBeh(cls, i) ==
  LET t == Table("coarse")
      lin == cls \in LinClasses
      x == At(<< SortSeqNum(SubSeq(Ks(t), 1, 5)), <<D("0.1")>>, SortSeqNum(SubSeq(Ks(t), 2, 3)) >>, i)
      ks == PadKs(x)
      lay(j) == At(<<"c", "strided", "list", "rev", "off">>, i + j)
      kv(j) == LET n == Len(ks[j]) IN IF lin /\ j % 2 = 0 THEN [kv |-> [pk |-> Wild(n, 7 * j, "90")]] ELSE Nul
      one(j) == LET nm == "e" \o Txt(j) IN << ArrAs(nm, ks[j], lay(j)) >> \o FlatOver(PadArgs(~lin), LAMBDA a : << [op |-> "deep", h |-> "o", o |-> "w"], PadOp(nm, kv(j) @@ a), OpH("len", "w") >>)
      \* again, and a run on the longer grid
      more == IF lin THEN <<>> ELSE << [op |-> "deep", h |-> "o", o |-> "w"], PadOp("e6", Nul), GoCls("w", cls, "theta", "delta", 2, <<>>), PadOp("e10", [cv |-> Flt(4)]), Quiet("w"), GoCls("o", cls, "theta", "delta", 1, <<>>), GoCls("w", cls, "theta", "delta", 2, <<>>) >>
      twice == << [op |-> "deep", h |-> "o", o |-> "w"], PadOp("e1", Nul), PadOp("e2", [cv |-> D("2")]), [op |-> "copy", h |-> "w", o |-> "z"], PadOp("e10", [mode |-> "edge"]), OpH("iter", "z"),
                  [op |-> "sl", h |-> "w", o |-> "w", ix |-> [k |-> "slice", v |-> <<1, -1, None>>]], PadOp("e11", Nul) >>
  IN Beh("pad " \o cls \o Txt(i), (IF lin THEN << New("o", cls), Arr("ox", x), Arr("oy", Wild(Len(x), i, "40")), [op |-> "setc", h |-> "o", c |-> "k", v |-> "ox"], [op |-> "setc", h |-> "o", c |-> "pk", v |-> "oy"] >>
       ELSE Base(t, cls) \o Tiny("o") \o << Pts(Points(2, i)), Arr("x", x), Grid("o", "x"), GoCls("o", cls, "delta", "theta", 2, <<>>) >>) \o FlatOver(Upto(Len(ks)), one) \o twice \o more)
SuiteC19 == FlatOver(<<"SpectrumLin", "SpectrumNoWiggle">> \o Classes, LAMBDA c : Tup([i \in 1 .. Pick(3, 6) |-> PadBeh(c, i)]))

(* ---- C25 --------------------------------------------------------------------------------------------- *)
Cycle(c, i) ==
  LET ab == At(FieldPairs, i)
      nt == At(<<1, 4, 8, 3>>, i)
      run(h) == GoCls(h, c, ab[1], ab[2], nt, <<>>)
  IN << New("w", c), Grid("w", "x"), run("w"), Drop(<<"w">>), SetN("o", "all_q", At(<<9, 7, 11>>, i)), SetN("o", "A_2loop_I_q", 6), run("o"), Find("o", "x", At(<<"poly", "lin">>, i)), Sig("o", "x", D("0.5")),
        [op |-> "nodes", h |-> "o", n |-> 9, lo |-> Flt(0), hi |-> Flt(1)], [op |-> "cpk", h |-> "o", k |-> "x", a |-> ab[1], b |-> ab[2], nt |-> nt], Reg("o", "s"), RegK("o", "k", "p"), SetI("o", "all_pklin", "lin"), Cut("o", "all", D("0.3")), SetN("o", "all_q", 6), run("o"), OpH("clear", "o"), Quiet("o") >>
     \o Tiny("o") \o << [op |-> "ipoly", h |-> "o", tx |-> "tx", ty |-> "ty", x |-> D("1.5")], Verb("o", "info"), run("o"), Verb("o", "debug"), run("o"), Quiet("o"), Op("mark") >>
MemBeh(c, i) ==
  LET t == Table(At(<<"coarse", "irr">>, i)) IN
  Beh("cycles " \o c \o Txt(i), Base(t, c) \o Tiny("o") \o TableOps(t, "") \o << Pts(Points(2, i)), Arr("x", SubSeq(Ks(t), 1, 5)), Arr("tx", <<Flt(1), Flt(2), Flt(4)>>), Arr("ty", <<Flt(3), Flt(5), Flt(4)>>), Grid("o", "x") >> \o FlatOver(Upto(Pick(6, 24)), LAMBDA j : Cycle(c, i)))
(* the corners: few nodes, one row for many threads, far wavenumbers, the shortest table, one or both of the spectra of B given *)
CornerBeh(c, i) ==
  LET t == Table("coarse")  u == Table(At(<<"t3", "t4">>, i))  ab == At(FieldPairs, i + 1)
      run(nt) == GoCls("o", c, ab[1], ab[2], nt, <<>>)
      cb(r) == [op |-> "cb", h |-> "o", k |-> "y", nt |-> 3, g |-> "k"] @@ r
      (* no wavenumber at all, at every level *)
      nothing == << Grid("o", "none"), run(2), Verb("o", "info"), Grid("o", "none"), run(3), Verb("o", "debug"), Grid("o", "none"), run(1), Quiet("o"), run(2), Grid("o", "y"), run(2) >>
      cycle == << Reg("o", "s"), Grid("o", "y"), run(8), SetN("o", "all_mu", 1), SetN("o", "gamma2_tree_mu", 1), run(3), SetI("o", "all_mu", "lin"), SetI("o", "all_q", "lin"), run(1) >> \o Tiny("o")
               \o << Grid("o", "far"), run(5), SetNR("o", "gamma1_1loop_q", 4, D("0.1"), D("0.1")), SetN("o", "gamma1_1loop_q", 1), run(2), Find("o", "far", "lin"), Find("o", "far", "poly"), Sig("o", "far", D("2")) >> \o Tiny("o")
               \o << RegK("o", "k3", "p3"), run(2), Find("o", "far", "poly"), Find("o", "k3", "poly"), Find("o", "k3", "lin"), cb([dt |-> "p"] @@ (IF i = 1 \/ c \in {"B1Loop", "B2Loop"} THEN [tt |-> "p"] ELSE <<>>)) >>
               \o Map(LAMBDA n : [op |-> "nodes", h |-> "o", n |-> n, lo |-> Flt(0), hi |-> Flt(1)], <<1, 2, 3, 40>>)
               \o Map(LAMBDA n : [op |-> "ipoly", h |-> "o", tx |-> "tx" \o Txt(n), ty |-> "ty" \o Txt(n), x |-> D("1.5")], <<1, 2, 4, 6, 9, 12>>) \o << OpH("clear", "o"), Quiet("o") >> \o Tiny("o") \o nothing \o << Op("mark") >>
  IN Beh("cycles of corners " \o c \o Txt(i), Base(t, c) \o Tiny("o") \o TableOps(u, "3") \o << Pts(Points(2, i)), Arr("y", <<Ks(t)[2]>>), Arr("far", <<D("1e-5"), D("3e4")>>), Arr("none", <<>>) >>
       \o FlatOver(<<1, 2, 4, 6, 9, 12>>, LAMBDA n : << Arr("tx" \o Txt(n), Tup([j \in 1 .. n |-> Flt(j) / 4])), Arr("ty" \o Txt(n), Tup([j \in 1 .. n |-> U(j + n)])) >>) \o FlatOver(Upto(4), LAMBDA j : cycle))
(* all calculations in one process, with as many threads each time                                            *)
MixBeh(i) ==
  LET t == Table("coarse")  nt == At(<<1, 2, 8, 5>>, i)
      go(c) == << GoCls(ObjName(c), c, "delta", "theta", nt, <<>>) >>
      round(j) == FlatOver(Classes, go) \o << [op |-> "cpk", h |-> "z", k |-> "x", a |-> "delta", b |-> "theta", nt |-> nt], Op("mark") >>
  IN Beh("cycles of all" \o Txt(i), Setting(t, SubSeq(Ks(t), 1, 6)) \o Tiny("z") \o Everyone("x") \o FlatOver(Upto(Pick(6, 30)), round))
SuiteC25 == FlatOver(Classes, LAMBDA c : Tup([i \in 1 .. Pick(4, 12) |-> MemBeh(c, i)]) \o Tup([i \in 1 .. 2 |-> CornerBeh(c, i)])) \o Tup([i \in 1 .. 4 |-> MixBeh(i)])
            \o Tup([i \in 1 .. Pick(20, 200) |-> Owner(2000 + i)]) \o Tup([i \in 1 .. Pick(10, 100) |-> Loud(2000 + i)])
=============================================================================
