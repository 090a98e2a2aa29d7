------------------------------ MODULE SuiteRel ------------------------------
(* Behaviours for the relations between runs: threads (C07), grid (C08),      *)
(* scaling (C09) and field exchange (C10).  The first row observed for a key   *)
(* is what all later rows of that key are compared with.                       *)
EXTENDS SuiteTwo
LOCAL INSTANCE TLC

Classes == <<"Spectrum1Loop", "Spectrum2Loop", "Bias1Loop", "A1Loop", "A2Loop", "B1Loop", "B2Loop">>
(* settings large enough to keep several threads busy, small enough to repeat        *)
Medium(h, cls) ==
  CASE cls = "Spectrum2Loop" -> << SetN(h, "gamma1_1loop_q", 60), SetN(h, "gamma1_2loop_q", 40), SetN(h, "gamma2_tree_q", 14), SetN(h, "gamma2_1loop_q", 10), SetN(h, "gamma2_tree_mu", 4) >>
    [] cls = "A2Loop" -> << SetN(h, "gamma1_1loop_q", 24), SetN(h, "A_2loop_I_q", 10), SetN(h, "A_2loop_I_mu", 4), SetN(h, "gamma2_1loop_q", 8) >>
    [] cls = "B2Loop" -> << SetN(h, "gamma1_1loop_q", 40), SetN(h, "gamma2_tree_q", 20), SetN(h, "gamma2_tree_mu", 5), SetN(h, "B_q", 40), SetN(h, "B_mu", 6) >>
    [] OTHER -> << SetN(h, "all_q", 90), SetN(h, "all_mu", 8) >>
Ks(t) == << D("0.011"), D("0.05"), D("0.12"), D("0.33"), D("0.8"), D("1.9"), t[1][1], t[1][3], t[1][Len(t[1])], t[1][1] / 5, t[1][Len(t[1])] * 3, D("0.0099"), D("0.0301"), D("0.47") >>
Some(s, m) == Tup([j \in 1 .. m |-> At(Scramble(s), j)])

(* ---- C07 ------------------------------------------------------------------------ *)
ThreadCounts == <<0, 2, 3, 8, 5, 1, 16, 7, 33, 4>>
ThreadBeh(cls, i) ==
  LET t == Table(At(<<"cdm", "irr", "dip">>, i))
      rows == At(<<1, 2, 3, 14, 7, 29>>, i)
      x == Tup([j \in 1 .. rows |-> IF j \leq 14 THEN At(Ks(t), j) ELSE D("0.01") * Exp(U(j) * 5)])
      ab == At(FieldPairs, i)
      one(nt) == << [op |-> "yield", p |-> At(<<0, 30, 60>>, nt)], Grid("o", "x"), GoCls("o", cls, ab[1], ab[2], nt, <<>>), GoCls("o", cls, ab[1], ab[2], nt, <<>>) >>
  IN Beh("threads " \o cls \o Txt(i), Base(t, cls) \o Medium("o", cls) \o << Pts(Points(6, i)), Arr("x", x), Grid("o", "x"), GoCls("o", cls, ab[1], ab[2], 1, <<>>) >>
       \o FlatOver(ThreadCounts, one)
       \* fewer rows, then more, then in a process that never used one thread
       \o << Arr("y", SubSeq(x, 1, (rows + 1) \div 2)), Grid("o", "y"), GoCls("o", cls, ab[1], ab[2], 6, <<>>), Grid("o", "x"), GoCls("o", cls, ab[1], ab[2], 0, <<>>),
             Again >> \o Base(t, cls) \o Medium("o", cls) \o << Pts(Points(6, i)), Arr("x", x), Grid("o", "x"), GoCls("o", cls, ab[1], ab[2], 12, <<>>) >>)
(* the library's own assembled spectrum with several threads                          *)
CThread(i) ==
  LET t == Table("cdm")  ab == At(FieldPairs, i)
      ask(nt) == [op |-> "cpk", h |-> "o", k |-> "x", a |-> ab[1], b |-> ab[2], nt |-> nt] IN
  Beh("threads assembled" \o Txt(i), Base(t, "Spectrum1Loop") \o Medium("o", "Spectrum1Loop") \o << Arr("x", Ks(t)), Grid("o", "x"), GoCls("o", "Spectrum1Loop", ab[1], ab[2], 1, <<>>) >> \o Map(ask, ThreadCounts))
(* to be run with all accesses to memory reported: every class, few rows for each thread, all kinds of rows *)
ShareBeh(cls, i) ==
  LET t == Table(At(<<"cdm", "dip", "irr", "coarse">>, i))
      ab == At(FieldPairs, i)  x == Thin(Scramble(Ks(t)), At(<<9, 14>>, i))
      one(nt) == << Grid("o", "x"), GoCls("o", cls, ab[1], ab[2], nt, <<>>) >>
  IN Beh("shared " \o cls \o Txt(i), Base(t, cls)
       \o << SetN("o", "all_q", 12), SetN("o", "all_mu", 3), SetN("o", "gamma2_1loop_q", 4), SetI("o", "all_q", At(<<"poly", "lin">>, i)) >> \o << Pts(Points(2, i)), Arr("x", x) >>
       \o FlatOver(At(<< <<2, 5>>, <<3, 2>> >>, i), one) \o << [op |-> "verb", h |-> "o", mode |-> At(<<"info", "debug">>, i)] >> \o one(4) \o << Quiet("o") >>
       \o (IF cls = "Spectrum1Loop" THEN << [op |-> "cpk", h |-> "o", k |-> "x", a |-> ab[1], b |-> ab[2], nt |-> 3] >> ELSE <<>>)
       \o (IF cls = "B1Loop" THEN << Arr("g", t[1]), Arr("d", t[2]), OwnB(3) @@ [g |-> "g", dt |-> "d", tt |-> "d"], OwnB(2) @@ [g |-> "g", td |-> "d", tt |-> "d"] >> ELSE <<>>))
(* rows that are equal to their neighbours, or in order, where two threads meet                                 *)
Runs(v, n) == Tup([j \in 1 .. n * Len(v) |-> v[1 + (j - 1) \div n]])
EqualRows(i) == At(<< Runs(<<D("0.1"), D("0.2"), D("0.3")>>, 4), Runs(<<D("0.1")>>, 9), Tup([j \in 1 .. 8 |-> D("0.05") * j]), Tup([j \in 1 .. 12 |-> At(<<D("0.1"), D("0.3")>>, j)]) >>, i)
EqualBeh(cls, i) ==
  LET t == Table("cdm")  ab == At(FieldPairs, i)
      one(nt) == << Grid("o", "x"), GoCls("o", cls, ab[1], ab[2], nt, <<>>) >>
  IN Beh("equal rows " \o cls \o Txt(i), Base(t, cls) \o << SetN("o", "all_q", 6), SetN("o", "all_mu", 3), SetN("o", "gamma2_1loop_q", 3) >> \o << Pts(Points(2, i)), Arr("x", EqualRows(i)), Grid("o", "x"), GoCls("o", cls, ab[1], ab[2], 1, <<>>) >> \o FlatOver(<<2, 5, 8>>, one))
SuiteShare == FlatOver(Classes, LAMBDA c : Tup([i \in 1 .. Pick(2, 8) |-> ShareBeh(c, i)]) \o Tup([i \in 1 .. Pick(2, 4) |-> EqualBeh(c, i)]))
SuiteC07 == FlatOver(Classes, LAMBDA c : Tup([i \in 1 .. Pick(6, 24) |-> ThreadBeh(c, i)])) \o Tup([i \in 1 .. 4 |-> CThread(i)]) \o FlatOver(Classes, LAMBDA c : Tup([i \in 1 .. 4 |-> EqualBeh(c, i)]))

(* ---- C08 ------------------------------------------------------------------------- *)
GridOf(v, j) == << Arr("x" \o Txt(j), v), Grid("o", "x" \o Txt(j)) >>
RowBeh(cls, i) ==
  LET t == Table(At(<<"cdm", "irr", "dip", "coarse">>, i))
      ks == Ks(t)  n == Len(ks)
      up == SortSeqNum(ks)
      ab == At(FieldPairs, i)
      lists == << ks, up, Reverse(up), <<ks[1], ks[1], ks[5], ks[1], ks[5]>>, SubSeq(ks, 2, 4), SubSeq(up, 1, n \div 2), SubSeq(up, (n \div 2) + 1, n),
                  Scramble(ks), <<t[1][1] / 900>> \o up \o <<t[1][Len(t[1])] * 40, t[1][Len(t[1])] * 500>>, <<up[n], up[1], up[n]>>, <<ks[4], ks[4] * (1 + D("1e-7")), ks[4]>> >>
               \o Tup([j \in 1 .. n |-> <<ks[j]>>])
      one(j) == GridOf(lists[j], j) \o << GoCls("o", cls, ab[1], ab[2], 1 + ((i + j) % 4), <<>>) >>
  IN Beh("rows " \o cls \o Txt(i), Base(t, cls) \o Medium("o", cls) \o << Pts(Points(2, i)) >> \o FlatOver(Upto(Len(lists)), one))
(* wavenumbers that differ by little: each alone, then together in several orders         *)
Gaps == << D("1e-2"), D("1e-3"), D("9e-5"), D("4e-5"), D("9e-6"), D("1e-6"), D("1e-8"), D("1e-11"), D("5e-16") >>
CloseBeh(cls, i) ==
  LET t == Table(At(<<"irr", "cdm", "dip", "coarse">>, i))
      k == At(<<D("0.12"), D("0.33"), D("0.05"), D("1.1")>>, i)
      near == << k >> \o Map(LAMBDA e : k * (1 + e), Gaps)
      n == Len(near)
      ab == At(FieldPairs, i)
      lists == Map(LAMBDA x : <<x>>, near) \o << near, Reverse(near), SubSeq(near, 1, 6) \o <<3 * k>> \o SubSeq(near, 4, n), <<k / 2>> \o Scramble(near) >>
               \o Flat(Tup([j \in 1 .. (n - 1) |-> << <<k, near[j + 1]>>, <<near[j + 1], k>> >>]))
      one(j) == GridOf(lists[j], j) \o << GoCls("o", cls, ab[1], ab[2], IF j \leq n + 2 THEN 1 ELSE 1 + (j % 3), <<>>) >>
  IN Beh("close rows " \o cls \o Txt(i), Base(t, cls) \o Medium("o", cls) \o << Pts(Points(2, i)) >> \o FlatOver(Upto(Len(lists)), one))
(* many rows: a few wavenumbers over and over                                              *)
Rounds(v, n) == Tup([j \in 1 .. n |-> At(v, 1 + (j * j + j \div 7))])
LongBeh(cls, i) ==
  LET t == Table(At(<<"cdm", "irr", "dip", "coarse">>, i))
      ks == <<D("0.12"), D("0.013"), D("0.7"), D("0.33")>>
      ab == At(FieldPairs, i)  n == At(<<331, 1031, 129, 517>>, i)
  IN Beh("many rows " \o cls \o Txt(i), Base(t, cls) \o Medium("o", cls) \o << Pts(Points(2, i)) >>
       \o GridOf(ks, 1) \o << GoCls("o", cls, ab[1], ab[2], 1, <<>>) >> \o GridOf(Rounds(ks, n), 2) \o << GoCls("o", cls, ab[1], ab[2], 1 + ((i + 2) % 7), <<>>) >>
       \o GridOf(ks, 3) \o << GoCls("o", cls, ab[1], ab[2], 2, <<>>) >>)
Least(h) == << SetN(h, "all_q", 7), SetN(h, "all_mu", 2), SetN(h, "gamma2_1loop_q", 4), SetN(h, "A_2loop_I_q", 4), SetN(h, "bias_1loop_q", 9), SetN(h, "A_1loop_q", 9) >>
HugeBeh(cls) ==
  LET t == Table("coarse")  ks == <<D("0.12"), D("0.013"), D("0.7"), D("0.33")>> IN
  Beh("thousands of rows " \o cls, Base(t, cls) \o Least("o") \o << Pts(Points(1, 1)) >> \o GridOf(ks, 1) \o << GoCls("o", cls, "delta", "theta", 1, <<>>) >>
      \o GridOf(Rounds(ks, 5003), 2) \o << GoCls("o", cls, "delta", "theta", 8, <<>>) >>)
SuiteC08 == Map(HugeBeh, Classes) \o FlatOver(Classes, LAMBDA c : Tup([i \in 1 .. Pick(2, 4) |-> LongBeh(c, i)])) \o FlatOver(Classes, LAMBDA c : Tup([i \in 1 .. Pick(3, 20) |-> RowBeh(c, i)]) \o Tup([i \in 1 .. Pick(2, 12) |-> CloseBeh(c, i)]))

(* ---- C09 -------------------------------------------------------------------------- *)
Scaled(t, m, l) == << VScale(Unit(l), t[1]), VScale(Unit(m - 3 * l), t[2]) >>
ScaleSet(cls, r, l) ==
  LET lo == r[1] * Unit(l)  hi == r[2] * Unit(l)  auto == r[1] \leq 0
      q(name, n) == IF auto THEN SetNR("o", name, n, Flt(-1), Flt(-1)) ELSE SetNR("o", name, n, lo, hi)
  IN << q("all_q", 12), SetN("o", "all_mu", 4) >>
ScaleBeh(cls, i) ==
  LET t == Table(At(<<"cdm", "dip", "irr", "plaw">>, i))
      r == At(<< <<D("0.01"), Flt(2)>>, <<Flt(-1), Flt(-1)>>, <<D("5e-3"), D("0.9")>> >>, i)
      ks == At(<<Ks(t), Some(Ks(t), 6)>>, i)
      ab == At(FieldPairs, i)
      pk(g) == IF cls = "Bias1Loop" THEN <<>> ELSE << [op |-> "pk", h |-> "o", D |-> g] >>
      two == cls \in {"A2Loop", "B2Loop"}
      one(z) == LET m == z[1]  l == z[2]  s == Txt(m) \o "_" \o Txt(l) IN
                TableOps(Scaled(t, m, l), s) \o << RegML("o", "s" \o s, m, l) >> \o ScaleSet(cls, r, l)
                \o << Arr("x" \o s, VScale(Unit(l), ks)), Grid("o", "x" \o s), GoCls("o", cls, ab[1], ab[2], 2, <<>>) >>
                \o (IF l = 0 /\ m \in {2, -4} THEN FlatOver(<<D("1.0005"), D("-1.5"), D("0.9999999"), D("-1"), Flt(0)>>, LAMBDA g : << [op |-> "resc", h |-> "o", D |-> g] >> \o pk(Flt(1))) \o << GoCls("o", cls, ab[1], ab[2], 2, <<>>) >> ELSE <<>>)
                \o (IF l = 0 /\ m = 0 THEN << [op |-> "resc", h |-> "o", D |-> Flt(2)] >> \o pk(Flt(1)) \o << GoCls("o", cls, ab[1], ab[2], 2, <<>>) >> ELSE <<>>)
                \o pk(D("0.7")) \o << [op |-> "resc", h |-> "o", D |-> D("0.7")] >> \o pk(Flt(1))
      zs == << <<0, 0>>, <<2, 0>>, <<-4, 0>>, <<12, 0>>, <<-30, 0>>, <<-120, 0>>, <<70, 0>> >> \o (IF two THEN <<>> ELSE << <<0, 1>>, <<0, -3>>, <<3, 2>>, <<-1, 7>>, <<0, 0>> >>)
  IN Beh("scale " \o cls \o Txt(i), << New("o", cls), Quiet("o"), Pts(Points(2, i)) >> \o FlatOver(zs, one))
(* two-loop A and B are homogeneous at lowest order only: columns other than pk             *)
SuiteC09 == FlatOver(Classes, LAMBDA c : Tup([i \in 1 .. Pick(4, 24) |-> ScaleBeh(c, i)]))

(* ---- C10 --------------------------------------------------------------------------- *)
AllPairs == FieldPairs \o << <<"delta", "rho">>, <<"rho", "theta">>, <<"", "theta">>, <<"Theta", "delta">>, <<"theta", "velocity">>, <<"thet", "theta ">>, <<"thetas", "t">>, <<"deltas", "th">> >>
SwapBeh(cls, i) ==
  LET t == Table(At(<<"cdm", "irr", "dip", "coarse">>, i))
      n == Len(AllPairs)
      ask(h) == << [op |-> "pk", h |-> h], [op |-> "pk", h |-> h, D |-> D("0.8")] >>
      go(h, ab, nt) == << GoF(h, ab[1], ab[2], nt) >>
      rev(ab) == <<ab[2], ab[1]>>
  IN Beh("fields " \o cls \o Txt(i), Base(t, cls) \o Medium("o", cls) \o << Pts(Points(3, i)), Arr("x", Ks(t)), Grid("o", "x"), New("w", cls), Grid("w", "x") >>
       \o FlatOver(Upto(n), LAMBDA j : LET ab == At(AllPairs, i + j) IN go("o", ab, 1 + (j % 3)) \o ask("o") \o go("w", rev(ab), 2) \o ask("w"))
       \* default arguments
       \o << [op |-> "run", h |-> "o", abs |-> <<>>] >> \o ask("o"))
CSwap(i) ==
  LET t == Table("cdm")
      ask(ab) == [op |-> "cpk", h |-> "o", k |-> "x", a |-> ab[1], b |-> ab[2], nt |-> 2] IN
  Beh("fields assembled" \o Txt(i), Base(t, "Spectrum1Loop") \o Medium("o", "Spectrum1Loop") \o << Arr("x", Ks(t)), Grid("o", "x") >>
      \o FlatOver(FieldPairs, LAMBDA ab : << GoF("o", ab[1], ab[2], 1) >>) \o Map(ask, AllPairs))
SuiteC10 == Flat(Tup([i \in 1 .. Pick(4, 30) |-> << SwapBeh("Spectrum1Loop", i), SwapBeh("Spectrum2Loop", i) >>])) \o << CSwap(1) >>
=============================================================================
