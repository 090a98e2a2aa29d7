------------------------------- MODULE Session -------------------------------
(* Histories of the state machine: a walk takes, at each step, one of the      *)
(* operations that make sense in the state reached (Choices), so that every    *)
(* behaviour is a behaviour of Machine; its parameters come from a counter.     *)
(* A walk keeps the runs it made, to be repeated in a fresh process.            *)
EXTENDS Machine, SuiteAsm
LOCAL INSTANCE TLC

Fake == [d |-> <<>>, g |-> <<>>, ret |-> "none", exc |-> "not run", out |-> 0, files |-> <<>>, st |-> <<0, 0, 0, 0, 0, 0, 0>>]
After(st, op) == Apply(st, op, Fake).st

(* ---- parameters from a counter ------------------------------------------------ *)
PickOf(s, z, j) == s[1 + UInt(z * 61 + j * 7, Len(s))]
Chance(p, z, j) == U(z * 61 + j * 7 + 3) < p

(* ---- what there is --------------------------------------------------------------- *)
ObjsOf(st, S) == SelectSeq(SetSeq(DOMAIN st.obj), LAMBDA h : st.obj[h].cls \in S)
Libs(st) == ObjsOf(st, LibClasses)
Grids(st) == SelectSeq(Libs(st), LAMBDA h : \A i \in 1 .. Len(Fields(st.obj[h].cls)) : Fields(st.obj[h].cls)[i] \in Cols(st, h))
Filled(st) == SelectSeq(SetSeq(DOMAIN st.obj), LAMBDA h : st.obj[h].cls # "raw" /\ "k" \in Cols(st, h))
Arrays(st) == ObjsOf(st, {"raw"})
Lins(st) == SelectSeq(ObjsOf(st, LinClasses), LAMBDA h : Cols(st, h) = {"k", "pk"} /\ Rows(Col(st, h, "k")) \geq 3)

(* ---- settings ----------------------------------------------------------------------- *)
AllNames == SetSeq(PrecNames \union GroupNames)
SmallN(name) == CASE name \in {"all_q", "all", "A_2loop_q", "A_2loop_I_q", "spectrum_2loop_q", "gamma2_1loop_q", "gamma2d_1loop_q", "gamma2t_1loop_q"} -> <<6, 8, 10>>
                  [] name \in MuNames \union {"all_mu"} -> <<3, 4, 6>>
                  [] OTHER -> <<7, 12, 21>>
RangePairs == << <<D("0.01"), Flt(2)>>, <<D("5e-3"), D("0.9")>>, <<Flt(-1), Flt(-1)>>, <<D("0.02"), D("4")>>, <<D("5e-4"), Flt(10)>> >>
(* interpolation modes the library does not know                                           *)
OtherModes == <<"cubic", "linear", "", "po", "POLY", "polynomial", "lin ", "other", "li">>
RandSet(h, z) ==
  LET name == PickOf(AllNames, z, 1)
      r == PickOf(RangePairs, z, 2)
      n == PickOf(SmallN(name), z, 3)
      i == PickOf(<<"lin", "poly", At(OtherModes, z)>>, z, 4)
  IN CASE Chance(D("0.35"), z, 5) -> SetN(h, name, n)
       [] Chance(D("0.4"), z, 6) -> SetR(h, name, r[1], r[2])
       [] Chance(D("0.35"), z, 7) -> SetI(h, name, i)
       [] Chance(D("0.5"), z, 8) -> SetNR(h, name, n, r[1], r[2])
       [] OTHER -> [ipl |-> i] @@ SetNR(h, name, n, r[1], r[2])
RandPk(h, z) == SetI(h, PickOf(SetSeq(PkLinNames \union {"all_pklin"}), z, 1), PickOf(<<"lin", "poly", At(OtherModes, z)>>, z, 2))
RandCut(h, z) == LET c == PickOf(SetSeq(CutNames \union {"all"}), z, 1) IN
                 IF Chance(D("0.2"), z, 2) THEN [op |-> "cut", h |-> h, name |-> c] ELSE Cut(h, c, PickOf(<<D("0.5"), D("0.2"), Flt(1), D("3"), D("1e-4"), Flt(0)>>, z, 3))
(* the settings in force, each by its own name                                              *)
ExplicitOf(h, set, names) ==
  LET one(s) == CASE s \in PkLinNames -> SetI(h, s, set[s])
                  [] s \in PrecNames -> LET x == set[s]  b == [op |-> "prec", h |-> h, name |-> s, ipl |-> x.ipl]
                                            r == [min |-> Flt(x.min), max |-> Flt(x.max)] IN
                                        CASE s \in RangeNames -> b @@ r [] s \in MuNames -> b @@ [n |-> x.n] [] OTHER -> b @@ r @@ [n |-> x.n]
                  [] OTHER -> LET c == CHOOSE c \in CutNames : CutOf(c) = s IN Cut(h, c, set[s])
  IN Map(one, SetSeq(names))
Explicit(h, set) == ExplicitOf(h, set, Names)
Changed(set) == {s \in Names : JText(set[s]) # JText(Defaults[s])}
(* small settings of everything, by group; two-loop ones smaller                               *)
Tiny(h) == << SetN(h, "all_q", 9), SetN(h, "all_mu", 3), SetN(h, "gamma2_1loop_q", 6), SetN(h, "A_2loop_I_q", 6), SetN(h, "bias_1loop_q", 13), SetN(h, "A_1loop_q", 13) >>

(* ---- a run repeated in a fresh process -------------------------------------------------------- *)
RunRec(st, op) == [cls |-> st.obj[op.h].cls, k |-> st.sp.tab.k, p |-> st.sp.tab.p, m |-> st.sp.m, l |-> st.sp.l, set |-> st.set, x |-> Get(st, op.h, "k"),
                   a |-> Opt(op, "a", "delta"), b |-> Opt(op, "b", "delta"), pts |-> st.pts]
RepeatWith(r, sets) == << Again, New("c", r.cls), Quiet("c"), Arr("ck", r.k), Arr("cp", r.p), RegKML("c", "ck", "cp", r.m, r.l) >> \o sets
             \o (IF r.pts = <<>> THEN <<>> ELSE << Pts(r.pts) >>)
             \o << Arr("cx", r.x), Grid("c", "cx"), IF IsSpectrum(r.cls) THEN GoF("c", r.a, r.b, 1) ELSE Go("c", 1) >>

Repeat(r) == RepeatWith(r, Explicit("c", r.set))                       \* every setting given by its name
RepeatShort(r) == RepeatWith(r, ExplicitOf("c", r.set, Changed(r.set)))  \* those that are not the defaults

(* ---- walks ---------------------------------------------------------------------------------------- *)
(* acc: [st, ops, runs]; a choice is a sequence of operations                                            *)
Take(acc, ops) ==
  FoldLeft(LAMBDA z, op : LET r == Apply(z.st, op, Fake)
                          IN [st |-> r.st, ops |-> Append(z.ops, op),
                              runs |-> IF op.op = "run" /\ r.exc = "" THEN Append(z.runs, RunRec(z.st, op)) ELSE z.runs], acc, ops)
Begin == [st |-> Init0, ops |-> <<>>, runs |-> <<>>]
Walk(start, choice(_, _), n, salt) == FoldLeft(LAMBDA acc, i : Take(acc, choice(acc.st, salt + 97 * i)), Take(Begin, start), Upto(n))
Within(s, m) == IF Len(s) <= m THEN s ELSE SubSeq(s, Len(s) - m + 1, Len(s))
(* the last run, and some earlier ones                                                                    *)
Repeats(runs, m) == FlatOver(Within(runs, m), Repeat)

(* ---- C06: histories --------------------------------------------------------------------------------- *)
TabNames == <<"cdm", "cdm2", "dip", "irr", "coarse", "cdm3">>
Ids == <<"o1", "o2", "o3", "o4">>
Xs(z) == LET t == Table(PickOf(TabNames, z, 20)) IN Some(Ks(t), 1 + UInt(z * 61 + 9, 3))
GoRand(st, h, z) == LET cls == st.obj[h].cls  nt == PickOf(<<1, 2, 4, 8, 0>>, z, 30)
                        f == <<"delta", "theta", "delta", "theta", "vel">> IN
                    IF IsSpectrum(cls) THEN GoF(h, PickOf(f, z, 31), PickOf(f, z, 32), nt) ELSE Go(h, nt)
Someone(st, z) == PickOf(Libs(st), z, 40)
MakeObj(st, z) ==     \* a new object of the library (possibly in place of another one), with a grid
  LET h == PickOf(Ids, z, 50)  cls == PickOf(Classes, z, 51) IN
  << New(h, cls), Quiet(h), Arr("x" \o h, Xs(z)), Grid(h, "x" \o h) >>
Retilt(st, s) ==
  LET h == "s" \o s  p == "p" \o s IN
  /\ h \in DOMAIN st.obj /\ p \in DOMAIN st.obj /\ Cols(st, h) = {"k", "pk"} /\ st.obj[p].wr
  /\ LET u == Col(st, h, "pk")  v == Col(st, p, "v") IN u.a = v.a /\ u.ix = v.ix /\ Len(v.ix) = Rows(Col(st, h, "k"))
Regs(st, z) ==        \* a spectrum registered by somebody
  LET t == Table(PickOf(TabNames, z, 60))  h == Someone(st, z)  s == PickOf(<<"a", "b">>, z, 61)
      lay == PickOf(<<"c", "strided", "rev", "ro", "be", "off">>, z, 63)
      arrs == << ArrAs("k" \o s, t[1], lay), ArrAs("p" \o s, t[2], lay) >>
      \* the power of a registered spectrum changed in place, and registered again
      again == SelectSeq(<<"a", "b">>, LAMBDA y : Retilt(st, y))
  IN IF again # <<>> /\ Chance(D("0.35"), z, 68) THEN LET r == PickOf(again, z, 69)  ks == Get(st, "s" \o r, "k")  e == PickOf(<<D("0.4"), -D("0.3"), Flt(0)>>, z, 59) IN
          << [op |-> "poke", h |-> "p" \o r, fs |-> Map(LAMBDA k : D("1.1") * Pow(k, e), ks)], Reg(h, "s" \o r) >>
     ELSE IF Chance(D("0.5"), z, 62) THEN arrs \o << Lin("s" \o s, "k" \o s, "p" \o s), Reg(h, "s" \o s) >>
     ELSE arrs \o << RegK(h, "k" \o s, "p" \o s) >> \o (IF Chance(D("0.5"), z, 64) /\ lay # "ro" THEN << PokeArr(PickOf(<<"k", "p">>, z, 65) \o s, D("1.37")) >> ELSE <<>>)
Reuse(st, z) ==       \* the user reuses an array for something else
  IF Owned(st) = <<>> THEN <<>> ELSE << PokeArr(PickOf(Owned(st), z, 66), PickOf(<<D("1.37"), D("0.6"), Flt(0)>>, z, 67)) >>
Forget(st, z) ==      \* discard what registered the spectrum, or any object, and reuse the memory
  LET all == SetSeq(DOMAIN st.obj)
      some == SelectSeq(all, LAMBDA h : Chance(D("0.4"), z, Len(h) + 70 + Len(JText(h)) * 3))
      gone == IF Len(ObjsOf(st, LibClasses)) - Cardinality({i \in 1 .. Len(some) : some[i] \in DOMAIN st.obj /\ st.obj[some[i]].cls \in LibClasses}) < 1 THEN Arrays(st) ELSE some
  IN << Drop(gone), [op |-> "scrib", ns |-> <<14, 37, 41, 44, 48, 3>>, v |-> Flt(-7)] >>
Lookups(st, z) ==
  LET h == Someone(st, z)  x == "q" IN
  << Arr(x, Thin(Queries(st.sp.tab.k), 5)), IF Chance(D("0.5"), z, 80) THEN Find(h, x, PickOf(<<"poly", "lin">>, z, 81)) ELSE Sig(h, x, PickOf(<<D("0.5"), D("0.9")>>, z, 82)) >>
Failed(st, z) ==
  LET h == Someone(st, z) IN
  CASE Chance(D("0.3"), z, 90) -> << [op |-> "get", h |-> h, c |-> "nothing"] >>
    [] Chance(D("0.3"), z, 91) -> << SetN(h, "nothing_q", 4) >>
    [] Chance(D("0.3"), z, 92) -> << [op |-> "cut", h |-> h, name |-> "nothing", uv |-> D("0.3")] >>
    [] OTHER -> << New("e", PickOf(Classes, z, 93)), [op |-> "run", h |-> "e", abs |-> <<>>], Drop(<<"e">>) >>
Derived(st, z) ==
  LET h == PickOf(Grids(st), z, 100)  o == PickOf(<<"o4", "o5">>, z, 101) IN
  CASE Chance(D("0.3"), z, 102) -> << [op |-> "copy", h |-> h, o |-> o] >>
    [] Chance(D("0.4"), z, 103) -> << [op |-> "deep", h |-> h, o |-> o] >>
    [] OTHER -> << [op |-> "sl", h |-> h, o |-> o, ix |-> [k |-> "slice", v |-> PickOf(<< <<0, None, 2>>, <<None, None, -1>>, <<1, None, None>>, <<0, 1, 1>> >>, z, 104)]] >>
NonEmpty(st) == SelectSeq(Grids(st), LAMBDA h : Rows(Col(st, h, "k")) > 0)
RunOne(st, z) == IF NonEmpty(st) = <<>> THEN MakeObj(st, z) ELSE << GoRand(st, PickOf(NonEmpty(st), z, 110), z) >>
HistChoice(st, z) ==
  LET u == U(z * 61 + 1) IN
  CASE u < D("0.30") -> RunOne(st, z)
    [] u < D("0.42") -> MakeObj(st, z)
    [] u < D("0.54") -> Regs(st, z)
    [] u < D("0.66") -> << RandSet(Someone(st, z), z) >>
    [] u < D("0.70") -> << RandPk(Someone(st, z), z) >>
    [] u < D("0.74") -> << RandCut(Someone(st, z), z) >>
    [] u < D("0.80") -> Forget(st, z)
    [] u < D("0.85") -> Lookups(st, z)
    [] u < D("0.89") -> Failed(st, z)
    [] u < D("0.95") -> IF Grids(st) = <<>> THEN MakeObj(st, z) ELSE Derived(st, z)
    [] u < D("0.965") -> << Pts(Points(1 + UInt(z, 3), z)) >>
    [] u < D("0.985") -> Reuse(st, z)
    [] OTHER -> IF NonEmpty(st) = <<>> THEN MakeObj(st, z) ELSE LET h == PickOf(NonEmpty(st), z, 111) IN << GoRand(st, h, z), GoRand(st, h, z + 1) >>
HistStart(i) == << New("o1", At(Classes, i)), Quiet("o1") >> \o Tiny("o1") \o TableOps(Table(At(TabNames, i)), "a") \o << Reg("o1", "sa"), Pts(Points(2, i)), Arr("x", Some(Ks(Table("cdm")), 3)), Grid("o1", "x") >>
History(i, n, m) ==
  LET w == Walk(HistStart(i), HistChoice, n, 1009 * i)
      e == Take(w, RunOne(w.st, 5 + i))
  IN Beh("history " \o Txt(i), e.ops \o Repeats(e.runs, m))
(* ---- every history of some length over an alphabet ------------------------------------------------------ *)
(* a de Bruijn sequence holds every word of length n: concatenate the Lyndon words whose length divides n  *)
NextLyndon(w, k, n) ==
  LET ext == Tup([j \in 1 .. n |-> w[1 + ((j - 1) % Len(w))]])
      ends == {j \in 1 .. n : ext[j] # k}
      last == CHOOSE j \in ends : \A i \in ends : i \leq j
  IN IF ends = {} THEN <<>> ELSE [SubSeq(ext, 1, last) EXCEPT ![last] = @ + 1]
RECURSIVE Lyndons(_, _, _)
Lyndons(k, n, acc) == LET w == NextLyndon(acc.w, k, n)  out == IF n % Len(acc.w) = 0 THEN acc.out \o acc.w ELSE acc.out
                      IN IF w = <<>> THEN out ELSE Lyndons(k, n, [w |-> w, out |-> out])
AllWords(k, n) == LET s == Lyndons(k, n, [w |-> <<1>>, out |-> <<>>]) IN s \o SubSeq(s, 1, n - 1)
Spelled(alphabet, n) == FlatOver(AllWords(Len(alphabet), n), LAMBDA j : alphabet[j])
(* operations that make sense in every state reached by them                                                 *)
LettersOf(c, i) ==
  LET go(h) == GoCls(h, c, "delta", "theta", 1 + (i % 3), <<>>)
      ta == Table("irr")  tb == Table("coarse") IN
  << << go("o") >>, << go("w") >>, << Grid("o", "x") >>, << Grid("w", "y") >>, << Grid("w", "x") >>, << RegK("o", "ka", "pa") >>,
     << Arr("kb", tb[1]), Arr("pb", tb[2]), Lin("sb", "kb", "pb"), Reg("w", "sb"), Drop(<<"sb", "kb", "pb">>), [op |-> "scrib", ns |-> <<37, 41, 44>>, v |-> Flt(-7)] >>,
     << SetN("o", "all_q", 7) >>, << SetN("w", "all_q", 10) >>, << New("w", c), Quiet("w"), Grid("w", "y") >> >>
Everything(c, i, n) ==
  LET ta == Table("irr")
      start == << New("o", c), Quiet("o"), New("w", c) >> \o Tiny("o") \o << Arr("ka", ta[1]), Arr("pa", ta[2]), RegK("o", "ka", "pa"), Pts(Points(2, i)),
                  Arr("x", SubSeq(Ks(Table("cdm")), 1, 2)), Arr("y", SubSeq(Ks(Table("cdm")), 4, 6)), Grid("o", "x"), Grid("w", "y") >>
      w == Take(Begin, start \o Spelled(LettersOf(c, i), n))
  IN Beh("every history " \o c \o Txt(i), w.ops \o Repeats(Within(w.runs, 12), 6))
(* a run that cannot succeed (values that are not numbers, or infinite, or overflow) and what follows it   *)
AfterBad(c, i) ==
  LET t == Table("coarse")  n == Len(t[1])
      go == GoCls("o", c, "delta", "theta", 1 + (i % 3), <<>>)
      bad(j, v) == << Arr("pb" \o Txt(j), [t[2] EXCEPT ![n \div 2] = v]), Arr("kb", t[1]), RegK("o", "kb", "pb" \o Txt(j)), [loose |-> TRUE] @@ go >>
  IN Beh("after failures " \o c \o Txt(i), << New("o", c) >> \o Tiny("o") \o << Arr("ka", t[1]), Arr("pa", t[2]), RegK("o", "ka", "pa"), Pts(Points(2, i)), Arr("x", SubSeq(Ks(Table("cdm")), 1, 3)), Grid("o", "x"), go >>
       \o bad(1, D("NaN")) \o << RegK("o", "ka", "pa"), go >> \o bad(2, D("Infinity")) \o << RegK("o", "ka", "pa"), go >> \o bad(3, D("1e300")) \o << RegK("o", "ka", "pa"), go >> \o bad(4, -D("1e200")) \o << RegK("o", "ka", "pa"), go >>)
SuiteC06 == FlatOver(Classes, LAMBDA c : << AfterBad(c, 1) >>) \o Tup([i \in 1 .. Pick(120, 1500) |-> History(i, 26, 6)]) \o Tup([j \in 1 .. Len(Classes) |-> Everything(Classes[j], j, Pick(3, 4))])
=============================================================================
