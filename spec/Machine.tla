------------------------------ MODULE Machine ------------------------------
(* The state machine of the package as its user sees it: one operation at a  *)
(* time takes a state to the next one and says what must be returned.        *)
(*                                                                            *)
(*  st.heap, st.dic, st.obj   objects (Heap)                                  *)
(*  st.sp      spectrum in force [tab, id, m, l], <<>> before registration     *)
(*  st.set     settings (Settings)          st.verb   verbosity                *)
(*  st.pts     integrator's points          st.specs  spectra seen, normalised *)
(*  st.memo    what is known of rows: Key |-> [v, m, l, sp]                    *)
(*  st.marks   heap balance of the library at marked points                    *)
EXTENDS Heap
LOCAL INSTANCE TLC

Init0 == [heap |-> <<>>, dic |-> <<>>, obj |-> [x \in {} |-> 0], sp |-> <<>>, set |-> Defaults, verb |-> "info",
          pts |-> <<>>, specs |-> <<>>, memo |-> [x \in {} |-> 0], marks |-> <<>>]
(* a fresh process keeps nothing but what is known of the functions computed  *)
Restart(st) == [Init0 EXCEPT !.specs = st.specs, !.memo = st.memo]

Opt(op, f, d) == IF f \in DOMAIN op THEN op[f] ELSE d
Raw(st, h) == Get(st, h, "v")
Nothing(r) == JText(r) = "\"none\""

(* ---- results of an operation ------------------------------------------------ *)
(* [st, ret, exc, tol, bad, dev]: next state, expected return value, expected          *)
(* exception, tolerance for contents changed in place, failed conditions, largest   *)
(* deviation from a defining integral in units of its tolerance                       *)
Out(st, ret) == [st |-> st, ret |-> ret, exc |-> "", tol |-> D("1e-14"), bad |-> <<>>, dev |-> Flt(0)]
Done(st) == Out(st, <<"none">>)
Raise(st, e) == [Out(st, <<"none">>) EXCEPT !.exc = e]
Num(v, sc, tol) == <<"num", v, sc, tol>>
NumR(v) == <<"num", v, Tup([j \in 1 .. Len(v) |-> Abs(v[j])]), D("1e-13")>>
Same(v) == <<"num", v, Tup([j \in 1 .. Len(v) |-> Flt(0)]), D("0")>>

(* ---- spectra ------------------------------------------------------------------ *)
IndexOf(s, x) == LET S == {i \in 1 .. Len(s) : s[i] = x} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
Register(st, k, p, m, l) ==
  LET tab == <<VScale(1 / Unit(l), k), VScale(Unit(3 * l - m), p)>>
      i == IndexOf(st.specs, tab)
  IN [st EXCEPT !.specs = IF i = 0 THEN Append(@, tab) ELSE @,
                !.sp = [tab |-> MkTab(k, p), id |-> IF i = 0 THEN Len(st.specs) + 1 ELSE i, m |-> m, l |-> l]]

(* ---- a run --------------------------------------------------------------------- *)
Observed(st, ev, h, c) ==
  LET S == {i \in 1 .. Len(ev.d) : ev.d[i].h = h /\ ev.d[i].c = c}
  IN IF S # {} THEN ev.d[CHOOSE i \in S : TRUE].v ELSE Get(st, h, c)
RelTol == D("1e-9")
ScaleTol == D("1e-7")
Near(o, e, sc, tol) == Eq(o, e) \/ (IsFinite(o) /\ IsFinite(e) /\ Abs(o - e) \leq tol * sc)
VNear(o, e, sc, tol) == \A j \in 1 .. Len(e) : Near(o[j], e[j], Max2(Abs(e[j]), sc), tol)

Heavy(cls, c) == c \in {"pk_gamma2_tree_1loop", "pk_gamma2_1loop_1loop"} \/ (cls = "A2Loop" /\ c = "pk")
(* tolerance of a value against its defining integral                               *)
AbsTol(cls, c, op) ==
  CASE c \in {"pk_gamma2_tree_1loop", "pk_gamma2_1loop_1loop"} -> Opt(op, "ltol", D("1e-2"))
    [] cls = "A2Loop" /\ c = "pk" -> Opt(op, "ltol", D("1e-2"))
    [] c = "sigmad2" -> D("1e-12")
    [] OTHER -> Opt(op, "atol", D("1e-9"))

(* One column of a run: compares each row with what is known of it, remembers what   *)
(* was not known and, where asked to, compares it with the defining integral.         *)
RunCol(acc, h, c, op, ev) ==
  LET st == acc.st
      cls == st.obj[h].cls
      a == Opt(op, "a", "delta")  b == Opt(op, "b", "delta")
      k == Get(st, h, "k")
      obs == Observed(st, ev, h, c)
      w == Max2(1, NComp(cls, c))
      v == Col(st, h, c)
      row(i) == SubSeq(obs, (i - 1) * w + 1, i * w)
      floor == MaxAbs(obs) * D("1e-4")
      edge == MaxAbs(obs) * D("1e-6")      \* rows whose domain is empty up to rounding
      want == {op.abs[i] : i \in 1 .. Len(op.abs)}
      step(z, i) ==
        LET o == row(i)
            key == Key(cls, c, a, b, k[i], st.set, st.sp, st.pts)
            f == ScaleOf(cls, c, st.sp)
            known == key \in DOMAIN z.memo
            abs == c \in want \/ ("new" \in want /\ ~known /\ ~Heavy(cls, c))      \* "new": rows not known yet
            e == IF known THEN VScale(f, z.memo[key].v) ELSE o
            here == known /\ z.memo[key].m = st.sp.m /\ z.memo[key].l = st.sp.l
            ok == VNear(o, e, MaxAbs(e) * D("1e-4"), IF here THEN RelTol ELSE ScaleTol)
                  \/ (known /\ ~here /\ VNear(o, e, Max2(MaxAbs(e) * D("1e-2"), floor), ScaleTol))
            fin == \A j \in 1 .. w : IsFinite(o[j])
            val == IF abs THEN Once(JText(<<st.sp.tab.k, st.sp.tab.p, st.sp.m, st.sp.l, Opt(op, "nf", 16)>>) \o key, Value(cls, c, a, b, k[i], st.set, st.sp.tab, st.pts, Opt(op, "nf", 16))) ELSE 0
            tol == AbsTol(cls, c, op)
            close == ~abs \/ \A j \in 1 .. w : Near(o[j], val.val[j], Max2(Max2(val.sc[j], Abs(val.val[j])), edge), tol)
            fail(t, x) == "run " \o cls \o "." \o c \o " k=" \o Txt(k[i]) \o ": " \o t \o ": observed " \o Txt(o) \o " expected " \o Txt(x)
        IN [memo |-> IF known THEN z.memo ELSE (key :> [v |-> VScale(1 / f, o), m |-> st.sp.m, l |-> st.sp.l]) @@ z.memo,
            bad |-> z.bad \o (IF ok THEN <<>> ELSE <<fail("not the same function of its inputs", e)>>)
                          \o (IF fin THEN <<>> ELSE <<fail("not finite", o)>>)
                          \o (IF close THEN <<>> ELSE <<fail("not its defining integral", val.val)>>),
            dev |-> IF abs /\ close THEN FoldLeft(Max2, z.dev, Tup([j \in 1 .. w |-> IF val.sc[j] > 0 THEN (Abs(o[j] - val.val[j]) / val.sc[j]) / tol ELSE Flt(0)])) ELSE z.dev]
      full == Len(obs) = Len(k) * w
      \* "loose": values that are not numbers go in, anything may come out
      r == IF full /\ Opt(op, "loose", FALSE) THEN [memo |-> st.memo, bad |-> <<>>, dev |-> acc.dev]
           ELSE IF full THEN FoldLeft(step, [memo |-> st.memo, bad |-> <<>>, dev |-> acc.dev], Iota(Len(k)))
           ELSE [memo |-> st.memo, bad |-> <<"run: column " \o c \o " has another size">>, dev |-> acc.dev]
  IN [st |-> Write([st EXCEPT !.memo = r.memo], v, IF full THEN obs ELSE Contents(st, v)), bad |-> acc.bad \o r.bad, dev |-> r.dev]
(* a run fills contiguous columns: those of a slice with a step become arrays of    *)
(* their own, others share the memory they are views of                             *)
Contiguous(v) == \A j \in 1 .. Len(v.ix) : v.ix[j] = v.ix[1] + j - 1
Compact(st, h) == FoldLeft(LAMBDA s, c : IF Contiguous(Col(s, h, c)) THEN s ELSE SetNew(s, h, c, Get(s, h, c), Col(s, h, c).s), st,
                           SelectSeq(Fields(st.obj[h].cls), LAMBDA c : c \in Cols(st, h)))
(* an array of the user's, laid out in memory in a given way                      *)
Given2(st, h, v, l) ==
  LET n == Len(v) IN
  CASE l = "strided" -> LET m == 2 * n + 1 IN
         Bind(WithArr(st, Tup([j \in 1 .. m |-> IF j % 2 = 1 /\ j < m THEN v[(j + 1) \div 2] ELSE Flt(0)])), h, "v", [a |-> Len(st.heap) + 1, ix |-> Tup([j \in 1 .. n |-> 2 * j - 1]), s |-> <<n>>])
    [] l = "rev" -> Bind(WithArr(st, Tup([j \in 1 .. n |-> v[n + 1 - j]])), h, "v", [a |-> Len(st.heap) + 1, ix |-> Tup([j \in 1 .. n |-> n + 1 - j]), s |-> <<n>>])
    \* two rows, stored by columns
    [] l = "f2" /\ n % 2 = 0 -> LET m == n \div 2  at(j) == 1 + 2 * ((j - 1) % m) + ((j - 1) \div m)
                                   back(t) == 1 + ((t - 1) \div 2) + m * ((t - 1) % 2) IN
         Bind(WithArr(st, Tup([t \in 1 .. n |-> v[back(t)]])), h, "v", [a |-> Len(st.heap) + 1, ix |-> Tup([j \in 1 .. n |-> at(j)]), s |-> <<2, m>>])
    [] OTHER -> SetNew(st, h, "v", v, CASE l \in {"2d", "f2"} -> <<1, n>> [] l = "w5" -> <<n \div 5, 5>> [] l = "w9" -> <<n \div 9, 9>> [] OTHER -> <<n>>)
(* may the user change it: not when it is the memory of a linear spectrum, which is  *)
(* registered by reference                                                            *)
Own(st, h, y) == [st EXCEPT !.obj[h] = [w |-> y] @@ @ @@ [wr |-> y]]
Owned(st) == SelectSeq(SetSeq(DOMAIN st.obj), LAMBDA h : st.obj[h].cls = "raw" /\ st.obj[h].w)
Run(st0, op, ev) ==
  LET h == op.h  cls == st0.obj[h].cls
      st == Compact(st0, h)
      cs == SelectSeq(Fields(cls), LAMBDA c : c # "k")
      missing == \E i \in 1 .. Len(Fields(cls)) : Fields(cls)[i] \notin Cols(st, h)
      r == FoldLeft(LAMBDA acc, c : RunCol(acc, h, c, op, ev), [st |-> st, bad |-> <<>>, dev |-> Flt(0)], cs)
  IN IF missing THEN Raise(st, "KeyError")
     ELSE IF ev.exc = "not run" THEN Done(st)       \* the structure alone (Session)
     ELSE [Done(r.st) EXCEPT !.bad = r.bad, !.dev = r.dev]

(* ---- assembled quantities ------------------------------------------------------- *)
RowRec(st, h, i) == [c \in Cols(st, h) |-> Get(st, h, c)[i]]
S2At(st, op, h, i) == IF "s2" \notin DOMAIN op THEN Get(st, h, "sigmad2")[i]
                      ELSE IF IsNum(op.s2) THEN op.s2 ELSE Raw(st, op.s2)[i]
RowsOf(st, h) == Len(Get(st, h, "k"))
(* an argument that may be one number or an array of them, at i                          *)
ArgAt(st, op, f, d, i) == IF f \notin DOMAIN op THEN d ELSE IF IsNum(op[f]) THEN op[f] ELSE Raw(st, op[f])[i]
GrowAt(st, op, v, n) == Tup([i \in 1 .. Len(v) |-> IPow(Flt(ArgAt(st, op, "D", 1, i)), n) * v[i]])
(* flat pk(Dgrowth, sigmad2) of an object, and magnitudes                              *)
PkOf(st, h, op) ==
  LET cls == st.obj[h].cls IN
  CASE cls \in LinClasses -> GrowAt(st, op, Get(st, h, "pk"), 2)
    [] cls \in {"A1Loop", "A2Loop", "B1Loop", "B2Loop"} ->
         VScale(IPow(Flt(Opt(op, "D", 1)), 2 * Order(cls, "pk")), Get(st, h, "pk"))
    [] OTHER ->
         LET cs == Cols(st, h)
             g == [c \in cs |-> Get(st, h, c)]
         IN Tup([i \in 1 .. RowsOf(st, h) |->
              LET r == [c \in cs |-> g[c][i]]  Dg == ArgAt(st, op, "D", 1, i) IN IF cls = "Spectrum1Loop" THEN OneLoopPk(r, Dg, S2At(st, op, h, i)) ELSE TwoLoopPk(r, Dg, S2At(st, op, h, i))])
PkSc(v) == LET m == MaxAbs(v) IN Tup([i \in 1 .. Len(v) |-> Max2(Abs(v[i]), m * D("1e-3"))])
AccOrder(f) == IF f \in {"pk_lin"} THEN 1 ELSE 2
Accessor(st, h, op) ==
  LET Dg(i) == ArgAt(st, op, "D", 1, i)  f == op.f IN
  CASE f \in {"pk_b22_damp", "pk_b2s2_damp", "pk_bs22_damp"} ->
         LET c == CASE f = "pk_b22_damp" -> "pk_b22" [] f = "pk_b2s2_damp" -> "pk_b2s2" [] OTHER -> "pk_bs22"
             v == Get(st, h, c)  k == Get(st, h, "k")
         IN Tup([i \in 1 .. Len(k) |-> Damped(v[i], k[i], Dg(i), S2At(st, op, h, i))])
    [] f = "pk_sigma3sq" -> LET v == Get(st, h, "sigma3sq")  p == Get(st, h, "pk_lin") IN Tup([i \in 1 .. Len(v) |-> IPow(Flt(Dg(i)), 4) * v[i] * p[i]])
    [] OTHER -> GrowAt(st, op, Get(st, h, f), 2 * AccOrder(f))
Edge(op, f) == Opt(op, f, Flt(0))
InterpPk(st, h, op) ==
  LET ks == Get(st, h, "k")  y == PkOf(st, h, op)  x == Raw(st, op.k)
  IN Tup([i \in 1 .. Len(x) |-> Interp(x[i], ks, y, Edge(op, "l"), Edge(op, "r"))])
Rsd(st, h, op) ==
  LET cls == st.obj[h].cls
      n == NComp(cls, "pk")  v == Get(st, h, "pk")  ks == Get(st, h, "k")  x == Raw(st, op.k)
      pw == IF n = 5 THEN APowers ELSE BPowers
      comps == Tup([i \in 1 .. Len(ks) |-> SubSeq(v, (i - 1) * n + 1, i * n)])
      mu2(i) == IF IsNum(op.mu2) THEN op.mu2 ELSE Raw(st, op.mu2)[i]
      r == Tup([i \in 1 .. Len(x) |-> RsdInterp(pw, x[i], ks, comps, mu2(i), ArgAt(st, op, "beta", 1, i), Opt(op, "D", 1), Edge(op, "l"), Edge(op, "r"))])
  IN <<Tup([i \in 1 .. Len(r) |-> r[i][1]]), Tup([i \in 1 .. Len(r) |-> r[i][2]])>>
NoWiggle(st, h, c) ==
  LET hh == Opt(c, "h", D("0.676"))
      om == IF "Omega_m" \in DOMAIN c THEN c["Omega_m"] * hh * hh ELSE Opt(c, "omega_m", D("0.21"))
      ob == IF "Omega_b" \in DOMAIN c THEN c["Omega_b"] * hh * hh ELSE Opt(c, "omega_b", D("0.022"))
      ks == Get(st, h, "k")
  IN Tup([i \in 1 .. Len(ks) |-> NoWiggleT(ks[i], hh, ob, om, Opt(c, "T_cmb", D("2.7255")))])
NoWiggleRun(st, op) ==
  LET c == op.c  T == NoWiggle(st, op.h, c)  ks == Get(st, op.h, "k")
      y == Tup([i \in 1 .. Len(ks) |-> Pow(ks[i], Opt(c, "n_s", Flt(1))) * T[i] * T[i]])
      A == IF "A" \in DOMAIN c THEN c["A"] ELSE Raw(st, op.p)[1] / y[1]
  IN SetNew(st, op.h, "pk", VScale(A, y), <<Len(ks)>>)

(* the library's own assembled spectrum on given wavenumbers: from what is known of   *)
(* its terms, otherwise from their definitions                                         *)
(* the library's own B terms, of two given spectra or of the one-loop spectra              *)
CB(st, op) ==
  LET t == st.sp.tab  x == Raw(st, op.k)
      given(f) == MkTab(Raw(st, IF f \o "k" \in DOMAIN op THEN op[f \o "k"] ELSE op.g), Raw(st, op[f]))   \* each on its own table
      both == "tt" \in DOMAIN op /\ ("dt" \in DOMAIN op \/ "td" \in DOMAIN op)   \* one alone is as none
      dt == IF both THEN given(IF "dt" \in DOMAIN op THEN "dt" ELSE "td") ELSE OneLoopTab("delta", "theta", st.set, t)
      tt == IF both THEN given("tt") ELSE OneLoopTab("theta", "theta", st.set, t)
      rows == Tup([i \in 1 .. Len(x) |-> BTerms(x[i], G(st.set, "B_q", t), st.set["B_mu"].n, st.set["B_mu"].ipl, dt, tt)])
      lin == Tup([i \in 1 .. Len(x) |-> Value("B1Loop", "pk_lin", "delta", "delta", x[i], st.set, t, st.pts, 4)])
      sd == Tup([i \in 1 .. Len(x) |-> Value("B1Loop", "sigmad2", "delta", "delta", x[i], st.set, t, st.pts, 4)])
      all == lin \o sd \o rows
  IN Num(FoldLeft(LAMBDA acc, r : acc \o r.val, <<>>, all), FoldLeft(LAMBDA acc, r : acc \o r.sc, <<>>, all), D("1e-9"))
CPk(st, op) ==
  LET t == st.sp.tab  x == Raw(st, op.k)
      know(c, k) == LET key == Key("Spectrum1Loop", c, op.a, op.b, k, st.set, st.sp, st.pts)
                    IN IF key \in DOMAIN st.memo THEN <<TRUE, ScaleOf("Spectrum1Loop", c, st.sp) * st.memo[key].v[1]>> ELSE <<FALSE, Flt(0)>>
      cs == {"pk_lin", "sigmad2", "gamma1a_1loop", "gamma1b_1loop", "pk_gamma2_tree_tree"}
      at(k) == IF \A c \in cs : know(c, k)[1]
               THEN LET r == [c \in cs \union {"k"} |-> IF c = "k" THEN k ELSE know(c, k)[2]] IN OneLoopPk(r, 1, r.sigmad2)
               ELSE OneLoopAt(op.a, op.b, k, 1, st.set, t)
  IN Tup([i \in 1 .. Len(x) |-> at(x[i])])

(* ---- Gauss-Legendre nodes and weights (C03) ------------------------------------------ *)
NodesBad(n, lo, hi, x, w) ==
  LET L == hi - lo
      z == Tup([i \in 1 .. n |-> ((2 * x[i] - (hi + lo)) / L)])
      mag == (Abs(lo) + Abs(hi)) / Abs(L)         \* rounding of the mapped node, in units of the interval
      eps == D("2e-13") + D("1e-15") * mag
      \* every node, or for high orders some of them, each close to where it must be
      Probe == IF n \leq 700 THEN 1 .. n ELSE {1, 2, 3, n, n - 1, n \div 2, (n \div 2) + 1, (n + 1) \div 2, n \div 3, n \div 7, (3 * n) \div 4, n \div 50, n - (n \div 20)}
      about(i) == -Cos((Pi * (i - D("0.25"))) / (n + D("0.5")))
      placed(i) == Abs(z[i] - about(i)) \leq D("0.3") * Abs(about(i + 1) - about(i))
      res(i) == LET pp == Legendre(n, z[i])  s == LegendreSlope(n, z[i], pp) IN <<pp[1] / s, s>>
      R == [i \in Probe |-> res(i)]
      wok(i) == LET e == L / ((1 - z[i] * z[i]) * R[i][2] * R[i][2]) IN Near(w[i], e, Abs(e), D("1e-9") + 20 * n * n * eps)
      moment(d) == LET s == Tup([i \in 1 .. n |-> w[i] * IPow(z[i], d)])
                       e == IF d % 2 = 1 THEN Flt(0) ELSE L / (d + 1)
                   IN Near(Sum(s), e, Abs(L), D("1e-11") + 10 * d * eps)
  IN (IF Len(x) = n /\ Len(w) = n THEN <<>> ELSE <<"wrong number of nodes">>)
     \o (IF \A i \in Probe : Abs(R[i][1]) \leq eps THEN <<>> ELSE <<"a node is no root of the Legendre polynomial">>)
     \o (IF \A i \in 1 .. (n - 1) : z[i] < z[i + 1] THEN <<>> ELSE <<"nodes not increasing">>)
     \o (IF n = 1 \/ \A i \in 1 .. n : placed(i) THEN <<>> ELSE <<"a node is not in its place">>)
     \o (IF \A i \in 1 .. n : Abs(z[i] + z[n + 1 - i]) \leq 4 * eps /\ Near(w[i], w[n + 1 - i], Abs(w[i]), D("1e-12")) /\ w[i] * L > 0 THEN <<>> ELSE <<"nodes or weights not symmetric">>)
     \o (IF \A i \in Probe : wok(i) THEN <<>> ELSE <<"wrong weight">>)
     \o (IF \A d \in 0 .. Min2(2 * n - 1, 41) : moment(d) THEN <<>> ELSE <<"polynomial not integrated exactly">>)

(* ---- fourth-order kernel (C21) ----------------------------------------------------------- *)
KernBad(op, ret) ==
  LET n == Len(op.x) \div 4
      at(i) == LET k1 == op.x[4*i-3]  k2 == op.x[4*i-2]  k3 == op.x[4*i-1]  q == op.x[4*i]
                   L == LoopKernel(k1, k2, k3, q, Opt(op, "nf", 16))
                   j == IF op.f = "t" THEN 2 ELSE 1
               IN IF Near(ret[i], L[j], L[j + 2], op.tol) THEN <<>>
                  ELSE <<"kernel gamma2" \o op.f \o "(" \o Txt(SubSeq(op.x, 4*i-3, 4*i)) \o "): observed " \o Txt(ret[i]) \o " expected " \o Txt(L[j]) \o " of " \o Txt(L[j + 2])>>
  IN FoldLeft(LAMBDA acc, i : acc \o at(i), <<>>, Iota(n))

(* ---- the operations ------------------------------------------------------------------------ *)
Apply(st, op, ev) ==
  CASE op.op = "restart" -> Done(Restart(st))
    [] op.op = "arr" -> LET l == Opt(op, "lay", "c") IN Done(Own(Given2(NewObj(st, op.h, "raw"), op.h, op.v, l), op.h, l \notin {"ro", "list"}))
    \* the user changes an array in place
    [] op.op = "poke" -> LET v == Raw(st, op.h) IN Done(Write(st, Col(st, op.h, "v"), IF "fs" \in DOMAIN op THEN Tup([i \in 1 .. Len(v) |-> v[i] * op.fs[i]]) ELSE VScale(op.f, v)))
    [] op.op = "new" -> Done(NewObj(st, op.h, op.cls))
    [] op.op = "lin" -> LET s == NewObj(Own(Own(st, op.k, FALSE), op.p, FALSE), op.h, Opt(op, "cls", "SpectrumLin")) IN Done(Bind(Bind(s, op.h, "k", Col(st, op.k, "v")), op.h, "pk", Col(st, op.p, "v")))
    [] op.op = "drop" -> Done([st EXCEPT !.obj = [y \in DOMAIN @ \ {op.hs[i] : i \in 1 .. Len(op.hs)} |-> @[y]]])
    [] op.op \in {"scrib", "yield", "nop"} -> Done(st)
    [] op.op = "guard" -> Done(FoldLeft(LAMBDA s, c : SetNew(s, op.h, c, Get(s, op.h, c), Col(s, op.h, c).s), st, ColSeq(st, op.h)))
    [] op.op = "reg" -> Done(Register(st, Get(st, op.s, "k"), Get(st, op.s, "pk"), op.m, op.l))
    [] op.op = "regk" -> Done(Register(st, Raw(st, op.k), Raw(st, op.p), op.m, op.l))
    [] op.op = "grid" -> Done(Zeros(st, op.h, Raw(st, op.k)))
    [] op.op = "run" -> Run(st, op, ev)
    [] op.op = "prec" -> IF op.name \notin PrecNames \union PkLinNames \union GroupNames THEN Raise(st, "AttributeError") ELSE Done([st EXCEPT !.set = SetPrec(@, op.name, Opt(op, "n", 0), Opt(op, "min", Flt(1)), Opt(op, "max", Flt(-1)), Opt(op, "ipl", "test"))])
    [] op.op = "cut" -> IF op.name \notin CutNames \union {"all"} THEN Raise(st, "AttributeError") ELSE Done([st EXCEPT !.set = SetCut(@, op.name, Opt(op, "uv", D("0.5")))])
    [] op.op = "verb" -> Done([st EXCEPT !.verb = IF op.mode \in {"quiet", "info", "debug"} THEN op.mode ELSE @])
    [] op.op = "clear" -> Done([st EXCEPT !.set = Defaults, !.verb = "info"])
    [] op.op = "find" -> LET x == Raw(st, op.k)  t == st.sp.tab  ipl == IF Opt(op, "ipl", "poly") = "poly" THEN "poly" ELSE "lin"
                         IN Out(st, Num(Tup([i \in 1 .. Len(x) |-> FindPk(t, x[i], ipl)]), Tup([i \in 1 .. Len(x) |-> FindPkScale(t, x[i], ipl)]), D("1e-11")))
    [] op.op = "sig" -> LET x == Raw(st, op.k)  t == st.sp.tab  s == SigmaD2Scale(t)
                        IN Out(st, Num(Tup([i \in 1 .. Len(x) |-> SigmaD2(t, x[i], Opt(op, "uv", D("0.5")))]), Tup([i \in 1 .. Len(x) |-> s]), D("1e-13")))
    [] op.op = "nodes" -> LET r == ev.ret  b == IF ev.exc = "" THEN NodesBad(op.n, op.lo, op.hi, r[1], r[2]) ELSE <<>>
                          IN [Out(st, <<"any">>) EXCEPT !.bad = b]
    [] op.op = "ipoly" -> LET tx == Raw(st, op.tx)  ty == Raw(st, op.ty)
                          IN Out(st, Num(<<PolyThrough(tx, ty, 1, Len(tx), op.x)>>, <<PolyScale(tx, ty, 1, Len(tx), op.x)>>, D("1e-11")))
    [] op.op = "ilin" -> LET tx == Raw(st, op.tx)  ty == Raw(st, op.ty)  n == Len(tx)
                         IN Out(st, Num(<<Line(tx[1], tx[n], ty[1], ty[n], op.x)>>, <<(Abs(ty[1]) + Abs(ty[n])) * (1 + Abs((op.x - tx[1]) / (tx[n] - tx[1])))>>, D("1e-13")))
    [] op.op = "kern" -> [Out(st, <<"any">>) EXCEPT !.bad = IF ev.exc = "" /\ ~Nothing(ev.ret) THEN KernBad(op, ev.ret) ELSE <<>>]
    [] op.op = "pts" -> Done([st EXCEPT !.pts = op.v])
    [] op.op = "suave" -> [Out(st, <<"any">>) EXCEPT !.bad = IF ev.ret[2] = 0 /\ ev.ret[3] = 0 /\ ev.ret[4] = 0 THEN <<>> ELSE <<"the integrator was called with other dimensions or components">>]
    \* containers
    [] op.op = "copy" -> Done(Copy(st, op.h, op.o))
    [] op.op = "deep" -> Done(Deep(st, op.h, op.o))
    [] op.op = "sl" -> Done(Slice(st, op.h, op.o, op.ix))
    [] op.op \in {"get", "attrk"} -> LET c == Opt(op, "c", "k") IN IF c \in Cols(st, op.h) THEN Out(st, Same(Get(st, op.h, c))) ELSE Raise(st, "KeyError")
    [] op.op = "setc" -> Done(Bind(st, op.h, op.c, Col(st, op.v, "v")))
    [] op.op = "setv" -> Done(SetRows(st, op.h, op.ix, op.v))
    [] op.op = "pop" -> IF op.c \in Cols(st, op.h) THEN Out(Unbind(st, op.h, op.c), Same(Get(st, op.h, op.c))) ELSE Raise(st, "KeyError")
    [] op.op = "has" -> Out(st, <<"is", op.c \in Cols(st, op.h)>>)
    [] op.op = "iter" -> Out(st, <<"is", SelectSeq(Fields(st.obj[op.h].cls), LAMBDA c : c \in Cols(st, op.h))>>)
    [] op.op = "fields" -> Out(st, <<"set", Cols(st, op.h)>>)
    [] op.op = "len" -> IF "k" \in Cols(st, op.h) THEN Out(st, <<"is", <<Rows(Col(st, op.h, "k")), Rows(Col(st, op.h, "k"))>> >>) ELSE Raise(st, "KeyError")
    [] op.op = "tolist" -> Out(st, <<"nums", LET cs == SelectSeq(Fields(st.obj[op.h].cls), LAMBDA c : c \in Cols(st, op.h)) IN Tup([i \in 1 .. Len(cs) |-> Get(st, op.h, cs[i])])>>)
    [] op.op = "asd" -> LET want == IF "f" \in DOMAIN op THEN {op.f[i] : i \in 1 .. Len(op.f)} ELSE Cols(st, op.h)
                        IN IF want \subseteq Cols(st, op.h) THEN Out(st, <<"rec", [c \in want |-> Get(st, op.h, c)]>>) ELSE Raise(st, "KeyError")
    [] op.op = "nan0" -> IF HasAll(st, op.h) THEN Done(NanToZero(st, op.h)) ELSE Raise(NanToZero(st, op.h), "KeyError")
    [] op.op = "resc" -> Done(Rescale(st, op.h, Opt(op, "D", 1)))
    [] op.op = "pad" ->
         LET cls == st.obj[op.h].cls
             kv == Opt(op, "kv", [x \in {} |-> 0])
             s == Pad(st, op.h, Raw(st, op.k), Opt(op, "mode", "constant"), Opt(op, "cv", Flt(0)), kv)
             ks == Get(s, op.h, "k")  n == Len(ks)  t == st.sp.tab
             ipl == IF Opt(op, "ipl", "poly") = "poly" THEN "poly" ELSE "lin"
             s1 == IF cls \in LibClasses
                   THEN SetNew(SetNew(s, op.h, "pk_lin", Tup([i \in 1 .. n |-> FindPk(t, ks[i], ipl)]), <<n>>),
                               op.h, "sigmad2", Tup([i \in 1 .. n |-> SigmaD2(t, ks[i], D("0.5"))]), <<n>>)
                   ELSE s
         IN [Done(s1) EXCEPT !.tol = D("1e-10")]
    \* assembled quantities
    [] op.op = "pk" -> LET v == PkOf(st, op.h, op) IN Out(st, Num(v, PkSc(v), D("1e-11")))
    [] op.op = "acc" -> Out(st, NumR(Accessor(st, op.h, op)))
    [] op.op = "interp" -> LET v == InterpPk(st, op.h, op) IN Out(st, Num(v, PkSc(v), D("1e-11")))
    [] op.op = "rsd" -> LET v == Rsd(st, op.h, op) IN Out(st, Num(v[1], v[2], D("1e-12")))
    [] op.op = "sv" -> Out(st, NumR(<<SigmaV(Get(st, op.h, "k"), PkOf(st, op.h, op))>>))
    [] op.op \in {"sr", "s8"} -> LET k == Get(st, op.h, "k")  p == PkOf(st, op.h, op)  r == Opt(op, "R", Flt(8))  v == SigmaR(k, p, r) IN Out(st, Num(<<v>>, <<v + SigmaRs(k, p, r)>>, D("1e-9")))
    [] op.op = "shot" -> LET ks == Get(st, op.h, "k") IN Out(st, NumR(Tup([i \in 1 .. Len(ks) |-> ShotNoise(ks[i], Opt(op, "kmin", D("5e-4")), Opt(op, "kmax", D("10")))])))
    [] op.op = "trans" -> LET v == NoWiggle(st, op.h, op.c) IN Out(st, Num(v, v, D("1e-11")))
    [] op.op = "nwrun" -> [Done(NoWiggleRun(st, op)) EXCEPT !.tol = D("1e-11")]
    [] op.op = "clib" -> IF Nothing(ev.ret) THEN Out(st, <<"any">>) ELSE LET v == PkOf(st, op.h, op) IN Out(st, Num(v, PkSc(v), D("1e-12")))
    [] op.op = "cb" -> IF Nothing(ev.ret) THEN Out(st, <<"any">>) ELSE Out(st, CB(st, op))
    [] op.op = "cpk" -> IF Nothing(ev.ret) THEN Out(st, <<"any">>) ELSE LET v == CPk(st, op) IN Out(st, Num(v, PkSc(v), D("1e-7")))
    \* balance of the library's heap at the end of a cycle
    [] op.op = "mark" -> LET n == Len(st.marks)
                         IN [Done([st EXCEPT !.marks = Append(@, ev.st[1])]) EXCEPT
                              !.bad = IF n < 2 \/ ev.st[1] \leq st.marks[2] THEN <<>>
                                      ELSE <<"blocks of the library in use grow from cycle to cycle: " \o Txt(Append(st.marks, ev.st[1]))>>]
=============================================================================
