------------------------------- MODULE Inputs -------------------------------
(* Inputs from which behaviours are built: tables, wavenumber lists, and the  *)
(* operations themselves as records.                                          *)
EXTENDS Terms, FiniteSets
LOCAL INSTANCE TLC

Seed == IF Env("VERIF_SEED") = "" THEN 1 ELSE Int(Env("VERIF_SEED"))
Thorough == Env("VERIF_TIER") = "thorough"
Pick(q, t) == IF Thorough THEN t ELSE q

(* ---- sequences ------------------------------------------------------------- *)
Upto(n) == Tup([j \in 1 .. n |-> j])
Map(f(_), s) == Tup([j \in 1 .. Len(s) |-> f(s[j])])
Flat(ss) == FoldLeft(LAMBDA x, y : x \o y, <<>>, ss)
Over(S, f(_)) == Map(f, SetSeq(S))                   \* in some order
FlatOver(s, f(_)) == Flat(Map(f, s))
At(s, n) == s[((n - 1) % Len(s)) + 1]
(* a fixed scrambling of 1..n                                                  *)
Prime(n) == CHOOSE p \in {7, 11, 13, 17, 19} : n % p # 0
Scramble(s) == LET n == Len(s)  p == Prime(n) IN Tup([j \in 1 .. n |-> s[((p * j) % n) + 1]])
(* increasing order *)
SortSeqNum(s) == Tup([j \in 1 .. Len(s) |-> LET at(x) == Cardinality({i \in 1 .. Len(s) : s[i] < x})
                                                 eq(x) == Cardinality({i \in 1 .. Len(s) : Eq(s[i], x)})
                                             IN s[CHOOSE i \in 1 .. Len(s) : at(s[i]) < j /\ j \leq at(s[i]) + eq(s[i])]])
(* pseudo-random number in [0, 1) from a counter                               *)
Frac(x) == x - Floor(x)
U(i) == Frac(Abs(Sin(i * D("12.9898") + Seed * D("78.233") + D("0.317"))) * D("43758.5453"))
UInt(i, n) == Floor(U(i) * n)

(* ---- tables ------------------------------------------------------------------ *)
Geom(lo, hi, n) == Tup([j \in 1 .. n |-> D(lo) * Exp((Log(D(hi) / D(lo)) * (j - 1)) / (n - 1))])
Cdm(k) == ((20000 * (k / D("0.02"))) / Pow(1 + Sq(k / D("0.02")), D("1.25"))) * (1 + D("0.05") * Sin(110 * k) * Exp(-Sq(8 * k)))
Smooth(k, f(_)) == <<k, Map(f, k)>>
(* irregular spacing                                                              *)
Irregular(lo, hi, n, salt) ==
  LET g == Tup([j \in 1 .. n |-> D("0.15") + U(salt + j)])
      s == Sum(g) - g[1]
      at(j) == (Sum(SubSeq(g, 1, j)) - g[1]) / s
  IN Tup([j \in 1 .. n |-> D(lo) * Exp(Log(D(hi) / D(lo)) * at(j))])
With(tab, i, v) == <<tab[1], [tab[2] EXCEPT ![i] = v]>>
Table(name) ==
  CASE name = "cdm"   -> Smooth(Geom("1e-3", "5", 48), Cdm)
    [] name = "cdm2"  -> Smooth(Geom("1.3e-3", "7", 37), LAMBDA k : D("0.83") * Cdm(k * D("1.21")))
    [] name = "cdm3"  -> Smooth(Geom("1e-3", "5", 48), LAMBDA k : D("0.7") * Cdm(k * D("0.8")) * Pow(k, D("0.13")))
    [] name = "coarse" -> Smooth(Geom("2e-3", "4", 14), Cdm)
    [] name = "fine"  -> Smooth(Geom("4e-4", "20", 150), Cdm)
    [] name = "long"  -> Smooth(Geom("4e-4", "30", 1500), Cdm)
    [] name = "longer" -> Smooth(Geom("4e-4", "30", 5200), Cdm)
    [] name = "linear" -> Smooth(Tup([j \in 1 .. 700 |-> D("0.002") + D("0.005") * j]), Cdm)
    [] name = "plaw"  -> Smooth(Geom("1e-3", "8", 33), LAMBDA k : 40 * Pow(k, -D("1.5")))
    [] name = "steep" -> Smooth(Geom("5e-4", "80", 40), LAMBDA k : Pow(k, -D("3.2")))
    [] name = "irr"   -> Smooth(Irregular("1e-3", "6", 41, 100), Cdm)
    \* positive inside, non-positive near both ends: nothing beyond the table
    [] name = "dip"   -> LET t == Smooth(Geom("1e-3", "5", 44), Cdm) IN With(With(t, 4, Flt(0)), 41, -D("0.02"))
    \* negative in the middle
    [] name = "neg"   -> LET t == Smooth(Geom("1e-3", "5", 50), Cdm) IN With(With(t, 24, -D("120")), 27, Flt(0))
    [] name = "t3"    -> <<<<D("0.01"), D("0.1"), D("0.7")>>, <<D("900"), D("1400"), D("50")>>>>
    [] name = "t4"    -> <<<<D("0.01"), D("0.05"), D("0.3"), D("2")>>, <<D("900"), D("2400"), D("1500"), D("12")>>>>
    [] name = "t5"    -> <<<<D("0.004"), D("0.02"), D("0.1"), D("0.9"), D("1.3")>>, <<D("5"), D("60"), D("44"), D("70"), D("3")>>>>
    [] name = "t6"    -> <<<<D("0.004"), D("0.02"), D("0.1"), D("0.3"), D("0.9"), D("3")>>, <<D("500"), D("60"), D("-4"), D("70"), D("8"), D("2")>>>>
RandomTable(salt) ==
  LET n == 3 + UInt(salt, Pick(30, 60))
      k == Irregular("2e-3", "9", n, salt + 10)
  IN <<k, Tup([j \in 1 .. n |-> D("0.05") + 300 * U(salt + 500 + j) * U(salt + 900 + j)])>>
(* a table of n points with a non-positive power at point i                       *)
HoleTable(n, i, v) == With(Smooth(Geom("1e-3", "5", n), Cdm), i, v)

(* wavenumbers around a table: on, next to and between points, outside              *)
Between(k, f) == Tup([j \in 1 .. (Len(k) - 1) |-> k[j] + f * (k[j+1] - k[j])])
Queries(k) ==
  LET n == Len(k) IN
  k \o Between(k, D("0.5")) \o Between(k, D("0.93")) \o Between(k, D("1e-9")) \o Between(k, D("0.07"))
    \o << k[1] * D("0.9999999"), k[1] / 2, k[1] / 300, k[n] * D("1.0000001"), k[n] * 3, k[n] * 500 >>
Thin(s, m) == Tup([j \in 1 .. m |-> s[((j * 37) % Len(s)) + 1]])

(* ---- operations ------------------------------------------------------------------ *)
Arr(h, v) == [op |-> "arr", h |-> h, v |-> Map(Flt, v)]
ArrAs(h, v, lay) == [op |-> "arr", h |-> h, v |-> Map(Flt, v), lay |-> lay]
PokeArr(h, f) == [op |-> "poke", h |-> h, f |-> f]
New(h, cls) == [op |-> "new", h |-> h, cls |-> cls]
Lin(h, k, p) == [op |-> "lin", h |-> h, k |-> k, p |-> p]
RegML(h, s, m, l) == [op |-> "reg", h |-> h, s |-> s, m |-> m, l |-> l]
Reg(h, s) == RegML(h, s, 0, 0)
RegKML(h, k, p, m, l) == [op |-> "regk", h |-> h, k |-> k, p |-> p, m |-> m, l |-> l]
RegK(h, k, p) == RegKML(h, k, p, 0, 0)
Grid(h, k) == [op |-> "grid", h |-> h, k |-> k]
Quiet(h) == [op |-> "verb", h |-> h, mode |-> "quiet"]
Verb(h, m) == [op |-> "verb", h |-> h, mode |-> m]
Go(h, nt) == [op |-> "run", h |-> h, nt |-> nt, abs |-> <<>>]
GoAbs(h, nt, cols) == [op |-> "run", h |-> h, nt |-> nt, abs |-> cols]
Fields2(a, b) == [a |-> a, b |-> b]
GoF(h, a, b, nt) == Fields2(a, b) @@ Go(h, nt)
GoFAbs(h, a, b, nt, cols) == Fields2(a, b) @@ GoAbs(h, nt, cols)
SetN(h, name, n) == [op |-> "prec", h |-> h, name |-> name, n |-> n]
SetR(h, name, lo, hi) == [op |-> "prec", h |-> h, name |-> name, min |-> Flt(lo), max |-> Flt(hi)]
SetNR(h, name, n, lo, hi) == [n |-> n] @@ SetR(h, name, lo, hi)
SetI(h, name, ipl) == [op |-> "prec", h |-> h, name |-> name, ipl |-> ipl]
Reset(h, name) == [op |-> "prec", h |-> h, name |-> name]
Cut(h, name, uv) == [op |-> "cut", h |-> h, name |-> name, uv |-> Flt(uv)]
Find(h, k, ipl) == [op |-> "find", h |-> h, k |-> k, ipl |-> ipl]
Sig(h, k, uv) == [op |-> "sig", h |-> h, k |-> k, uv |-> Flt(uv)]
Pts(v) == [op |-> "pts", v |-> v]
Op(name) == [op |-> name]
OpH(name, h) == [op |-> name, h |-> h]
Again == Op("restart")
Drop(hs) == [op |-> "drop", hs |-> hs]

IsSpectrum(cls) == cls \in {"Spectrum1Loop", "Spectrum2Loop"}
GoCls(h, cls, a, b, nt, cols) == IF IsSpectrum(cls) THEN GoFAbs(h, a, b, nt, cols) ELSE GoAbs(h, nt, cols)
(* table t as handles kN, pN and object sN                                           *)
TableOps(t, s) == << Arr("k" \o s, t[1]), Arr("p" \o s, t[2]), Lin("s" \o s, "k" \o s, "p" \o s) >>
(* points of the integrator                                                           *)
Points(n, salt) == Tup([j \in 1 .. (5 * n) |-> D("0.02") + D("0.96") * U(salt + j)])
Beh(id, ops) == [id |-> id, ops |-> ops]
=============================================================================
