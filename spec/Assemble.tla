------------------------------ MODULE Assemble ------------------------------
(* Formulas evaluated on the columns of an object (C15, C24, C26): one row r  *)
(* (a record of column values) at a time unless said otherwise.               *)
EXTENDS F64, Sequences

OneLoopPk(r, Dg, s) ==
  LET x == (Sq(r.k * Dg) * s) / 2
      ga == Dg * Exp(-x) * (1 + x + Dg * Dg * r.gamma1a_1loop)
      gb == Dg * Exp(-x) * (1 + x + Dg * Dg * r.gamma1b_1loop)
  IN ga * gb * r.pk_lin + IPow(Dg, 4) * Exp(-(2 * x)) * r.pk_gamma2_tree_tree

TwoLoopPk(r, Dg, s) ==
  LET x == (Sq(r.k * Dg) * s) / 2
      d2 == Dg * Dg
      ga == Dg * Exp(-x) * (1 + x + (x * x) / 2 + d2 * r.gamma1a_1loop * (1 + x) + d2 * d2 * r.gamma1a_2loop)
      gb == Dg * Exp(-x) * (1 + x + (x * x) / 2 + d2 * r.gamma1b_1loop * (1 + x) + d2 * d2 * r.gamma1b_2loop)
      e2 == Exp(-(2 * x))
  IN ga * gb * r.pk_lin
     + IPow(Dg, 4) * e2 * (r.pk_gamma2_tree_tree * Sq(1 + x) + d2 * r.pk_gamma2_tree_1loop * (1 + x) + d2 * d2 * r.pk_gamma2_1loop_1loop)
     + IPow(Dg, 6) * e2 * r.pk_gamma3_tree

Damped(v, k, Dg, s) == LET x == (Sq(k * Dg) * s) / 2 IN IPow(Dg, 4) * Exp(-(2 * x)) * Sq(1 + x) * v

(* linear interpolation of ys over increasing xs, given end values               *)
Interp(x, xs, ys, left, right) ==
  IF x < xs[1] THEN left
  ELSE IF x > xs[Len(xs)] THEN right
  ELSE LET i == Rank(xs, x)
       IN IF i = Len(xs) THEN ys[i] ELSE ys[i] + ((ys[i+1] - ys[i]) * (x - xs[i])) / (xs[i+1] - xs[i])

(* <<power of mu^2, power of beta>> of each component                             *)
APowers == << <<1,1>>, <<1,2>>, <<2,2>>, <<2,3>>, <<3,3>> >>
BPowers == << <<1,2>>, <<1,3>>, <<1,4>>, <<2,2>>, <<2,3>>, <<2,4>>, <<3,3>>, <<3,4>>, <<4,4>> >>
RsdInterp(pw, x, ks, comps, mu2, beta, Dg, left, right) ==
  LET c == [i \in 1 .. Len(pw) |->
             IPow(mu2, pw[i][1]) * IPow(beta, pw[i][2]) *
             Interp(x, ks, Tup([j \in 1 .. Len(ks) |-> IPow(Dg, 4) * comps[j][i]]), left, right)]
  IN <<Sum(Tup(c)), SumAbs(Tup(c))>>

Trapz(y, x) == Sum(Tup([i \in 1 .. (Len(x) - 1) |-> ((y[i] + y[i+1]) * (x[i+1] - x[i])) / 2]))
SigmaV(k, p) == Sqrt((Trapz(p, k) / 6) / (Pi * Pi))
TopHat(x) == (3 * (Sin(x) - x * Cos(x))) / Cube(x)
SigmaR(k, p, r) == Sqrt((Trapz(Tup([i \in 1 .. Len(k) |-> p[i] * Sq(TopHat(k[i] * r) * k[i])]), k) / 2) / (Pi * Pi))
(* and the weight of the roundings: of the difference of nearly equal terms in   *)
(* the window, of the order of eps / x^2 whichever way it is arranged             *)
SigmaRs(k, p, r) ==
  LET w == [i \in 1 .. Len(k) |-> Abs(TopHat(k[i] * r))]
      s(e) == Sqrt((Trapz(Tup([i \in 1 .. Len(k) |-> Abs(p[i]) * Sq((w[i] + e / Sq(k[i] * r)) * k[i])]), k) / 2) / (Pi * Pi))
  IN D("1e9") * (s(D("2e-15")) - s(Flt(0)))

(* Eisenstein & Hu 1998 no-wiggle transfer function (eqs 26, 28-31)               *)
NoWiggleT(k, h, ob, om, Tcmb) ==
  LET fb == ob / om
      th == Tcmb / D("2.7")
      s == ((D("44.5") * h) * Log(D("9.83") / om)) / Sqrt(1 + 10 * Pow(ob, D("0.75")))
      al == 1 - D("0.328") * Log(431 * om) * fb + D("0.38") * Log(D("22.3") * om) * fb * fb
      gam == (om / h) * (al + (1 - al) / (1 + IPow(D("0.43") * k * s, 4)))
      q == ((k * th) * th) / gam
      L == Log(2 * Exp(Flt(1)) + D("1.8") * q)
      C == D("14.2") + 731 / (1 + D("62.5") * q)
  IN L / (L + C * q * q)
ShotNoise(k, lo, hi) == IF k > hi THEN Exp(-Sq(k / hi - 1)) ELSE IF k < lo THEN Exp(-Sq(lo / k - 1)) ELSE Flt(1)
=============================================================================
