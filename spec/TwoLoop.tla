------------------------------ MODULE TwoLoop ------------------------------
(* Two-loop power-spectrum terms: propagator (C20), one-loop correction to   *)
(* the two-point propagator (C21) and the three-point integrand (C22).       *)
EXTENDS OneLoop

(* ---- two-loop propagator: published fit in (q1/k, q2/k) ----------------- *)
FitBeta(fld, x1, x2) ==
  LET y == Abs((x1 - x2) / (x1 + x2))
      d == 1 - y
      y2 == y * y  y4 == y2 * y2  y8 == y4 * y4  y10 == y8 * y2  y12 == y8 * y4
  IN IF fld = "theta" THEN
       IF Abs(d) < D("0.05") THEN 594232 / 33108075 + ((91912 / 33108075) * d) * d + (91912 / 33108075) * Cube(d) + (1818458 / 1092566475) * IPow(d, 4)
       ELSE IF y < D("0.01") THEN 9886 / 429975 - (254356 / 4729725) * y2
       ELSE ((2 * (1 + y2)) * (-54373 + 562162 * y2 - 408245 * y4 + 408245 * y8 - 562162 * y10 + 54373 * y12
              + 120 * y4 * (14561 - 10690 * y2 + 14561 * y4) * Log(y))) / (4729725 * IPow(y2 - 1, 7))
     ELSE
       IF Abs(d) < D("0.05") THEN 120424 / 3009825 + ((2792 / 429975) * d) * d + (2792 / 429975) * Cube(d) + (392606 / 99324225) * IPow(d, 4)
       ELSE IF y < D("0.01") THEN 22382 / 429975 - (57052 / 429975) * y2
       ELSE ((2 * (1 + y2)) * (-11191 + 118054 * y2 - 18215 * y4 + 18215 * y8 - 118054 * y10 + 11191 * y12
              + 120 * y4 * (3467 - 790 * y2 + 3467 * y4) * Log(y))) / (429975 * IPow(y2 - 1, 7))
FitC(fld, s) == LET s2 == s * s  s3 == s2 * s  s4 == s2 * s2 IN
  IF fld = "theta" THEN -D("0.008217140060512867") / (D("42.14072830553836") * s4 + D("1.367564560397748") * s2 + 1)
                        + (D("0.01099093588476197") * s3) / (D("28.490424851390667") * s4 * s4 + 1)
  ELSE D("0.02088557981734545") / (D("35.09866396385646") * s4 + D("4.133811416743832") * s2 + 1)
       - (D("0.076100391588544") * s3) / (D("77.79670692480381") * s2 * s4 + 1)
FitD(fld, r) == LET r2 == r * r  r4 == r2 * r2  r5 == r4 * r IN
  IF fld = "theta" THEN D("0.008023147297149955") / (D("2.238261369090066") * r5 + 1)
                        - (D("0.006173880966928251") * r2) / (D("0.4711737436482179") * r5 + 1)
  ELSE -D("0.022168478217299517") / (D("7.030631093970638") * r4 + D("2.457866449142683") * r2 + 1)
       + (D("0.009267495321465601") * r2) / (D("4.11633699497035") * r4 * r4 * r2 + 1)
FitE(fld, s_) == LET s2 == 2 * s_ * s_  s4 == s2 * s2 IN
  IF fld = "theta" THEN (D("1.528058751211026") * (D("2.4414566000839355") * s4 + D("1.8616263354608626") * s2)) / (D("2.4414566000839355") * s4 + 1)
                        + D("2.5227965281961247") / (D("0.0028106312591877226") * s4 + D("1.0332351481570086") * s2 + 1) - D("0.528058751211026")
  ELSE (D("0.3191221482038663") * s4) / (D("1.3549058352752525") * s4 + 1)
       + D("1.2805575495849764") / (D("18.192939946270577") * s4 + D("3.98817716852858") * s2 + 1) + D("0.764469131436698")
FitAlpha(fld, x1, x2) ==
  LET r == Sqrt(x1 * x1 + x2 * x2)  s == (x1 * x2) / r
  IN (FitBeta(fld, x1, x2) - FitC(fld, s) - FitD(fld, r)) * FitE(fld, s)
(* <<integral, magnitude>> / (4 pi^4), to which (Gamma1Loop)^2/2 is added      *)
Gamma1TwoLoop(fld, k, g) ==
  LET term(i, j) == LET v == -(((((FitAlpha(fld, g.q[i] / k, g.q[j] / k) / ((Sq(g.q[i]) + Sq(g.q[j])) / (k * k))) * Cube(g.q[i] * g.q[j])) * g.p[i]) * g.p[j]) * g.w[i]) * g.w[j]
                    IN <<v, Abs(v)>>
      row(i) == VSum(Tup([j \in 1 .. g.n |-> term(i, j)]))
  IN VScale(1 / (4 * IPow(Pi, 4)), VSum(Tup([i \in 1 .. g.n |-> row(i)])))

(* ---- one-loop correction to Gamma2 -------------------------------------- *)
(* 24 pi x angular average of <<F4, G4>>(q, -q, k1, k2) for the triangle       *)
(* (k1, k2, k3), by an n x n grid (Gauss-Legendre in the cosine to k1,         *)
(* midpoint in azimuth); followed by the averages of the magnitudes.           *)
LoopKernel(k1, k2, k3, q, n) ==
  LET c == (k3 * k3 - k1 * k1 - k2 * k2) / (2 * k1 * k2)
      s == Sqrt(Max2(Flt(0), 1 - c * c))
      K1 == <<Flt(0), Flt(0), Flt(k1)>>
      K2 == <<k2 * s, Flt(0), k2 * c>>
      g == GL(n)
      at(i, j) == LET ph == ((j - 1 / 2) * Pi) / n
                      st == Sqrt(1 - g.z[i] * g.z[i])
                      v == F4loop(<<q * st * Cos(ph), q * st * Sin(ph), q * g.z[i]>>, K1, K2)
                      w == g.w[i] / (2 * n)
                  IN <<w * v[1], w * v[2], w * Abs(v[1]), w * Abs(v[2])>>
      row(i) == VSum(Tup([j \in 1 .. n |-> at(i, j)]))
  IN VScale(24 * Pi, VSum(Tup([i \in 1 .. n |-> row(i)])))

(* Integral over the loop: gd, gt are the grids of the density and velocity    *)
(* settings: << G_delta, G_theta, scale_delta, scale_theta >>                   *)
Gamma2Loop(k1, k2, k3, gd, gt, n) ==
  LET one(g, i) == IF Eq(g.p[i], 0) THEN <<Flt(0), Flt(0), Flt(0), Flt(0)>> ELSE VScale(((g.w[i] * Cube(g.q[i])) * g.p[i]) / (8 * Cube(Pi)), LoopKernel(k1, k2, k3, g.q[i], n))
      sd == VSum(Tup([i \in 1 .. gd.n |-> one(gd, i)]))
      st == IF gt = gd THEN sd ELSE VSum(Tup([i \in 1 .. gt.n |-> one(gt, i)]))
  IN <<sd[1], st[2], sd[3], st[4]>>

(* <<tree-loop, loop-loop, scales>> for fields a, b                             *)
LoopTerms(a, b, k, g, nmu, iplmu, t, gd, gt, n) ==
  LET ix(f) == IF f = "theta" THEN 2 ELSE 1
      kern(i, x, m) ==
        LET kq == k * Sqrt(1 + x * x - 2 * m * x)
            q == g.q[i]
            d == (k * k - kq * kq - q * q) / 2
            Fa == F2(a, q * q, kq * kq, d)  Fb == F2(b, q * q, kq * kq, d)
            G == Gamma2Loop(kq, q, k, gd, gt, n)
            Ga == G[ix(a)]  Gb == G[ix(b)]  Sa == Abs(G[2 + ix(a)])  Sb == Abs(G[2 + ix(b)])
            pp == 2 * g.p[i] * FindPk(t, kq, iplmu)
        IN << pp * (Fa * Gb + Ga * Fb), pp * Ga * Gb, Abs(pp) * (Abs(Fa) * Sb + Sa * Abs(Fb)), Abs(pp) * Sa * Sb >>
      s == VScale(Cube(k) / (2 * Pi * Pi), QMuSum(g, nmu, k, TRUE, kern, Cube))
  IN IF s = <<>> THEN <<Flt(0), Flt(0), Flt(0), Flt(0)>> ELSE s

(* ---- three-point integrand ----------------------------------------------- *)
(* value at a point x of the unit hypercube for wavenumber k, range r          *)
Gamma3At(a, b, k, x, r, ipl, t) ==
  LET L == Log(r[2]) - Log(r[1])
      p == Exp(Log(r[1]) + L * x[1])  q == Exp(Log(r[1]) + L * x[4])
      t1 == x[2] * Pi  f1 == x[3] * 2 * Pi  t2 == x[5] * Pi
      P == <<p * Sin(t1) * Cos(f1), p * Sin(t1) * Sin(f1), p * Cos(t1)>>
      Q == <<q * Sin(t2), Flt(0), q * Cos(t2)>>
      K == <<Flt(0), Flt(0), Flt(k)>>
      KP == Sub3(K, P)
      R == Sub3(KP, Q)
      rr == Norm3(R)
      in == rr \geq r[1] /\ rr \leq r[2] /\ Dot3(Q, KP) \leq Dot3(KP, KP) / 2
      T == Triple(Leg(P), Leg(Q), Leg(R))
  IN IF ~in THEN Flt(0)
     ELSE 2 * Val(a, T) * Val(b, T) * FindPk(t, p, ipl) * FindPk(t, q, ipl) * FindPk(t, rr, ipl)
          * Cube(p) * Cube(q) * Sin(t1) * Sin(t2) * Sq(L * Pi * 2 * Pi)
(* points so close to the edge of the domain that rounding decides              *)
Gamma3Edge(k, x, r) ==
  LET L == Log(r[2]) - Log(r[1])
      p == Exp(Log(r[1]) + L * x[1])  q == Exp(Log(r[1]) + L * x[4])
      t1 == x[2] * Pi  f1 == x[3] * 2 * Pi  t2 == x[5] * Pi
      KP == <<-p * Sin(t1) * Cos(f1), -p * Sin(t1) * Sin(f1), k - p * Cos(t1)>>
      Q == <<q * Sin(t2), Flt(0), q * Cos(t2)>>
      rr == Norm3(Sub3(KP, Q))
      near(u, v) == Abs(u - v) \leq D("1e-9") * (Abs(u) + Abs(v))
  IN near(rr, r[1]) \/ near(rr, r[2]) \/ near(Dot3(Q, KP), Dot3(KP, KP) / 2)
============================================================================
