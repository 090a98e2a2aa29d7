-------------------------------- MODULE ATwo --------------------------------
(* Two-loop A correction (C22, C23): regularised one-loop bispectrum.         *)
EXTENDS TwoLoop

(* projections on the powers of mu and f: n = 1 (m,n) = ... six kernels, three distinct *)
ProjA(x, m) == LET s == 1 + x * x - 2 * m * x IN <<
  x * m,
  -((((x * x) * (3 * x * m - 2)) * (m * m - 1)) / s) / 2,
  ((x * (2 * m + x * (2 - 6 * m * m) + x * x * m * (-3 + 5 * m * m))) / s) / 2 >>
ProjT(x, m) == LET s == 1 + x * x - 2 * m * x IN <<
  -((x * x) * (x * m - 1)) / s,
  ((((x * x) * (3 * x * m - 1)) * (m * m - 1)) / s) / 2,
  (((x * x) * (-1 + 3 * x * m + 3 * m * m - 5 * x * Cube(m))) / s) / 2 >>

(* Combine the four bispectra b = <<211, 221, 212, 222>> of each ordering into  *)
(* the five components                                                          *)
AComp(pa, pt, b, bt) == <<
  pa[1] * b[1] + pt[1] * bt[1],
  pa[2] * b[2] + pt[2] * bt[2],
  pa[3] * b[2] + pt[3] * bt[2] + pa[1] * b[3] + pt[1] * bt[3],
  pa[2] * b[4] + pt[2] * bt[4],
  pa[3] * b[4] + pt[3] * bt[4] >>

(* ---- part I: products of regularised propagators --------------------------- *)
(* env: [t, ipl, uv, g1 (gamma1 grid), gd, gt (loop grids), n]                   *)
RegBisp(k, p, kp, e) ==
  LET sk == SigmaD2(e.t, k, e.uv)  sp == SigmaD2(e.t, p, e.uv)  skp == SigmaD2(e.t, kp, e.uv)
      damp == Exp(-(k * k * sk + p * p * sp + kp * kp * skp) / 2)
      g1(w, s, on) == IF on THEN LET c == 1 + ((w * w) * s) / 2
                                 IN [delta |-> c + Gamma1Loop("delta", w, e.g1), theta |-> c + Gamma1Loop("theta", w, e.g1)]
                      ELSE [delta |-> Flt(1), theta |-> Flt(1)]
      Hk == g1(k, sk, k \geq D("1e-2"))
      Hp == g1(p, sp, p \geq D("1e-2") /\ k \geq D("1e-2"))
      Hkp == g1(kp, skp, kp \geq D("3e-2") /\ k \geq D("1e-2"))
      tree(f, a, b, c) == F2(f, a * a, b * b, (c * c - a * a - b * b) / 2)
      g2(a, b, c, s) ==
        IF k \geq D("1e-2")
        THEN LET G == Gamma2Loop(a, b, c, e.gd, e.gt, e.n)
             IN [delta |-> tree("delta", a, b, c) * (1 + ((c * c) * s) / 2) + G[1],
                 theta |-> tree("theta", a, b, c) * (1 + ((c * c) * s) / 2) + G[2]]
        ELSE [delta |-> tree("delta", a, b, c), theta |-> tree("theta", a, b, c)]
      Jkpk == g2(kp, k, p, sp)      \* incoming kp, k, total p
      Jpk == g2(p, k, kp, skp)
      Jpkp == g2(p, kp, k, sk)
      Pk == FindPk(e.t, k, e.ipl)  Pp == FindPk(e.t, p, e.ipl)  Pkp == FindPk(e.t, kp, e.ipl)
      \* B_{theta b c}(p, kp, k): first leg theta on p, then field b on kp, c on k
      bis(b, c) == 2 * damp * ( Jkpk["theta"] * Hkp[b] * Hk[c] * Pkp * Pk
                              + Jpk[b] * Hp["theta"] * Hk[c] * Pp * Pk
                              + Jpkp[c] * Hp["theta"] * Hkp[b] * Pp * Pkp )
      \* the other ordering: theta on kp, b on p
      bisT(b, c) == 2 * damp * ( Jpk["theta"] * Hp[b] * Hk[c] * Pp * Pk
                               + Jkpk[b] * Hkp["theta"] * Hk[c] * Pkp * Pk
                               + Jpkp[c] * Hkp["theta"] * Hp[b] * Pkp * Pp )
  IN [b |-> <<bis("delta", "delta"), bis("theta", "delta"), bis("delta", "theta"), bis("theta", "theta")>>,
      bt |-> <<bisT("delta", "delta"), bisT("theta", "delta"), bisT("delta", "theta"), bisT("theta", "theta")>>]

ATwoI(k, g, nmu, e) ==
  LET kern(i, x, m) ==
        LET kq == k * Sqrt(1 + x * x - 2 * m * x)
            B == RegBisp(k, g.q[i], kq, e)
            c == AComp(ProjA(x, m), ProjT(x, m), B.b, B.bt)
        IN c \o Tup([j \in 1 .. 5 |-> Abs(c[j])])
      id(x) == x
      s == VScale(Cube(k) / (2 * Pi * Pi), QMuSum(g, nmu, k, TRUE, kern, id))
  IN IF s = <<>> THEN [val |-> Tup([j \in 1 .. 5 |-> Flt(0)]), sc |-> Tup([j \in 1 .. 5 |-> Flt(0)])]
     ELSE [val |-> SubSeq(s, 1, 5), sc |-> SubSeq(s, 6, 10)]

(* ---- parts II and III: the two one-loop diagrams at loop momentum q ---------- *)
(* legs K[1..3] with fields F[1..3]                                               *)
Diagrams(K, F, q, ipl, t) ==
  LET qn == Norm3(q)
      v(i, s) == IF s = 1 THEN Sub3(K[i], q) ELSE Add3(K[i], q)     \* s = 1: k - q, s = 2: k + q
      V == [i \in 1 .. 3 |-> [s \in 1 .. 2 |-> LET u == v(i, s) IN [u |-> u, n |-> Norm3(u), p |-> FindPk(t, Norm3(u), ipl)]]]
      VV == Tup([i \in 1 .. 3 |-> Tup(V[i])])
      Qs == <<q, Neg3(q)>>
      pq == FindPk(t, qn, ipl)
      pk == Tup([i \in 1 .. 3 |-> FindPk(t, Norm3(K[i]), ipl)])
      third(i, j) == 6 - i - j
      b222(i, j) == IF VV[i][1].n > qn /\ VV[j][2].n > qn
                    THEN F2v(F[i], VV[i][1].u, q) * F2v(F[j], VV[j][2].u, Neg3(q)) * F2v(F[third(i, j)], VV[j][2].u, VV[i][1].u)
                         * VV[i][1].p * pq * VV[j][2].p
                    ELSE Flt(0)
      b321(m, s) == IF VV[m][s].n > qn
                    THEN F2v(F[m], VV[m][s].u, Qs[s]) * VV[m][s].p * pq *
                         Sum(<< LET i == (m % 3) + 1  l == third(m, i) IN F3v(F[i], K[l], VV[m][s].u, Qs[s]) * pk[l],
                                LET i == ((m + 1) % 3) + 1  l == third(m, i) IN F3v(F[i], K[l], VV[m][s].u, Qs[s]) * pk[l] >>)
                    ELSE Flt(0)
      pairs == << <<1,2>>, <<2,1>>, <<2,3>>, <<3,2>>, <<1,3>>, <<3,1>> >>
      x2 == Tup([n \in 1 .. 6 |-> b222(pairs[n][1], pairs[n][2])])
      x3 == Tup([n \in 1 .. 6 |-> b321(((n - 1) \div 2) + 1, ((n - 1) % 2) + 1)])
  IN (4 * Sum(x2) + 6 * Sum(x3)) / Cube(2 * Pi)

(* the twelve integrand components at point x of the hypercube                     *)
ATwoAt(k, x, r, ipl, uv, t) ==
  LET L == Log(r[2]) - Log(r[1])
      p == Exp(Log(r[1]) + L * x[1])
      y == p / k
      m == -1 + 2 * x[2]
      q == Exp(Log(r[1]) + L * x[3])
      th == x[4] * Pi  ph == x[5] * 2 * Pi
      P == <<p * Sqrt(1 - m * m), Flt(0), p * m>>
      Q == <<q * Sin(th) * Cos(ph), q * Sin(th) * Sin(ph), q * Cos(th)>>
      MK == <<Flt(0), Flt(0), -Flt(k)>>
      KP == <<-P[1], Flt(0), k - P[3]>>
      kp == k * Sqrt(1 + y * y - 2 * y * m)
      ex == (k * k * SigmaD2(t, k, uv) + p * p * SigmaD2(t, p, uv) + kp * kp * SigmaD2(t, kp, uv)) / 2
      fields == << <<"theta", "delta", "delta">>, <<"theta", "theta", "delta">>, <<"theta", "delta", "theta">>, <<"theta", "theta", "theta">> >>
      b == Tup([i \in 1 .. 4 |-> Diagrams(<<P, KP, MK>>, fields[i], Q, ipl, t)])
      bt == Tup([i \in 1 .. 4 |-> Diagrams(<<KP, P, MK>>, fields[i], Q, ipl, t)])
      f == Exp(-ex) * y * Cube(q) * Sin(th) * L * L * 4 * Pi * Pi
      pa == ProjA(y, m)  pt == ProjT(y, m)
  IN IF m > (1 / 2) / y \/ ex \geq 100 THEN Tup([i \in 1 .. 12 |-> Flt(0)])
     ELSE VScale(f, << pa[1] * b[1], pa[2] * b[2], pa[3] * b[2], pa[1] * b[3], pa[2] * b[4], pa[3] * b[4],
                       pt[1] * bt[1], pt[2] * bt[2], pt[3] * bt[2], pt[1] * bt[3], pt[2] * bt[4], pt[3] * bt[4] >>)
(* the twelve integrator components into the five columns                            *)
AFold(I) == << I[1] + I[7], I[2] + I[8], I[3] + I[9] + I[4] + I[10], I[5] + I[11], I[6] + I[12] >>
=============================================================================
