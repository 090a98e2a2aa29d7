-------------------------------- MODULE Bias --------------------------------
(* One-loop bias terms (property C12): eight integrals over (q, mu).         *)
EXTENDS Quad, PT

S2(m) == m * m - 1 / 3
D2(m) == (2 / 7) * (m * m - 1)

(* <<b2-density, bs2-density, b2-velocity, bs2-velocity>> on the half domain  *)
(* |k-q| >= q (doubled), <<b2b2, b2bs2, bs2bs2, sigma3^2>> on the full one,   *)
(* each followed by the magnitude of its terms.                               *)
BiasTerms(k, g, nmu, iplmu, t) ==
  LET geo(i, x, m) == LET kq == k * Sqrt(1 + x * x - 2 * m * x)
                          d == (k * k - kq * kq - g.q[i] * g.q[i]) / 2
                      IN [kq |-> kq, d |-> d, c |-> (d / g.q[i]) / kq, p |-> FindPk(t, kq, iplmu)]
      lin(i, x, m) ==
        LET o == geo(i, x, m)
            pp == g.p[i] * o.p
            fd == pp * F2("delta", Sq(g.q[i]), Sq(o.kq), o.d)
            ft == pp * F2("theta", Sq(g.q[i]), Sq(o.kq), o.d)
            v == <<2 * fd, 2 * fd * S2(o.c), 2 * ft, 2 * ft * S2(o.c)>>
        IN v \o Tup([j \in 1 .. 4 |-> Abs(v[j])])
      quad(i, x, m) ==
        LET o == geo(i, x, m)
            s == S2(o.c)
            v == << (o.p * g.p[i] - g.p[i] * g.p[i]) / 2,
                    (o.p * g.p[i] * s - ((2 / 3) * g.p[i]) * g.p[i]) / 2,
                    (o.p * g.p[i] * s * s - ((4 / 9) * g.p[i]) * g.p[i]) / 2,
                    ((105 / 16) * g.p[i]) * (D2(m) * s + 8 / 63) >>
        IN v \o << (Abs(o.p * g.p[i]) + g.p[i] * g.p[i]) / 2, (Abs(o.p * g.p[i] * s) + ((2 / 3) * g.p[i]) * g.p[i]) / 2,
                   (Abs(o.p * g.p[i] * s * s) + ((4 / 9) * g.p[i]) * g.p[i]) / 2, ((105 / 16) * Abs(g.p[i])) * (Abs(D2(m) * s) + 8 / 63) >>
      f == Cube(k) / (4 * Pi * Pi)
      h == VScale(f, QMuSum(g, nmu, k, TRUE, lin, Cube))
      u == VScale(f, QMuSum(g, nmu, k, FALSE, quad, Cube))
      z == [j \in 1 .. 8 |-> Flt(0)]
      H == IF h = <<>> THEN Tup(z) ELSE h
      U == IF u = <<>> THEN Tup(z) ELSE u
  IN [val |-> SubSeq(H, 1, 4) \o SubSeq(U, 1, 4), sc |-> SubSeq(H, 5, 8) \o SubSeq(U, 5, 8)]
BiasNames == <<"pk_b2d", "pk_bs2d", "pk_b2t", "pk_bs2t", "pk_b22", "pk_b2s2", "pk_bs22", "sigma3sq">>
=============================================================================
