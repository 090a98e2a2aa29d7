------------------------------- MODULE BCorr -------------------------------
(* B correction (property C14), Taruya et al 2010 eq B: twelve kernels       *)
(* B^n_ab(x, mu); leg a on |k-q|, leg b on q, index 1 = density-velocity      *)
(* spectrum, 2 = velocity-velocity spectrum.                                  *)
EXTENDS Quad

BKern(x, m, dk, tk, dq, tq) ==     \* spectra at |k-q| (dk, tk) and q (dq, tq)
  LET m2 == m * m  m4 == m2 * m2  x2 == x * x  s == 1 + x2 - 2 * m * x  n == m2 - 1 IN
  VScale(1 / s, <<
    (((x2 * n) / 2) * dk) * dq,                                                                        \* 1,1,1
    (((((3 * x2) * n) * n) / 8) * dk) * tq,                                                                \* 1,1,2
    (((((((3 * x2) * x2) * n) * n) / 8) / s) * tk) * dq,                                                       \* 1,2,1
    ((((((5 * x2) * x2) * Cube(n)) / 16) / s) * tk) * tq,                                                    \* 1,2,2
    (((x * (x + 2 * m - 3 * x * m2)) / 2) * dk) * dq,                                                  \* 2,1,1
    -(((((3 * x) * n) * (-x - 2 * m + 5 * x * m2)) / 4) * dk) * tq,                                        \* 2,1,2
    ((((((3 * x2) * n) * (-2 + x2 + 6 * x * m - 5 * x2 * m2)) / 4) / s) * tk) * dq,                          \* 2,2,1
    -(((((((3 * x2) * n) * n) * (6 - 5 * x2 - 30 * x * m + 35 * x2 * m2)) / 16) / s) * tk) * tq,               \* 2,2,2
    (((x * (4 * m * (3 - 5 * m2) + x * (3 - 30 * m2 + 35 * m4))) / 8) * dk) * tq,                      \* 3,1,2
    ((((x * (-8 * m + x * (-12 + 36 * m2 + 12 * x * m * (3 - 5 * m2) + x2 * (3 - 30 * m2 + 35 * m4)))) / 8) / s) * tk) * dq, \* 3,2,1
    ((((((3 * x) * n) * (-8 * m + x * (-12 + 60 * m2 + 20 * x * m * (3 - 7 * m2) + 5 * x2 * (1 - 14 * m2 + 21 * m4)))) / 16) / s) * tk) * tq, \* 3,2,2
    ((((x * (8 * m * (-3 + 5 * m2) - 6 * x * (3 - 30 * m2 + 35 * m4) + 6 * x2 * m * (15 - 70 * m2 + 63 * m4)
         + Cube(x) * (5 - 21 * m2 * (5 - 15 * m2 + 11 * m4)))) / 16) / s) * tk) * tq >>)              \* 4,2,2

BTerms(k, g, nmu, iplmu, dt, tt) ==
  LET kern(i, x, m) ==
        LET kq == k * Sqrt(1 + x * x - 2 * m * x)
            v == BKern(x, m, FindPk(dt, kq, iplmu), FindPk(tt, kq, iplmu), FindPk(dt, g.q[i], iplmu), FindPk(tt, g.q[i], iplmu))
            c == << v[1], -(v[2] + v[3]), v[4], v[5], -(v[6] + v[7]), v[8], -(v[9] + v[10]), v[11], v[12] >>
        IN c \o << Abs(v[1]), Abs(v[2]) + Abs(v[3]), Abs(v[4]), Abs(v[5]), Abs(v[6]) + Abs(v[7]), Abs(v[8]), Abs(v[9]) + Abs(v[10]), Abs(v[11]), Abs(v[12]) >>
      id(x) == x
      s == VScale(Cube(k) / (2 * Pi * Pi), QMuSum(g, nmu, k, TRUE, kern, id))
      r == IF s = <<>> THEN Tup([j \in 1 .. 18 |-> Flt(0)]) ELSE s
  IN [val |-> SubSeq(r, 1, 9), sc |-> SubSeq(r, 10, 18)]
============================================================================
