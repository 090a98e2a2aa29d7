-------------------------------- MODULE PT --------------------------------
(* Perturbation-theory kernels of density (F) and velocity divergence (G)   *)
(* from their defining recursion.                                           *)
EXTENDS F64, Sequences

Dot3(u, v) == u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
Add3(u, v) == <<u[1] + v[1], u[2] + v[2], u[3] + v[3]>>
Sub3(u, v) == <<u[1] - v[1], u[2] - v[2], u[3] - v[3]>>
Neg3(u) == <<-u[1], -u[2], -u[3]>>
Norm3(u) == Sqrt(Dot3(u, u))

Leg(v) == [v |-> v, s |-> Dot3(v, v), f |-> Flt(1), g |-> Flt(1)]

(* Contribution of the split {A, B} (both orders) to the symmetrised kernels *)
(* of order n; w is |A|! |B|! / n!.                                          *)
Split(n, w, A, B) ==
  LET ab == Dot3(A.v, B.v)
      c1 == (1 + ab / A.s) * A.g * B.f + (1 + ab / B.s) * B.g * A.f
      c2 == (((ab * (A.s + B.s + 2 * ab)) / (A.s * B.s)) * A.g) * B.g
      d == w / ((2 * n + 3) * (n - 1))
  IN <<d * ((2 * n + 1) * c1 + 2 * c2), d * (3 * c1 + 2 * n * c2)>>

Pair(A, B) ==
  LET x == Split(2, 1 / 2, A, B)
      v == Add3(A.v, B.v)
  IN [v |-> v, s |-> Dot3(v, v), f |-> x[1], g |-> x[2]]

(* three legs; AB, BC, CA their pairs                                        *)
Still(v) == \A i \in 1 .. 3 : Abs(v[i]) < D("3e-14")
Third(A, BC) == IF Still(BC.v) \/ Still(Add3(A.v, BC.v)) THEN <<Flt(0), Flt(0)>> ELSE Split(3, 1 / 3, A, BC)
TripleOf(A, B, C, AB, BC, CA) ==
  LET x == Third(A, BC)  y == Third(B, CA)  z == Third(C, AB)
      v == Add3(A.v, BC.v)
  IN [v |-> v, s |-> Dot3(v, v), f |-> x[1] + y[1] + z[1], g |-> x[2] + y[2] + z[2]]

(* a pair of legs with no net momentum contributes nothing                   *)
Triple(A, B, C) == TripleOf(A, B, C, Pair(A, B), Pair(B, C), Pair(C, A))

(* F2, G2 of a triangle from the squared sides p2, q2 and p.q                 *)
F2(fld, p2, q2, pq) ==
  IF fld = "theta" THEN 3 / 7 + (pq / 2) * (1 / p2 + 1 / q2) + ((((4 / 7) * pq) * pq) / p2) / q2
  ELSE 5 / 7 + (pq / 2) * (1 / p2 + 1 / q2) + ((((2 / 7) * pq) * pq) / p2) / q2
F2v(fld, u, v) == F2(fld, Dot3(u, u), Dot3(v, v), Dot3(u, v))
(* third-order kernel, 0 where a leg pair or the total has no momentum        *)
Val(fld, x) == IF fld = "theta" THEN x.g ELSE x.f
F3v(fld, u, v, w) == Val(fld, Triple(Leg(u), Leg(v), Leg(w)))

(* <<F4, G4>>(q, -q, k1, k2)                                                  *)
F4loop(q, k1, k2) ==
  LET A == Leg(q)  B == Leg(Neg3(q))  C == Leg(k1)  E == Leg(k2)
      AC == Pair(A, C)  AE == Pair(A, E)  BC == Pair(B, C)  BE == Pair(B, E)  CE == Pair(C, E)
      \* (q,-q,k): the split {(q,-q), k} vanishes
      abx(X, AX, BX) == LET x == Split(3, 1 / 3, A, BX)  y == Split(3, 1 / 3, B, AX)
                        IN [v |-> X.v, s |-> X.s, f |-> x[1] + y[1], g |-> x[2] + y[2]]
      ABC == abx(C, AC, BC)
      ABE == abx(E, AE, BE)
      ACE == TripleOf(A, C, E, AC, CE, AE)
      BCE == TripleOf(B, C, E, BC, CE, BE)
      s == << Split(4, 1 / 4, A, BCE), Split(4, 1 / 4, B, ACE), Split(4, 1 / 4, C, ABE), Split(4, 1 / 4, E, ABC),
              Split(4, 1 / 6, AC, BE), Split(4, 1 / 6, AE, BC) >>
  IN VSum(s)
===========================================================================
