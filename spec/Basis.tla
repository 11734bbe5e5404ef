-------------------------------- MODULE Basis --------------------------------
(* The plane-wave basis of a simulation, by the indexes m of                 *)
(* G = m1 b1 + m2 b2.  The lattice enters through its Gram matrix            *)
(* <<a1.a1, a1.a2, a2.a2>> in units of 1/sd, the cutoff is gn/gd in 2 pi.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Sq(x) == x * x
Abs(x) == IF x < 0 THEN -x ELSE x
Det(g) == g[1] * g[3] - Sq(g[2])
(* |G|^2 / (2 pi)^2 = Q(g, m) * sd / Det(g) *)
Q(g, m) == Sq(m[1]) * g[3] - 2 * m[1] * m[2] * g[2] + Sq(m[2]) * g[1]
(* Cut > 0: longer than the cutoff, = 0: exactly as long *)
Cut(g, sd, gn, gd, m) == Q(g, m) * Sq(gd) * sd - Sq(gn) * Det(g)

(* |m_i| <= cutoff * |a_i| for every vector within the cutoff *)
Reach(gii, sd, gn, gd) ==
  CHOOSE n \in 0..60 : /\ Sq(n) * Sq(gd) * sd <= Sq(gn) * gii
                       /\ Sq(n + 1) * Sq(gd) * sd > Sq(gn) * gii
Box(g, sd, gn, gd) ==
  LET r1 == Reach(g[1], sd, gn, gd)  r2 == Reach(g[3], sd, gn, gd)
  IN { <<m, n>> : m \in -r1..r1, n \in -r2..r2 }
Circle(g, sd, gn, gd) == { m \in Box(g, sd, gn, gd) : Cut(g, sd, gn, gd, m) <= 0 }
Inner(g, sd, gn, gd)  == { m \in Box(g, sd, gn, gd) : Cut(g, sd, gn, gd, m) < 0 }

(* parallelogram: |m_i| <= cutoff / |b_i|, so an index rectangle             *)
RectN(g, gjj, sd, gn, gd) ==   \* largest n with n |b_i| <= cutoff, |b_i|^2 ~ gjj
  CHOOSE n \in 0..60 : /\ Sq(n) * gjj * Sq(gd) * sd <= Sq(gn) * Det(g)
                       /\ Sq(n + 1) * gjj * Sq(gd) * sd > Sq(gn) * Det(g)
Rect(n1, n2) == { <<m, n>> : m \in -n1..n1, n \in -n2..n2 }
(* a cutoff exactly on |n b_i| may or may not include it                     *)
RectNs(g, gjj, sd, gn, gd) ==
  LET n == RectN(g, gjj, sd, gn, gd)
  IN IF n > 0 /\ Sq(n) * gjj * Sq(gd) * sd = Sq(gn) * Det(g) THEN {n - 1, n} ELSE {n}

(* new vectors a'i = sum_j u_ij a_j with det u = 1 or -1 *)
Rebased(g, u) == LET d(p, q) == p[1] * q[1] * g[1] + (p[1] * q[2] + p[2] * q[1]) * g[2]
                                 + p[2] * q[2] * g[3]
                     p == <<u[1], u[2]>>  q == <<u[3], u[4]>>
                 IN <<d(p, p), d(p, q), d(q, q)>>
(* m'i = G.a'i / 2 pi *)
RebasedIx(m, u) == <<u[1] * m[1] + u[2] * m[2], u[3] * m[1] + u[4] * m[2]>>

OkCircle(g, sd, gn, gd, S) ==
  S = Circle(g, sd, gn, gd)
OkRect(g, sd, gn, gd, S) ==
  \E n1 \in RectNs(g, g[3], sd, gn, gd), n2 \in RectNs(g, g[1], sd, gn, gd) : S = Rect(n1, n2)
=============================================================================
