-------------------------------- MODULE Optim --------------------------------
(* Adam in exact integers, for beta = 0 or 1/2: after n gradients g_1..g_n   *)
(* the unbiased moments are  M / (2^n - 1) with M = Sum 2^(j-1) g_j, and the *)
(* same of g_j^2.  The step is their quotient u = m / sqrt(v), times -size.  *)
EXTENDS Integers, Sequences
RECURSIVE Pow2(_), Moment(_, _, _), Root(_, _, _), Shift(_, _)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
(* numerator of the moment after n of the values q                           *)
Moment(q, n, half) == IF n = 0 THEN 0 ELSE IF half THEN Moment(q, n - 1, half) + Pow2(n - 1) * q[n] ELSE q[n]
MDen(n, half) == IF half THEN Pow2(n) - 1 ELSE 1
(* integer square root by bisection in lo..hi                                *)
Root(x, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= x THEN Root(x, m, hi) ELSE Root(x, lo, m)
(* how often x can be multiplied by four below 10^9                          *)
Shift(x, k) == IF x > 250000000 THEN k ELSE Shift(4 * x, k + 1)
(* 10^4 M / sqrt(X), M, X integers, X > 0                                    *)
Quot(M, X) == LET k == Shift(X, 0)  r == Root(X * Pow2(2 * k), 0, 31623)  a == IF M < 0 THEN -M ELSE M
              IN IF M = 0 THEN 0 ELSE (IF M < 0 THEN -1 ELSE 1) * ((a * Pow2(k) * 10000) \div r)
(* u * 10^4 after the first n gradients of q                                 *)
Sq(q) == [i \in DOMAIN q |-> q[i] * q[i]]
Dir(q, n, h1, h2) ==
  LET M == Moment(q, n, h1)  V == Moment(Sq(q), n, h2)  d1 == MDen(n, h1)  d2 == MDen(n, h2) IN
  IF V = 0 THEN 0
  ELSE IF d1 = d2 THEN Quot(M, V * d1)
  ELSE IF d1 = 1 THEN Quot(M * d2, V * d2)
  ELSE Quot(M, V * d1 * d1)
(* snapping; none is 10^9 *)
NONE == 1000000000
Snap(x, b) == IF b[1] # NONE /\ x < b[1] THEN b[1] ELSE IF b[2] # NONE /\ x > b[2] THEN b[2] ELSE x
Inside(x, b) == (b[1] = NONE \/ x >= b[1]) /\ (b[2] = NONE \/ x <= b[2])
=============================================================================
