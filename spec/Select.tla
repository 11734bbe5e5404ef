-------------------------------- MODULE Select --------------------------------
(* Which modes of the complete ascending list a run returns.  The list F and  *)
(* the answer are sequences of integers (fixed point); sg is the target.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Dist(metric, x, sg, unit) ==
  LET d == IF x < sg THEN sg - x ELSE x - sg
  IN IF metric = "linear" THEN d
     ELSE LET a == x \div unit  b == sg \div unit  p == (a - b) * (a + b)
          IN IF p < 0 THEN -p ELSE p
Ascending(f, tol) == \A i \in 1..(Len(f) - 1) : f[i] <= f[i + 1] + tol
(* positions in F of the elements of f, both ascending; <<>> if f is not part *)
RECURSIVE Match(_, _, _, _, _, _)
Match(F, f, i, j, tol, acc) ==
  IF j > Len(f) THEN acc
  ELSE IF i > Len(F) THEN <<>>
  ELSE IF F[i] - f[j] <= tol /\ f[j] - F[i] <= tol THEN Match(F, f, i + 1, j + 1, tol, Append(acc, i))
  ELSE Match(F, f, i + 1, j, tol, acc)
Chosen(F, f, tol) == Match(F, f, 1, 1, tol, <<>>)
(* no mode left out is nearer to the target than one returned                 *)
Nearest(F, ch, metric, sg, unit, tol) ==
  LET S == { ch[i] : i \in DOMAIN ch }
      far == { Dist(metric, F[i], sg, unit) : i \in S }
      near == { Dist(metric, F[i], sg, unit) : i \in DOMAIN F \ S }
  IN S = {} \/ near = {} \/
     (CHOOSE x \in far : \A y \in far : y <= x) <= (CHOOSE x \in near : \A y \in near : x <= y) + tol
=============================================================================
