-------------------------------- MODULE Routes --------------------------------
(* One physical question, many numerical routes to the answer.               *)
(* A table of guided modes at equidistant |k+G| replaces the exact ones when *)
(* interpolation is asked for.  Points are integers, a table with n points   *)
(* reaches from 0 to max; positions are multiplied by n - 1.                 *)
EXTENDS Integers, Sequences, FiniteSets
(* f(g) = g^2 read from the table at g (times (n-1)^2): exact on the line    *)
(* between the two neighbours x0 <= g <= x1: g (x0 + x1) - x0 x1.            *)
Cell(g, max, n) == LET i == (g * (n - 1)) \div max IN IF i >= n - 1 THEN n - 2 ELSE i
Read(g, max, n) ==
  IF g > max THEN max * max * (n - 1) * (n - 1)
  ELSE LET x0 == Cell(g, max, n) * max  x1 == x0 + max  y == g * (n - 1)
       IN y * (x0 + x1) - x0 * x1
True2(g, n) == g * g * (n - 1) * (n - 1)
(* a chord of a convex function lies above it, by at most spacing^2 / 4      *)
Accurate(g, max, n) == LET e == Read(g, max, n) - True2(g, n) IN e >= 0 /\ 4 * e <= max * max
(* What a route may change: nothing but the accuracy it was asked for.       *)
(* r.gc "interp" with spacing r.h (10^-4 of 1/length).                       *)
FTol(r, f) == IF r.gc = "interp" THEN 300 + ((f \div 1000) * r.h) \div 300 ELSE 60
=============================================================================
