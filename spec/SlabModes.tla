------------------------------ MODULE SlabModes ------------------------------
(* Guided modes of a stack as eigenvalues of a chain: sites 1..N with        *)
(* weights e_i, u_{i+1} = c_i u_i - u_{i-1} with c_i = 2 + q - lam e_i (all   *)
(* in units of 1/D, so that everything stays an integer), u_0 = 0, u_1 = 1.  *)
(* The search raises lam in steps and counts the sign changes of the last    *)
(* element; modes are numbered by their nodes.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Sign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
RECURSIVE Chain(_, _, _, _)
(* e: weights, q and lam in units of 1/D; returns D^(i-1) u_i, i = 1..N+1    *)
Chain(e, q, lam, D) ==
  LET F[i \in 0..(Len(e) + 1)] == IF i = 0 THEN 0 ELSE IF i = 1 THEN 1
        ELSE (2 * D + q - lam * e[i - 1]) * F[i - 1] - D * D * F[i - 2]
  IN [i \in 1..(Len(e) + 1) |-> F[i]]
Last(s) == s[Len(s)]
(* zeros between neighbours; a zero at a site counts once, one at the end    *)
(* does not count                                                            *)
Nonzero(s) == SelectSeq(s, LAMBDA x : x # 0)
Changes(s) == LET z == Nonzero(s) IN Cardinality({ i \in 1..(Len(z) - 1) : Sign(z[i]) # Sign(z[i + 1]) })
Nodes(e, q, lam, D) == LET s == Chain(e, q, lam, D) IN Changes(IF Last(s) = 0 THEN SubSeq(s, 1, Len(s) - 1) ELSE s)
=============================================================================
