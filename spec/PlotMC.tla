-------------------------------- MODULE PlotMC --------------------------------
(* A drawing program that walks through the results, one state after the     *)
(* other, and a second one that draws a field with its Bloch phase.          *)
(* TRANSPOSED: wave vectors are listed by state, values by wave vector.      *)
(* INPLACE: the phase is multiplied into the stored field.                   *)
EXTENDS Plot
CONSTANTS TRANSPOSED, INPLACE
VARIABLES val, fld, pts, n, req, img
vars == <<val, fld, pts, n, req, img>>
NK == 2
NS == 3
Vals == [1..NK -> [1..NS -> {1, 2}]]
Init == /\ val \in Vals /\ fld \in {<<1, 2>>, <<2, 3>>}
        /\ pts = <<>> /\ n = 0 /\ req = "bands" /\ img = <<>>
XI(j) == IF TRANSPOSED THEN 1 + (j % NK) ELSE 1 + (j \div NS)
DrawOne == /\ req = "bands" /\ n < NK * NS
           /\ pts' = Append(pts, <<AtX(<<1>>, NK, FALSE, XI(n)), val[1 + (n \div NS)][1 + (n % NS)], 0>>)
           /\ n' = n + 1 /\ UNCHANGED <<val, fld, req, img>>
(* phase 2 at the second point *)
Phase(f) == <<f[1], 2 * f[2]>>
DrawField(per) == /\ n <= NK * NS + 2 /\ req' = (IF per THEN "periodic" ELSE "full")
                  /\ img' = IF per THEN fld ELSE Phase(fld)
                  /\ fld' = IF INPLACE /\ ~per THEN Phase(fld) ELSE fld
                  /\ n' = n + 1 /\ UNCHANGED <<val, pts>>
Next == DrawOne \/ (n >= NK * NS /\ \E per \in BOOLEAN : DrawField(per))
Spec == Init /\ [][Next]_vars
XX(i) == AtX(<<1>>, NK, FALSE, i)
NoCol == [i \in 1..NK |-> [m \in 1..NS |-> 0]]
Done == n = NK * NS
RightPoints == Done => /\ OncePerState(pts, val) /\ AllShown(pts, XX, val, NoCol, 0, 0)
                       /\ NothingElse(pts, XX, val, NoCol, 0, 0)
Untouched == [][fld' = fld /\ val' = val]_vars
=============================================================================
