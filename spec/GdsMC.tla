-------------------------------- MODULE GdsMC --------------------------------
(* Exports from one process: structures under construction, a library that   *)
(* the writer keeps between exports, and files.  A file holds what was in    *)
(* the structure when it was exported; shapes of a kind that cannot be       *)
(* exported (0) are refused without a file.                                  *)
(* Broken variants: KEEP - the library is not emptied, SKIP - shapes of      *)
(* kind 0 are left out.                                                      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS KEEP, SKIP, MAXS, MAXL, NOPS
VARIABLES strs, lib, file, expect, n, pc
vars == <<strs, lib, file, expect, n, pc>>
Init == strs = [i \in 1..2 |-> <<>>] /\ lib = <<>> /\ file = <<>> /\ expect = <<>> /\ n = 0 /\ pc = <<0, 1, 1>>
AddLayer(p) == Len(strs[p]) < MAXL /\ strs' = [strs EXCEPT ![p] = Append(@, <<>>)] /\ UNCHANGED <<lib, file, expect, pc>>
AddShape(p, i, k) == i \in DOMAIN strs[p] /\ Len(strs[p][i]) < MAXS /\ strs' = [strs EXCEPT ![p][i] = Append(@, k)] /\ UNCHANGED <<lib, file, expect, pc>>
Legal(str) == \A i \in DOMAIN str : \A j \in DOMAIN str[i] : str[i][j] # 0
(* the elements of a layout, as a bag                                        *)
BagOf(str, l, k) == IF l \in DOMAIN str THEN Cardinality({ j \in DOMAIN str[l] : str[l][j] = k }) ELSE 0
Want(str) == [x \in (1..MAXL) \X (1..2) |-> BagOf(str, x[1], x[2])]
Begin(p) == pc' = <<p, 1, 1>> /\ lib' = (IF KEEP THEN lib ELSE <<>>) /\ UNCHANGED <<strs, file, expect>>
(* writing one element after the other                                       *)
Step == LET p == pc[1]  i == pc[2]  j == pc[3] IN
  /\ p # 0
  /\ IF i > Len(strs[p]) THEN file' = lib /\ expect' = strs[p] /\ pc' = <<0, 1, 1>> /\ UNCHANGED <<strs, lib>>
     ELSE IF j > Len(strs[p][i]) THEN pc' = <<p, i + 1, 1>> /\ UNCHANGED <<strs, lib, file, expect>>
     ELSE IF strs[p][i][j] = 0 /\ ~SKIP THEN pc' = <<0, 1, 1>> /\ UNCHANGED <<strs, lib, file, expect>>
     ELSE /\ lib' = IF strs[p][i][j] = 0 THEN lib ELSE Append(lib, <<i, strs[p][i][j]>>)
          /\ pc' = <<p, i, j + 1>> /\ UNCHANGED <<strs, file, expect>>
Next == \/ pc[1] # 0 /\ Step /\ n' = n
        \/ pc[1] = 0 /\ n < NOPS /\ n' = n + 1
           /\ \E p \in 1..2 : Begin(p) \/ AddLayer(p) \/ \E i \in 1..MAXL : \E k \in 0..2 : AddShape(p, i, k)
Spec == Init /\ [][Next]_vars
Holds == [x \in (1..MAXL) \X (1..2) |-> Cardinality({ j \in DOMAIN file : file[j] = x })]
Exact == Holds = Want(expect)
Refused == Legal(expect)
=============================================================================
