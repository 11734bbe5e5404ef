----------------------------- MODULE RequestsMC ------------------------------
(* Life of a solver that takes a request in stages - old results dropped,    *)
(* options stored, checked, computed - each of which may refuse it.  What it *)
(* holds afterwards may depend on the last accepted request only, and a      *)
(* request is refused only for what is wrong with itself.                    *)
(* Broken variants: STICKY - options not given keep the value of the         *)
(* previous request; LATE - results are stored before the last check.        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS STICKY, LATE, NOPS
VARIABLES opt, res, last, pc, n, refused
vars == <<opt, res, last, pc, n, refused>>
USUAL == 1            \* default of either option; 0 is not given, 3 is illegal
Req == [a : 0..3, b : 0..3]
Given(x) == IF x = 0 THEN USUAL ELSE x
Full(r) == [a |-> Given(r.a), b |-> Given(r.b)]
(* 3 is never legal and 2, 2 are incompatible                                *)
Legal(r) == LET f == Full(r) IN f.a # 3 /\ f.b # 3 /\ ~(f.a = 2 /\ f.b = 2)
NONE == [a |-> 0, b |-> 0]
Init == opt = Full(NONE) /\ res = NONE /\ last = NONE /\ pc = "idle" /\ n = 0 /\ refused = FALSE
Ask(r) == /\ pc = "idle" /\ n < NOPS /\ n' = n + 1 /\ last' = r /\ refused' = FALSE
          /\ opt' = (IF STICKY THEN [a |-> IF r.a = 0 THEN opt.a ELSE r.a, b |-> IF r.b = 0 THEN opt.b ELSE r.b] ELSE Full(r))
          /\ res' = NONE /\ pc' = "first"
Check1 == pc = "first" /\ IF opt.a = 3 THEN pc' = "idle" /\ refused' = TRUE /\ UNCHANGED <<opt, res, last, n>> ELSE pc' = "second" /\ UNCHANGED <<opt, res, last, n, refused>>
Store == pc = "second" /\ LATE /\ pc' = "third" /\ res' = opt /\ UNCHANGED <<opt, last, n, refused>>
Check2 == /\ pc = (IF LATE THEN "third" ELSE "second")
          /\ IF opt.b = 3 \/ (opt.a = 2 /\ opt.b = 2) THEN refused' = TRUE /\ res' = res ELSE refused' = FALSE /\ res' = opt
          /\ pc' = "idle" /\ UNCHANGED <<opt, last, n>>
Next == (\E r \in Req : Ask(r)) \/ Check1 \/ Store \/ Check2
Spec == Init /\ [][Next]_vars
Idle == pc = "idle" /\ n > 0
OnlyItsOwn == Idle => refused = ~Legal(last)
Results == Idle => res = IF Legal(last) THEN Full(last) ELSE NONE
=============================================================================
