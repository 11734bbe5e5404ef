------------------------------- MODULE Session -------------------------------
(* Life of simulation objects (guided-mode expansion, plane-wave expansion,  *)
(* exciton equation, polaritons) in one process.                             *)
(*                                                                           *)
(* What a user sees of an object is a function of the structure it was built *)
(* for and of the arguments of its last successful run -- never of earlier   *)
(* runs, failed runs, queries, other objects or the numerical backend.       *)
(*                                                                           *)
(* Abstract state: s.obj[o] = [kind, st, tr, cur, im], where cur names the   *)
(* arguments whose results are visible ("none" before the first run and      *)
(* after a rejected one) and im tells whether radiative results are visible. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

None == "none"
NoObj == [kind |-> None, st |-> None, tr |-> None, cur |-> None, im |-> FALSE]

NewState(NObj) == [obj |-> [o \in 1..NObj |-> NoObj], bk |-> "numpy"]

(* Does a run with these arguments store radiative results right away? *)
WithIm(kind, a) == kind = "gme" /\ a.im

(* ------------------------------- actions -------------------------------- *)
DoNew(s, o, kind, st, tr) ==
  [s EXCEPT !.obj[o] = [kind |-> kind, st |-> st, tr |-> tr,
                        cur |-> None, im |-> FALSE]]
DoRun(s, o, key, im) == [s EXCEPT !.obj[o].cur = key, !.obj[o].im = im]
DoRunBad(s, o)       == [s EXCEPT !.obj[o].cur = None, !.obj[o].im = FALSE]
DoRunIm(s, o)        == [s EXCEPT !.obj[o].im = TRUE]
DoBackend(s, b)      == [s EXCEPT !.bk = b]

Exists(s, o)   == s.obj[o].kind # None
HasRun(s, o)   == s.obj[o].cur # None
CanRunIm(s, o) == s.obj[o].kind = "gme" /\ HasRun(s, o)
=============================================================================
