----------------------------- MODULE SessionImpl -----------------------------
(* The stores the code keeps inside a guided-mode object between calls, as   *)
(* implemented: per-run lists that grow by one entry per k-point and are     *)
(* indexed by k-point, a cache of inverse permittivity matrices, and the     *)
(* radiative results.  The refinement property says that what they yield is  *)
(* what the abstract session (Session.tla) allows.  RESETS lists the stores  *)
(* that a run puts back to empty; leaving one out breaks Visible.            *)
EXTENDS Session

CONSTANTS NKs, RESETS, MaxOps

(* arguments: number of k-points, only_gmodes flag, compute_im flag, variant *)
Args == [nk : 1..NKs, only : BOOLEAN, im : BOOLEAN, v : {1, 2}]

VARIABLES abs, last, modes, inds, eps, freq, rad, n
vars == <<abs, last, modes, inds, eps, freq, rad, n>>

Init == /\ abs = DoNew(NewState(1), 1, "gme", "S", "abs")
        /\ modes = <<>> /\ inds = <<>> /\ eps = None
        /\ freq = <<>> /\ rad = <<>> /\ n = 0 /\ last = [nk |-> 0]

Tag(b) == IF b THEN "only" ELSE "full"
EpsAfter(a) == IF "eps" \in RESETS
               THEN Tag(a.only)
               ELSE IF eps = None THEN Tag(a.only) ELSE eps

(* what the solver reads at k-point i: the entries stored at index i *)
Result(a, m, ix, e) == <<a, [i \in 1..a.nk |-> <<m[i], ix[i]>>], e>>
Wanted(a) == <<a, [i \in 1..a.nk |-> <<a.v, a.v>>], Tag(a.only)>>

Run(a) ==
  LET m  == (IF "modes" \in RESETS THEN <<>> ELSE modes)
            \o [i \in 1..a.nk |-> a.v]
      ix == (IF "inds" \in RESETS THEN <<>> ELSE inds)
            \o [i \in 1..a.nk |-> a.v]
      e  == EpsAfter(a)
      f  == Result(a, m, ix, e)
  IN /\ modes' = m /\ inds' = ix /\ eps' = e
     /\ freq' = f
     /\ rad' = IF a.im THEN f ELSE IF "rad" \in RESETS THEN <<>> ELSE rad
     /\ abs' = DoRun(abs, 1, ToString(a), a.im) /\ last' = a

(* rejected half-way: some k-points were already appended *)
RunBad(a) == \E j \in 0..a.nk :
  /\ modes' = (IF "modes" \in RESETS THEN <<>> ELSE modes) \o [i \in 1..j |-> a.v]
  /\ inds' = (IF "inds" \in RESETS THEN <<>> ELSE inds) \o [i \in 1..j |-> a.v]
  /\ eps' = EpsAfter(a)
  /\ freq' = <<>>
  /\ rad' = IF "rad" \in RESETS THEN <<>> ELSE rad
  /\ abs' = DoRunBad(abs, 1) /\ last' = last

RunIm == /\ CanRunIm(abs, 1)
         /\ rad' = freq /\ abs' = DoRunIm(abs, 1)
         /\ UNCHANGED <<last, modes, inds, eps, freq>>

Query == HasRun(abs, 1) /\ UNCHANGED <<abs, last, modes, inds, eps, freq, rad>>

Next == /\ n < MaxOps /\ n' = n + 1
        /\ (\E a \in Args : Run(a) \/ RunBad(a)) \/ RunIm \/ Query

Spec == Init /\ [][Next]_vars

(* freq and rad of the stores are those of the abstract session's last run *)
Visible ==
  /\ HasRun(abs, 1) => freq = Wanted(last)
  /\ (HasRun(abs, 1) /\ abs.obj[1].im) => rad = Wanted(last)
  /\ (HasRun(abs, 1) /\ ~abs.obj[1].im) => rad = <<>>
=============================================================================
