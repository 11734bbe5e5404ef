------------------------------ MODULE OptimTrace ------------------------------
(* Judges histories of real optimizer objects.  A use records the points at  *)
(* which the objective was evaluated (seen[j].x * 10^6) with the slopes it   *)
(* had there (s, integers), the value it returned (f * 10^6), the arguments  *)
(* and the iteration it was given; what the callback saw; and what was       *)
(* returned (x, of).  betas: h1, h2 in 0, 1 (1/2) or 9 (the default).        *)
EXTENDS Optim, Fix, Json, IOUtils
VARIABLES t, l, s, bad
S0_(tr) == [kn |-> <<>>, wave |-> FALSE]
After(st, e) == IF e.op = "base" THEN [kn |-> e.kn, wave |-> e.wave] ELSE st
U == 1000
In6(x, b) == (b[1] = NONE \/ x >= b[1] * U - 1) /\ (b[2] = NONE \/ x <= b[2] * U + 1)
InsideAll(x, b) == \A i \in DOMAIN x : In6(x[i], b[i])
Weight(e, j) == (IF e.args = <<>> THEN 1 ELSE e.args[1]) * (IF e.ps /\ e.how = "adam" THEN 1 + (j % 2) ELSE 1)
(* the objective of the specification                                        *)
Slope(k, x) == IF x < k.c * U THEN -k.l ELSE k.r
Phi(k, x) == (x - k.c * U) * Slope(k, x)
RECURSIVE AddPhi(_, _, _)
AddPhi(kn, x, i) == IF i = 0 THEN 0 ELSE AddPhi(kn, x, i - 1) + Phi(kn[i], x[i])
(* for lbfgs: bowls l + r + 1 times (x - c)^2 around the knees, in thousandths squared *)
Bowl(k, x) == LET d == AbsI(x - k.c * U)  q == d \div 1000  r == d % 1000 IN (k.l + AbsI(k.r) + 1) * (q * q + (2 * q * r) \div 1000)
RECURSIVE AddBowl(_, _, _)
AddBowl(kn, x, i) == IF i = 0 THEN 0 ELSE AddBowl(kn, x, i - 1) + Bowl(kn[i], x[i])
FOf(st, e, j, x) == Weight(e, j) * (IF e.how = "adam" THEN AddPhi(st.kn, x, Len(x)) ELSE AddBowl(st.kn, x, Len(x)))
FTol == 200
Near(k, x) == AbsI(x - k.c * U) <= 5
Evaluated(st, e) == \A j \in DOMAIN e.seen :
   /\ (e.how = "adam" \/ ~st.wave) => Close(e.seen[j].f, FOf(st, e, j, e.seen[j].x), FTol)
   /\ e.seen[j].args = e.args
   /\ e.how = "adam" => \A i \in DOMAIN e.seen[j].x : Near(st.kn[i], e.seen[j].x[i]) \/ e.seen[j].s[i] = Slope(st.kn[i], e.seen[j].x[i]) * Weight(e, j)
Told(e) == \A j \in DOMAIN e.seen : IF e.ps THEN IF e.how = "adam" THEN e.seen[j].it = j ELSE e.seen[j].it >= 0 /\ e.seen[j].it < Len(e.seen) ELSE e.seen[j].it = -1
(* one Adam step of the parameter i after n evaluations                      *)
Grads(e, i, n) == [j \in 1..n |-> e.seen[j].s[i]]
UVal(e, i, n) == LET q == Grads(e, i, n) IN
   IF e.h1 = 9 \/ e.h2 = 9 THEN (IF q[n] > 0 THEN 10000 ELSE IF q[n] < 0 THEN -10000 ELSE 0) ELSE Dir(q, n, e.h1 = 1, e.h2 = 1)
(* with the default betas only gradients that never changed are judged, and  *)
(* without a second moment only where it is not zero                         *)
Judged(e, i, n) == LET q == Grads(e, i, n) IN
   /\ e.h1 = 9 \/ e.h2 = 9 => \A j \in 1..n : q[j] = q[1]
   /\ e.h2 = 0 => q[n] # 0
B6(b) == <<IF b[1] = NONE THEN NONE ELSE b[1] * U, IF b[2] = NONE THEN NONE ELSE b[2] * U>>
StepTo(e, i, n) == LET q == Grads(e, i, n)  d == (e.st * UVal(e, i, n)) \div 10 IN Snap(e.seen[n].x[i] - d, B6(e.b[i]))
StepTol(e) == 20 + e.st
Rule(e) == \A n \in 1..(Len(e.seen) - 1) : \A i \in DOMAIN e.seen[n].x : Judged(e, i, n) => Close(e.seen[n + 1].x[i], StepTo(e, i, n), StepTol(e))
StartsAt(e) == e.seen # <<>> => CloseV(e.seen[1].x, [i \in DOMAIN e.p |-> e.p[i] * U], 2)
Count(e) == Len(e.seen) = e.N
AdamOf(e) == /\ Len(e.of) = Len(e.seen) /\ \A j \in DOMAIN e.of : e.of[j] = e.seen[j].f
             /\ IF e.seen = <<>> THEN CloseV(e.x, [i \in DOMAIN e.p |-> e.p[i] * U], 2) ELSE e.x = e.seen[Len(e.seen)].x
AdamCb(e) == IF ~e.cb THEN e.calls = <<>>
   ELSE /\ Len(e.calls) = Len(e.seen)
        /\ \A j \in DOMAIN e.calls : e.calls[j].it = j /\ e.calls[j].of = [i \in 1..j |-> e.seen[i].f]
                                     /\ e.calls[j].x = (IF j < Len(e.seen) THEN e.seen[j + 1].x ELSE e.x) /\ e.calls[j].own
(* lbfgs                                                                     *)
Visited(e) == \A j \in DOMAIN e.of : \E i \in DOMAIN e.seen : e.seen[i].f = e.of[j]
Down(e) == \A j \in 1..(Len(e.of) - 1) : e.of[j + 1] <= e.of[j]
AtEnd(st, e) == \E i \in DOMAIN e.seen : e.seen[i].x = e.x /\ e.seen[i].f = e.of[Len(e.of)]
LbCount(e) == /\ Len(e.of) <= e.N + 1
              /\ e.maxfun = 2 => Len(e.seen) <= 25
LbCb(e) == IF ~e.cb THEN e.calls = <<>>
   ELSE /\ Len(e.calls) = Len(e.of) - 1
        /\ \A j \in DOMAIN e.calls : /\ e.calls[j].it = j /\ e.calls[j].of = SubSeq(e.of, 1, j + 1) /\ e.calls[j].own
             /\ \E i \in DOMAIN e.seen : e.seen[i].x = e.calls[j].x /\ e.seen[i].f = e.of[j + 1]
(* (wave: another objective for lbfgs, several valleys, values not judged.)  *)
(* the bowls are separable: the best point is their bottom, snapped          *)
Best(st, e) == ~st.wave /\ e.N = 40 /\ e.maxfun = 15000 => \A i \in DOMAIN e.x : Close(e.x[i], Snap(st.kn[i].c * U, B6(e.b[i])), 10000)
Res(e) == e.res => e.rx = e.x /\ Close(e.rf, e.of[Len(e.of)], 1) /\ e.rit = Len(e.of) - 1
Clauses(st, e) ==
  IF e.op = "base" THEN <<>>
  ELSE IF ~e.ok THEN << <<"accepted", FALSE>> >>
  ELSE LET adam == e.how = "adam"  done == ~e.failed IN
   << <<"finite", \A j \in DOMAIN e.seen : FinV(e.seen[j].x) /\ Fin(e.seen[j].f)>>,
      <<"evaluated-within-bounds", \A j \in DOMAIN e.seen : InsideAll(e.seen[j].x, e.b)>>,
      <<"values-belong-to-points", Evaluated(st, e)>>,
      <<"arguments-delivered", Told(e)>>,
      <<"starts-at-the-start", StartsAt(e)>>,
      <<"inputs-untouched", e.kept>>,
      <<"error-passed-on", IF e.failed THEN e.fail = Len(e.seen) + 1 ELSE e.fail = 0 \/ e.fail > Len(e.seen)>>,
      <<"update-rule", adam => Rule(e)>>,
      <<"number-of-steps", done => (IF adam THEN Count(e) ELSE LbCount(e))>>,
      <<"history-and-result", done => (IF adam THEN AdamOf(e) ELSE e.of # <<>> /\ Visited(e) /\ e.of[1] = e.seen[1].f)>>,
      <<"returned-within-bounds", done => InsideAll(e.x, e.b)>>,
      <<"state-is-the-result", done => e.own>>,
      <<"callback", done => (IF adam THEN AdamCb(e) ELSE LbCb(e))>>,
      <<"descends", done /\ ~adam => Down(e) /\ AtEnd(st, e)>>,
      <<"reaches-the-bottom", done /\ ~adam => Best(st, e)>>,
      <<"full-result", done /\ ~adam => Res(e)>> >>
INSTANCE TraceLoop WITH S0 <- S0_, Clauses <- Clauses, Step <- After
=============================================================================
