------------------------------ MODULE GradTrace ------------------------------
(* Judges recorded gradients.  For an objective: v its value with the numpy  *)
(* backend and va with autograd (times 10^7), g the gradient along every site *)
(* of the structure (units of one step along it, times 10 S), for every       *)
(* direction c the differences of the objective at +1, -1, +2, -2 steps      *)
(* along c from its value (times S); joint: the gradient along the direction *)
(* taken as one parameter; hom: 10 S times -f/2 per step of permittivity.    *)
EXTENDS Grad, Fix, Json, IOUtils
VARIABLES t, l, s, bad
Start(tr) == [sites |-> <<>>, eps |-> <<>>]
After(st, e) == IF e.op = "base" THEN [sites |-> e.sites, eps |-> e.eps] ELSE st
RECURSIVE SumAbs(_, _, _)
SumAbs(c, g, n) == IF n = 0 THEN 0 ELSE SumAbs(c, g, n - 1) + AbsI(c[n] * g[n])
Rough(v) == LET a == AbsI(2 * (v[1] - v[2]) - (v[3] - v[4])) b == AbsI(4 * (v[1] + v[2]) - (v[3] + v[4]))
            IN IF a > b THEN a ELSE b
Smooth(v) == FinV(v) /\ Rough(v) <= 12 + (AbsI(v[1]) + AbsI(v[2])) \div 2
(* approximate gradients are exact along translations of shapes              *)
Allowed(st, e, c) == ~e.approx \/ \A i \in DOMAIN c : c[i] # 0 => st.sites[i].f \in {"x", "y"}
Tol(e, c, v) == 240 + 75 * Rough(v) + AbsI(Diff12(v)) \div e.rel + (SumAbs(c, e.g, Len(c)) \div e.rel) + 12 * Len(c)
Derivative(st, e) == \A i \in DOMAIN e.dirs : LET d == e.dirs[i] IN
   (Smooth(d.v) /\ Allowed(st, e, d.c)) => Close(12 * Dot(d.c, e.g), 10 * Diff12(d.v), Tol(e, d.c, d.v))
LawTol(e, c) == 40 + SumAbs(c, e.g, Len(c)) \div e.rel + Len(c) + SumAbs([i \in DOMAIN c |-> 1], c, Len(c))
Scaling(st, e) == LET c == [i \in DOMAIN st.sites |-> IF IsEps(st.sites[i]) THEN st.eps[i] ELSE 0] IN
   Close(Dot(c, e.g), e.hom, LawTol(e, c) + AbsI(e.hom) \div e.rel)
Moved(st, e, P(_)) == LET c == [i \in DOMAIN st.sites |-> IF P(st.sites[i]) THEN 1 ELSE 0] IN Close(Dot(c, e.g), 0, LawTol(e, c))
Joint(e) == \A i \in DOMAIN e.joint : Close(e.joint[i], Dot(e.dirs[i].c, e.g), 40 + SumAbs(e.dirs[i].c, e.g, Len(e.g)) \div e.rel + 3 * Len(e.g))
Clauses(st, e) ==
  IF e.op = "base" THEN <<>>
  ELSE IF ~e.ok THEN << <<"accepted", FALSE>> >>
  ELSE IF e.skip THEN <<>>
  ELSE IF ~FinV(e.g) \/ ~FinV(e.joint) \/ ~Fin(e.va) THEN << <<"finite", FALSE>> >>
  ELSE << <<"finite", TRUE>>, <<"same-value", Close(e.v, e.va, 20)>>,
          <<"gradient-is-derivative", Derivative(st, e)>>,
          <<"scaling-of-permittivity", e.pure /\ ~e.approx => Scaling(st, e)>>,
          <<"translation", e.pure /\ ~e.approx => Moved(st, e, IsX) /\ (e.sym \/ Moved(st, e, IsY))>>,
          <<"joint-parameter", Joint(e)>> >>
INSTANCE TraceLoop WITH S0 <- Start, Clauses <- Clauses, Step <- After
=============================================================================
