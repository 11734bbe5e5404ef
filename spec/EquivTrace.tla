------------------------------ MODULE EquivTrace ------------------------------
(* Judges spectra of real simulations of equivalent descriptions.            *)
(* e.f: sequence of spectra (one per polarisation), frequencies * 1e7,       *)
(* e.g: losses * 1e9 of the first spectrum (may be empty).                   *)
EXTENDS Equiv, Fix, Json, IOUtils
VARIABLES t, l, s, bad
Start(tr) == [v |-> tr[1].v, f |-> <<>>, g |-> <<>>]
TF == TLCGet(77).consts.tf
TG == TLCGet(77).consts.tg
GAP == 1000
After(st, e) == [v |-> Apply(st.v, e),
                 f |-> IF e.op = "base" /\ e.ok THEN e.f ELSE st.f,
                 g |-> IF e.op = "base" /\ e.ok THEN e.g ELSE st.g]
(* value * FDen / FNum = base *)
Scaled(v, x, y, tol) == Fin(x) /\ Fin(y) /\ AbsI(x * FDen(v) - y * FNum(v)) <= tol * FNum(v) * FDen(v)
SameSpec(v, fs, gs) == Len(fs) = Len(gs) /\ \A i \in DOMAIN fs : Scaled(v, fs[i], gs[i], TF)
(* a loss belongs to one mode only if no other has the same frequency        *)
Alone(fs, i) == \A j \in DOMAIN fs : j = i \/ AbsI(fs[i] - fs[j]) > GAP
(* losses go with frequency scale as frequencies do                          *)
SameLoss(v, fs, gs, hs) ==
  \A i \in DOMAIN gs : Alone(fs, i) => i \in DOMAIN hs /\ Scaled(v, hs[i], gs[i], TG)
(* each value of the small cell occurs in the spectrum of the large one, as  *)
(* long as it is below the last one computed there                           *)
Contained(v, fs, gs) ==
  \A i \in DOMAIN gs : gs[i] * FNum(v) < fs[Len(fs)] * FDen(v) - TF * FNum(v) * FDen(v)
     => \E j \in DOMAIN fs : Scaled(v, fs[j], gs[i], TF)
(* and its loss with it *)
ContainedLoss(v, fs, hs, gs, ls) ==
  \A i \in DOMAIN ls : Alone(gs, i) /\ gs[i] * FNum(v) < fs[Len(fs)] * FDen(v) - GAP * FDen(v) * FNum(v)
     => LET J == { j \in DOMAIN fs : Scaled(v, fs[j], gs[i], TF) }
        IN (\E j \in J : Alone(fs, j)) => \E j \in J : j \in DOMAIN hs /\ Scaled(v, hs[j], ls[i], TG)
FinAll(e) == /\ \A p \in DOMAIN e.f : FinV(e.f[p])
             /\ FinV(e.g)
Clauses(st, e) ==
  LET v2 == Apply(st.v, e) IN
  IF e.op = "end" THEN <<>>
  ELSE IF ~e.ok THEN << <<"accepted", FALSE>> >>
  ELSE IF ~FinAll(e) THEN << <<"finite", FALSE>> >>
  ELSE IF e.op = "base" THEN
   << <<"ascending", \A p \in DOMAIN e.f : SortedV(e.f[p], 0)>> >>
  ELSE IF e.op = "double" THEN
   << <<"in-supercell", \A p \in DOMAIN e.f : Contained(v2, e.f[p], st.f[p])>>,
      <<"in-supercell-loss", ContainedLoss(v2, e.f[1], e.g, st.f[1], st.g)>> >>
  ELSE
   << <<"built-as-described", e.v = v2>>,
      <<"same-frequencies:" \o e.op, Len(e.f) = Len(st.f) /\
            \A p \in DOMAIN e.f : SameSpec(v2, e.f[p], st.f[p])>>,
      <<"same-losses:" \o e.op, SameLoss(v2, st.f[1], st.g, e.g)>> >>
INSTANCE TraceLoop WITH S0 <- Start, Clauses <- Clauses, Step <- After
=============================================================================
