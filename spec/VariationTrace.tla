----------------------------- MODULE VariationTrace -----------------------------
(* Judges the spectra of real objects.  State: the spectrum before.          *)
EXTENDS Variation, Fix, Json, IOUtils
VARIABLES t, l, s, bad
Start(tr) == <<>>
After(st, e) == IF e.ok THEN << e >> ELSE st
Clauses(st, e) ==
  IF ~e.ok THEN << <<"accepted:" \o e.kind, FALSE>> >>
  ELSE << <<"ascending:" \o e.kind, FinV(e.f) /\ SortedV(e.f, 0)>> >> \o
       (IF st = <<>> \/ ~FinV(e.f) THEN <<>>
        ELSE << <<"law-of:" \o e.kind \o ":" \o e.op, Law(e.op, st[1].f, e.f, e.lo, e.hi, e.tol)>>,
                <<"states-do-not-vanish:" \o e.kind \o ":" \o e.op, Len(e.f) >= Len(st[1].f)>>,
                <<"same-number:" \o e.kind \o ":" \o e.op, e.op \in {"modes", "waves"} \/ e.kind = "slab" \/ Len(e.f) = Len(st[1].f)>> >>)
INSTANCE TraceLoop WITH S0 <- Start, Clauses <- Clauses, Step <- After
=============================================================================
