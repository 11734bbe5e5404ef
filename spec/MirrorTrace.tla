------------------------------ MODULE MirrorTrace ------------------------------
(* Judges separated runs of real guided-mode expansions.  e.none, e.odd,     *)
(* e.even: complete spectra * 10^8; e.both with labels e.lab; e.g indexes of *)
(* the reciprocal vectors; e.F[i] the field of mode i of 'both': per G       *)
(* [re u, im u, re v, im v, re z, im z] in lattice coordinates, relative to  *)
(* its largest component (10^5).                                             *)
EXTENDS Mirror, Fix, Json, IOUtils
VARIABLES t, l, s, bad
FT == 100
Start(tr) == [cls |-> [x \in {} |-> 0]]
(* all planes present: the partition depends only on the kind of direction   *)
Kind(e) == (IF e.t = 0 THEN "G" ELSE "k") \o
           (IF e.lat = "square" THEN (IF e.a % 90 = 0 THEN "axis" ELSE "diagonal")
            ELSE IF e.lat = "hexagonal" THEN (IF e.a % 60 = 0 THEN "K" ELSE "M") ELSE (IF e.a = 0 THEN "x" ELSE "y"))
Symmetric(e) == e.full /\ (e.t # 0 \/ TRUE)
After(st, e) == IF e.ok /\ Symmetric(e) /\ Kind(e) \notin DOMAIN st.cls
                THEN [st EXCEPT !.cls = @ @@ (Kind(e) :> [even |-> e.even, odd |-> e.odd])] ELSE st
RECURSIVE Merge(_, _)
Merge(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a
               ELSE IF Head(a) <= Head(b) THEN <<Head(a)>> \o Merge(Tail(a), b) ELSE <<Head(b)>> \o Merge(a, Tail(b))
RECURSIVE Part(_, _, _)
Part(f, lab, p) == IF f = <<>> THEN <<>> ELSE (IF Head(lab) = p THEN <<Head(f)>> ELSE <<>>) \o Part(Tail(f), Tail(lab), p)
(* the field of a mode of parity par under the reflection m                  *)
HasParity(g, F, m, sgn) ==
  LET at == [i \in DOMAIN g |-> CHOOSE j \in DOMAIN g : g[j] = ReflG(m, g[i])]
  IN \A i \in DOMAIN g : \A c \in 1..2 :
       LET a == F[i]  b == F[at[i]]
           r == Refl(m, <<a[c], a[2 + c]>>)
       IN Close(b[c], sgn * r[1], 60) /\ Close(b[2 + c], sgn * r[2], 60) /\ Close(b[4 + c], sgn * a[4 + c], 60)
IsClosed(g, m) == \A i \in DOMAIN g : \E j \in DOMAIN g : g[j] = ReflG(m, g[i])
Num(lab, p) == Cardinality({ i \in DOMAIN lab : lab[i] = p })
Clauses(st, e) ==
  IF ~e.ok THEN << <<"accepted", FALSE>> >>
  ELSE LET fin == FinV(e.none) /\ FinV(e.both) /\ FinV(e.odd) /\ FinV(e.even)
           ln == Len(e.both) = Len(e.none) /\ Len(e.lab) = Len(e.both) /\ Len(e.F) = Len(e.both) IN
   << <<"finite", fin>>, <<"same-number", ln>>,
      <<"ascending", SortedV(e.both, 0) /\ SortedV(e.odd, 0) /\ SortedV(e.even, 0)>>,
      <<"even-and-odd-make-the-spectrum", fin => CloseV(Merge(e.even, e.odd), e.none, FT)>>,
      <<"both-is-the-spectrum", fin => CloseV(e.both, e.none, FT)>>,
      <<"labels-are-1-and-minus-1", \A i \in DOMAIN e.lab : e.lab[i] \in {1, -1}>>,
      <<"labelled-parts", fin /\ ln => CloseV(Part(e.both, e.lab, 1), e.even, FT) /\ CloseV(Part(e.both, e.lab, -1), e.odd, FT)>>,
      <<"excess-of-even-modes", e.cutoff \/ Num(e.lab, 1) - Num(e.lab, -1) =
            Excess(e.m, { e.g[i] : i \in DOMAIN e.g }, e.nte, e.ntm)>>,
      <<"labels-of-odd-and-even-runs", e.labok>>,
      <<"label-is-the-parity-of-the-field", IsClosed(e.g, e.m) /\ ln /\ \A i \in DOMAIN e.F :
            e.F[i] = <<>> \/ (FinM(e.F[i]) /\ HasParity(e.g, e.F[i], e.m, (IF e.fd = "H" THEN -1 ELSE 1) * e.lab[i]))>>,
      <<"equivalent-directions", Symmetric(e) /\ Kind(e) \in DOMAIN st.cls =>
            LET c == st.cls[Kind(e)] IN CloseV(e.even, c.even, FT) /\ CloseV(e.odd, c.odd, FT)>> >>
INSTANCE TraceLoop WITH S0 <- Start, Clauses <- Clauses, Step <- After
=============================================================================
