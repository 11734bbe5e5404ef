------------------------------ MODULE SelectTrace ------------------------------
(* Judges what real simulations return against their complete spectrum.      *)
(* e.f frequencies * 10^8 per k; e.ov[k][j] squared overlaps * 10^4 of mode j *)
(* with every mode of the complete list; e.gram deviations from the identity. *)
EXTENDS Select, Fix, Json, IOUtils
VARIABLES t, l, s, bad
FT == 100
Start(tr) == [f |-> <<>>, symm |-> <<>>, kind |-> "none"]
After(st, e) == IF e.op = "full" /\ e.ok THEN [f |-> e.f, symm |-> e.symm, kind |-> e.kind] ELSE st
(* the list a request selects from, at k                                     *)
RECURSIVE Only(_, _, _)
Only(f, sy, p) == IF f = <<>> THEN <<>>
                  ELSE (IF Head(sy) = p THEN <<Head(f)>> ELSE <<>>) \o Only(Tail(f), Tail(sy), p)
From(st, e, k) == CASE e.sy = "odd" -> Only(st.f[k], st.symm[k], -1)
                    [] e.sy = "even" -> Only(st.f[k], st.symm[k], 1)
                    [] OTHER -> st.f[k]
K(st) == DOMAIN st.f
MayServe(st, e) == \A k \in K(st) : e.n <= Len(From(st, e, k))
Count(st, e, k) == MinI(e.n, Len(From(st, e, k)))
Cuts(st) == st.kind \in {"pwe", "ese"}
Belongs(F, f, ov) ==
  \A j \in DOMAIN f : /\ FinV(ov[j])
                      /\ \A i \in DOMAIN F : ov[j][i] > 20 => Close(F[i], f[j], 200)
                      /\ AbsI(SumSeq(ov[j]) - 10000) <= 60
Clauses(st, e) ==
  IF e.op = "full" THEN
    IF ~e.ok THEN << <<"accepted", FALSE>> >>
    ELSE << <<"finite", FinM(e.f)>>,
            <<"complete", \A k \in DOMAIN e.f : Len(e.f[k]) = e.dim[k]>>,
            <<"ascending", \A k \in DOMAIN e.f : Ascending(e.f[k], 0)>>,
            <<"orthonormal", FinV(e.gram) /\ \A k \in DOMAIN e.gram : e.gram[k] <= 100>>,
            <<"parities", e.kind = "mirror" => \A k \in DOMAIN e.f : Len(e.symm[k]) = Len(e.f[k])>> >>
  ELSE IF st.f = <<>> THEN <<>>
  ELSE IF ~e.ok THEN << <<"accepted", ~Cuts(st) /\ ~MayServe(st, e)>> >>
  ELSE << <<"too-many-refused", Cuts(st) \/ MayServe(st, e)>>,
          <<"k-points", DOMAIN e.f = K(st)>>,
          <<"finite", FinM(e.f)>>,
          <<"ascending", \A k \in K(st) : Ascending(e.f[k], 0)>>,
          <<"number", \A k \in K(st) : Len(e.f[k]) = Count(st, e, k) /\ Len(e.ov[k]) = Len(e.f[k])>>,
          <<"orthonormal", FinV(e.gram) /\ \A k \in DOMAIN e.gram : e.gram[k] <= 100>>,
          <<"eigenvectors-belong", \A k \in K(st) : FinV(e.f[k]) => Belongs(st.f[k], e.f[k], e.ov[k])>>,
          <<"parities", e.sy \in {"odd", "even"} => \A k \in K(st) : \A j \in DOMAIN e.symm[k] :
                e.symm[k][j] = IF e.sy = "odd" THEN -1 ELSE 1>>,
          <<"nearest", FinM(e.f) => \A k \in K(st) :
              LET F == From(st, e, k)  ch == Chosen(F, e.f[k], FT)
              IN Len(ch) = Len(e.f[k]) /\
                 Nearest(F, ch, IF e.sol = "eigsh" THEN "square" ELSE "linear", e.sg, 20000,
                         IF e.sol = "eigsh" THEN 200000 ELSE 10 * FT)>> >>
INSTANCE TraceLoop WITH S0 <- Start, Clauses <- Clauses, Step <- After
=============================================================================
