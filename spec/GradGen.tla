------------------------------- MODULE GradGen -------------------------------
(* A random structure (some of them at special points: shapes of the same    *)
(* permittivity as the layer, centred shapes, mirror symmetric), then        *)
(* objectives: where, how solved, of which observables, and the directions   *)
(* in the space of parameters along which differences are taken.             *)
EXTENDS RandStruct, Grad
CONSTANTS LEN, KIND
VARIABLES h
Init == h = <<>>
Tame(sh, spec, eb) == CASE spec = "same" -> [sh EXCEPT !.eps = eb]
                       [] spec = "centre" -> IF sh.k = "poly" THEN [sh EXCEPT !.k = "square", !.x = 0, !.y = 0] ELSE [sh EXCEPT !.x = 0, !.y = 0, !.c = 1, !.s = 0]
                       [] spec = "mirror" -> IF sh.k = "poly" THEN [sh EXCEPT !.k = "circle", !.y = 0] ELSE [sh EXCEPT !.y = 0, !.c = 1, !.s = 0]
                       [] OTHER -> sh
KP(i) == <<Pick(1..12), Pick(-12..12)>>
First ==
  \E spec \in {Pick({"plain", "plain2", "plain3", "same", "centre", "mirror"})} : \E li \in {IF spec = "mirror" THEN Pick(1..2) ELSE Pick(1..Len(Lats))} :
  \E n \in {Pick(1..2)} : \E lay \in {<<RandLayer(1), RandLayer(2)>>} : \E cl \in {<<RandClad(1), RandClad(2)>>} :
  \E el \in {Pick(1..3)} : \E eu \in {Pick(1..3)} : \E tr \in {Pick({"abs", "tbt"})} :
   LET ly == [i \in 1..n |-> [lay[i] EXCEPT !.shapes = [j \in DOMAIN lay[i].shapes |-> IF i = 1 \/ spec = "mirror" THEN Tame(lay[i].shapes[j], spec, lay[i].eps) ELSE lay[i].shapes[j]]]]
       c2 == [i \in 1..2 |-> [j \in DOMAIN cl[i] |-> Tame(cl[i][j], IF spec = "mirror" THEN spec ELSE "plain", 0)]]
       s == [lat |-> Lats[li], el |-> el, eu |-> eu, layers |-> ly, clad |-> IF KIND = "gme" THEN c2 ELSE <<<<>>, <<>>>>, qws |-> <<>>]
   IN h' = << [op |-> "base", kind |-> KIND, v |-> V0(s, <<0, 0>>), tr |-> tr, spec |-> spec, pot |-> Pick(0..4),
               sites |-> CASE KIND = "gme" -> SitesOf(s, spec = "mirror") [] KIND = "pwe" -> FlatSites(s) [] KIND = "exc" -> WellSites(s)] >>
Coef(n) == [i \in 1..n |-> Pick({-2, -1, 0, 0, 1, 2})]
Comp == Pick({"x", "y", "z"})
Obs(i) == [w |-> Pick({"f", "im", "h", "e", "d", "rad"}), m |-> Pick(0..3), c |-> Comp, l |-> Pick(1..2), z |-> Pick(1..9), wt |-> Pick({1, 2, -1, 3})]
Obj == \E n \in {Len(h[1].sites)} : \E q \in {Pick(1..2)} : \E o \in {<<Obs(1), Obs(2)>>} : \E mono \in {Pick(1..4)} :
  h' = Append(h, [op |-> "obj", k |-> KP(1), k2 |-> KP(2), obs |-> IF mono = 1 THEN [i \in 1..q |-> [o[i] EXCEPT !.w = IF i = 1 /\ KIND = "gme" THEN Pick({"f", "im"}) ELSE "f"]] ELSE SubSeq(o, 1, q),
       dirs |-> <<Coef(n), Coef(n)>>, gi |-> Pick({<<0>>, <<0, 1>>, <<1, 2>>, <<0, 1, 2, 3>>, <<0, 3>>}), sig |-> Pick({0, 0, 35}),
       solver |-> IF h[1].spec = "mirror" THEN "eigh" ELSE Pick({"eigh", "eigsh"}), interp |-> Pick(1..6) = 1, ci |-> Pick(BOOLEAN), pol |-> Pick({"te", "tm"}),
       kz |-> IF h[1].spec = "mirror" THEN Pick({"even", "odd", "both"}) ELSE "none", sp |-> Pick(BOOLEAN), approx |-> Pick(1..6) = 1, joint |-> Pick(1..4) = 1, fmap |-> Pick(1..5) = 1])
Next == \/ h = <<>> /\ First
        \/ Len(h) \in 1..(LEN - 1) /\ Obj
        \/ Len(h) = LEN /\ PrintT("CASE " \o ToJson(h)) /\ h' = Append(h, [op |-> "end"])
Spec == Init /\ [][Next]_h
=============================================================================
