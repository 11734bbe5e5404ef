------------------------------ MODULE VariationGen ------------------------------
(* A structure at one wave vector, then one change after the other, each of  *)
(* them in the direction in which the order of the spectra is known.         *)
EXTENDS RandStruct
CONSTANTS LEN
VARIABLES h
Kd == <<"gme", "gme", "gme", "pwe", "pwe", "pwe", "ese", "ese", "slab", "slab", "pol", "pol">>
Init == h = <<>>
First ==
  \E kd \in {Kd[Pick(1..12)]} : \E li \in {Pick(1..Len(Lats))} : \E n \in {Pick(1..2)} :
  \E lay \in {<<RandLayer(1), RandLayer(2)>>} : \E cl \in {<<RandClad(1), RandClad(2)>>} :
  \E el \in {Pick(1..4)} : \E eu \in {Pick(1..4)} : \E k \in {<<Pick(-10..10), Pick(-10..10)>>} :
  \E tr \in {Pick({"abs", "tbt"})} : \E m0 \in {Pick(0..4)} : \E neg \in {Pick({TRUE, FALSE})} :
  \E V \in {Pick(0..40)} : \E M \in {Pick(1..5)} : \E pol \in {Pick({"te", "tm"})} : \E ne \in {Pick(2..5)} :
  \E w \in {[i \in 1..Pick(1..3) |-> [lay |-> Pick(1..n), at |-> Pick(1..9), f |-> <<Pick(0..3), Pick(0..3), Pick(0..2)>>, e |-> Pick(-20..20), V |-> Pick(-20..30)]]} :
    LET lays == SubSeq(lay, 1, IF kd \in {"pwe", "slab"} THEN 1 ELSE n)
    IN h' = << [op |-> "base", kind |-> kd, k |-> k, tr |-> tr, m0 |-> m0, neg |-> neg, V |-> V, M |-> M, pol |-> pol, ne |-> ne, wells |-> w,
                v |-> V0([lat |-> Lats[li], el |-> el, eu |-> eu,
                          layers |-> IF kd = "slab" THEN [i \in DOMAIN lays |-> [lays[i] EXCEPT !.shapes = <<>>]] ELSE lays,
                          clad |-> IF kd \in {"slab", "pol"} THEN <<<<>>, <<>>>> ELSE cl, qws |-> <<>>], <<0, 0>>)] >>
Acts(kd) == CASE kd = "gme" -> <<"modes", "modes", "modes", "same">>
              [] kd = "pwe" -> <<"eps", "eps", "eps", "same">>
              [] kd = "ese" -> <<"waves", "well", "mass", "well">>
              [] kd = "slab" -> <<"eps", "thick", "thick", "same">>
              [] kd = "pol" -> <<"coupling", "coupling", "coupling", "same">>
Act == LET A == Acts(h[1].kind) IN
  \E a \in {A[Pick(1..4)]} : \E at \in {Pick(0..4)} : \E by \in {Pick(1..3)} :
    h' = Append(h, [op |-> a, at |-> at, by |-> by])
Next == \/ h = <<>> /\ First
        \/ Len(h) \in 1..(LEN - 1) /\ Act
        \/ Len(h) = LEN /\ PrintT("CASE " \o ToJson(h)) /\ h' = Append(h, [op |-> "end"])
Spec == Init /\ [][Next]_h
=============================================================================
