-------------------------------- MODULE RadGen --------------------------------
(* Random slabs, runs with losses, and questions about the radiation.        *)
EXTENDS RandStruct
CONSTANTS LEN
VARIABLES v, h
NLats == << <<60, 0, 0, 60>>, <<60, 0, 0, 80>>, <<60, 0, 30, 60>>, <<60, 0, 15, 45>>,
            <<40, 20, -20, 40>>, <<60, 0, -20, 60>>, <<90, 0, 0, 60>> >>
Init == h = <<>> /\ v = <<>>
First ==
  \E li \in {Pick(1..Len(NLats))} : \E n \in {Pick({1, 2, 2, 3})} :
  \E lay \in {<<RandLayer(1), RandLayer(2), RandLayer(3)>>} :
  \E cl \in {IF Pick(1..3) = 1 THEN <<RandClad(1), RandClad(2)>> ELSE <<<<>>, <<>>>>} : \E sy \in {Pick({"none", "none", "z"})} :
  \E el \in {Pick(1..5)} : \E eu \in {Pick(1..5)} : \E tr \in {Pick(1..3)} : \E w \in {Pick(1..100)} :
   LET ls == IF sy = "z" THEN (IF n = 1 THEN <<lay[1]>> ELSE IF n = 2 THEN <<lay[1], lay[1]>> ELSE <<lay[1], lay[2], lay[1]>>)
             ELSE SubSeq(lay, 1, n)
   IN
    /\ v' = V0([lat |-> NLats[li], el |-> el, eu |-> IF sy = "z" THEN el ELSE eu, layers |-> ls,
               clad |-> IF sy = "z" THEN <<cl[1], cl[1]>> ELSE cl, qws |-> <<>>], <<0, 0>>)
    /\ h' = << [op |-> "base", v |-> v', w |-> w, sy |-> sy, tr |-> IF tr = 1 THEN "tbt" ELSE "abs"] >>
KP(i) == LET w == Pick(1..8) IN IF w = 1 THEN <<0, 0>> ELSE IF w = 2 THEN <<Pick(-30..30), Pick(-30..30)>> ELSE <<Pick(-10..10), Pick(-10..10)>>
Run == \E k1 \in {KP(1)} : \E k2 \in {KP(2)} : \E n \in {Pick(4..12)} : \E ii \in {Pick(1..8)} : \E im \in {Pick({TRUE, TRUE, FALSE})} :
  /\ h' = Append(h, [op |-> "run", ks |-> <<k1, k2>>, n |-> n, inds |-> ii, im |-> im]) /\ v' = v
Query == \E what \in {Pick({"sub", "sub", "golden", "golden", "back", "again"})} : \E kind \in {Pick(0..1)} : \E ln \in {Pick(1..4)} :
         \E a \in {<<Pick(0..11), Pick(0..11), Pick(0..11), Pick(0..11)>>} :
  /\ h' = Append(h, [op |-> what, kind |-> kind, minds |-> SubSeq(a, 1, ln)]) /\ v' = v
Next == \/ h = <<>> /\ First
        \/ Len(h) = 1 /\ Run
        \/ Len(h) \in 2..(LEN - 1) /\ IF Len(h) % 5 = 1 THEN Run ELSE Query
        \/ Len(h) = LEN /\ PrintT("CASE " \o ToJson(h)) /\ h' = Append(h, [op |-> "end"]) /\ v' = v
Spec == Init /\ [][Next]_<<v, h>>
=============================================================================
