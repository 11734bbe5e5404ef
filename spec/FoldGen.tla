-------------------------------- MODULE FoldGen --------------------------------
(* Slabs without pattern: no shapes, shapes of the background permittivity,  *)
(* or patterned slabs to be run with only_gmodes.                            *)
EXTENDS RandStruct
CONSTANTS LEN
VARIABLES v, h
NLats == << <<60, 0, 0, 60>>, <<60, 0, 0, 80>>, <<60, 0, 30, 60>>, <<60, 0, 15, 45>>,
            <<40, 20, -20, 40>>, <<60, 0, -20, 60>>, <<90, 0, 0, 60>> >>
Init == h = <<>> /\ v = <<>>
First ==
  \E li \in {Pick(1..Len(NLats))} : \E n \in {Pick({1, 1, 2, 3})} : \E lay \in {<<RandLayer(1), RandLayer(2), RandLayer(3)>>} :
  \E cl \in {<<RandClad(1), RandClad(2)>>} : \E el \in {Pick({1, 1, 2, 3})} : \E eu \in {Pick({1, 1, 2, 3})} :
  \E tr \in {Pick({"abs", "abs", "tbt"})} : \E kind \in {Pick({"none", "same", "same", "only", "only"})} :
   LET flat(L, e) == CASE kind = "none" -> <<>> [] kind = "same" -> [j \in DOMAIN L |-> [L[j] EXCEPT !.eps = e]] [] OTHER -> L
   IN /\ v' = V0([lat |-> NLats[li], el |-> el, eu |-> eu,
                  layers |-> [i \in 1..n |-> [lay[i] EXCEPT !.shapes = flat(@, lay[i].eps)]],
                  clad |-> <<flat(cl[1], el), flat(cl[2], eu)>>, qws |-> <<>>], <<0, 0>>)
      /\ h' = << [op |-> "base", v |-> v', kind |-> kind, tr |-> IF kind = "only" THEN "abs" ELSE tr] >>
KP(i) == LET w == Pick(1..6) IN IF w = 1 THEN <<0, 0>> ELSE IF w = 2 THEN <<Pick(-25..25), Pick(-25..25)>> ELSE <<Pick(-10..10), Pick(-10..10)>>
Run == \E k1 \in {KP(1)} : \E k2 \in {KP(2)} : \E n \in {Pick({4, 8, 15, 99, 99})} : \E ii \in {Pick(1..9)} :
       \E mo \in {<<Pick(0..9), Pick(0..9), Pick(0..9)>>} : \E zf \in {Pick(5..95)} :
  /\ h' = Append(h, [op |-> "run", ks |-> <<k1, k2>>, n |-> n, inds |-> ii, mo |-> mo, zf |-> zf]) /\ v' = v
Next == \/ h = <<>> /\ First
        \/ Len(h) \in 1..(LEN - 1) /\ Run
        \/ Len(h) = LEN /\ PrintT("CASE " \o ToJson(h)) /\ h' = Append(h, [op |-> "end"]) /\ v' = v
Spec == Init /\ [][Next]_<<v, h>>
=============================================================================
