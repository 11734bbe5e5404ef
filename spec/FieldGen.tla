------------------------------- MODULE FieldGen -------------------------------
(* Random structures on lattices whose reciprocal vectors are simple, then   *)
(* runs over a few k-points and questions about the fields.                  *)
EXTENDS RandStruct
CONSTANTS LEN, MODE
VARIABLES v, h
Gme == MODE \in {"gme", "eps"}
NLats == << <<60, 0, 0, 60>>, <<60, 0, 0, 80>>, <<60, 0, 30, 60>>, <<60, 0, 15, 45>>,
            <<40, 20, -20, 40>>, <<60, 0, -20, 60>> >>
(* a stripe along a1 + a2, three tenths of the cell *)
Stripe(L, e) ==
  LET px == (L[1] + L[3]) \div 2  py == (L[2] + L[4]) \div 2
      wx == (3 * L[1]) \div 10  wy == (3 * L[2]) \div 10
  IN [RandShape(1, 1..2) EXCEPT !.k = "poly", !.eps = e,
        !.xs = <<-px, -px + wx, px + wx, px>>, !.ys = <<-py, -py + wy, py + wy, py>>]
(* the whole cell as one shape *)
Whole(L, e) ==
  [RandShape(1, 1..2) EXCEPT !.k = "poly", !.eps = e,
     !.xs = IF L[1] * L[4] > L[2] * L[3] THEN <<0, L[1], L[1] + L[3], L[3]>> ELSE <<0, L[3], L[1] + L[3], L[1]>>,
     !.ys = IF L[1] * L[4] > L[2] * L[3] THEN <<0, L[2], L[2] + L[4], L[4]>> ELSE <<0, L[4], L[2] + L[4], L[2]>>]
(* any unit of length *)
Unit(x) == IF MODE = "eps" THEN [x EXCEPT !.un = Pick(0..4)] ELSE x
Init == h = <<>> /\ v = <<>>
First ==
  \E li \in {Pick(1..Len(NLats))} : \E n \in {IF Gme THEN Pick({1, 2, 2, 3}) ELSE 1} :
  \E lay \in {<<RandLayer(1), RandLayer(2), RandLayer(3)>>} :
  \E cl \in {<<RandClad(1), RandClad(2)>>} : \E un \in {Pick(1..4)} :
  \E el \in {Pick(1..3)} : \E eu \in {Pick(1..3)} : \E tr \in {Pick(1..3)} : \E w \in {Pick(1..100)} :
   LET plain == [i \in 1..n |-> [lay[i] EXCEPT !.shapes = <<>>]]
       same == [i \in 1..n |-> [lay[i] EXCEPT !.shapes = [j \in DOMAIN @ |-> [@[j] EXCEPT !.eps = lay[i].eps]]]]
   IN
    /\ v' = Unit(V0([lat |-> NLats[li], el |-> el, eu |-> eu,
               layers |-> IF MODE = "exc" /\ un = 2
                          THEN <<[lay[1] EXCEPT !.shapes = <<Whole(NLats[li], 2)>>]>>
                          ELSE IF Gme /\ un = 1 THEN SubSeq([lay EXCEPT ![1].shapes = <<>>], 1, n)
                          ELSE IF MODE = "eps" /\ un = 2
                          THEN SubSeq([lay EXCEPT ![n].shapes = <<Stripe(NLats[li], el)>>], 1, n)
                          ELSE IF ~Gme /\ un = 1 THEN plain ELSE IF ~Gme /\ un = 2 THEN same ELSE SubSeq(lay, 1, n),
               clad |-> IF Gme THEN cl ELSE <<<<>>, <<>>>>, qws |-> <<>>], <<0, 0>>))
    /\ h' = << [op |-> "base", v |-> v', w |-> w, uniform |-> ~Gme /\ un <= 2, cover |-> IF un = 1 THEN "none" ELSE IF un = 2 THEN "all" ELSE "no",
               tr |-> IF MODE = "pwe" \/ tr = 1 THEN "tbt" ELSE "abs"] >>
KP(i) == LET w == Pick(1..6) IN IF w = 1 THEN <<0, 0>> ELSE <<Pick(-10..10), Pick(-10..10)>>
Run == \E k1 \in {KP(1)} : \E k2 \in {KP(2)} : \E pol \in {Pick({"te", "tm", "TE", "TM"})} :
       \E n \in {Pick(3..7)} : \E ii \in {Pick(1..7)} :
       \E sv \in {Pick({"eig", "eigh", "eigsh"})} :
  /\ h' = Append(h, [op |-> "run", ks |-> <<k1, k2>>, pol |-> pol, n |-> n, inds |-> ii])
  /\ v' = v
Query == \E kind \in {Pick(0..1)} : \E i \in {Pick(0..2)} : \E lay \in {Pick(0..(Len(v.s.layers) + 1))} :
         \E zf \in {Pick(3..96)} : \E what \in {Pick({"ft", "ft", "views", "views", "norm", "interface"})} :
         \E comp \in {Pick({"x", "y", "z", "xy", "yx", "zx", "xyz"})} : \E nx \in {Pick(3..7)} :
         \E ny \in {Pick(3..7)} : \E fd \in {Pick({"H", "D", "E", "h", "d", "e"})} :
  /\ h' = Append(h, [op |-> what, kind |-> kind, i |-> i, lay |-> lay, zf |-> zf, comp |-> comp,
                     nx |-> nx, ny |-> ny, fd |-> fd])
  /\ v' = v
Next == \/ h = <<>> /\ First
        \/ Len(h) = 1 /\ Run
        \/ Len(h) \in 2..(LEN - 1) /\ IF Len(h) % 4 = 1 THEN Run ELSE Query
        \/ Len(h) = LEN /\ PrintT("CASE " \o ToJson(h))
           /\ h' = Append(h, [op |-> "end"]) /\ v' = v
Spec == Init /\ [][Next]_<<v, h>>
=============================================================================
