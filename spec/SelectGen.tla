------------------------------ MODULE SelectGen ------------------------------
(* Simulations of random structures, asked for parts of their spectrum.      *)
EXTENDS RandStruct
CONSTANTS LEN
VARIABLES h
Init == h = <<>>
SLats == << <<60, 0, 0, 60>>, <<60, 0, 0, 72>>, <<60, 0, 0, 48>> >>
Centred(k, s) == [s EXCEPT !.k = k, !.x = 0, !.y = 0, !.r = IF k = "square" THEN 2 * @ ELSE @, !.c = 1, !.s = 0, !.q = 1]
First ==
  \E kind \in {Pick({"gme", "gme", "mirror", "mirror", "pwe", "ese"})} : \E li \in {Pick(1..Len(Lats))} :
  \E n \in {Pick(1..2)} : \E lay \in {<<RandLayer(1), RandLayer(2)>>} : \E el \in {Pick(1..3)} : \E eu \in {Pick(1..3)} :
  \E tr \in {Pick({"abs", "tbt"})} : \E w \in {Pick(1..100)} : \E k1 \in {Pick(1..9)} : \E k2 \in {<<Pick(-9..9), Pick(-9..9)>>} :
  \E sh \in {Pick({"circle", "square", "ellipse"})} :
   LET mir == kind = "mirror"
       ly == IF mir THEN [i \in 1..n |-> [lay[i] EXCEPT !.shapes = <<Centred(sh, lay[i].shapes[1])>>]] ELSE SubSeq(lay, 1, n)
       v == V0([lat |-> IF mir THEN SLats[(li % 3) + 1] ELSE Lats[li], el |-> el, eu |-> eu,
                layers |-> IF kind \in {"pwe", "ese"} THEN <<lay[1]>> ELSE ly,
                clad |-> <<<<>>, <<>>>>, qws |-> <<>>], <<0, 0>>)
   IN h' = << [op |-> "full", kind |-> kind, v |-> v, tr |-> tr, w |-> w,
               ks |-> IF mir THEN << <<k1, 0>>, <<w % 10, 0>> >> ELSE << <<k1, 3>>, k2 >>,
               gi |-> IF mir THEN Pick({<<0, 1>>, <<0, 1, 2>>, <<0, 1, 3>>})
                      ELSE Pick({<<0>>, <<1>>, <<0, 1>>, <<0, 2>>, <<0, 1, 2, 3>>}),
               pol |-> Pick({"te", "tm"})] >>
Run == \E nf \in {Pick({0, 0, 1, 2, 3, 5, 8, 10, 13, 16, 19, 20, 21})} : \E sg \in {Pick(0..70)} : \E w \in {Pick(1..3)} :
       \E sol \in {Pick({"eigh", "eigh", "eigsh"})} : \E sy \in {Pick({"none", "both", "odd", "even"})} :
       \E sp \in {Pick({TRUE, FALSE})} :
  LET mir == h[1].kind = "mirror" IN
  h' = Append(h, [op |-> "run", nf |-> nf, sg |-> IF w = 1 THEN 0 ELSE sg,
                  sol |-> IF mir /\ sy # "none" THEN "eigh" ELSE sol, sy |-> IF mir THEN sy ELSE "none", sp |-> sp])
Next == \/ h = <<>> /\ First
        \/ Len(h) \in 1..(LEN - 1) /\ Run
        \/ Len(h) = LEN /\ PrintT("CASE " \o ToJson(h)) /\ h' = Append(h, [op |-> "end"])
Spec == Init /\ [][Next]_h
=============================================================================
