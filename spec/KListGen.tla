------------------------------- MODULE KListGen -------------------------------
(* A random structure, a pool of k-points, runs over lists drawn from it and *)
(* questions by the position in the list.                                    *)
EXTENDS RandStruct
CONSTANTS LEN
VARIABLES h
Init == h = <<>>
Centred(k, s) == [s EXCEPT !.k = k, !.x = 0, !.y = 0, !.r = IF k = "square" THEN 2 * @ ELSE @, !.c = 1, !.s = 0, !.q = 1]
KP(i) == LET w == Pick(1..5) IN IF w = 1 THEN <<0, 0>> ELSE <<Pick(-12..12), Pick(-12..12)>>
MPool(x, y, sq) == << [k |-> <<x, 0>>, a |-> 0], [k |-> <<0, y>>, a |-> 90], [k |-> <<0, 0>>, a |-> 0],
                      [k |-> <<0, 0>>, a |-> 90], [k |-> <<-x, 0>>, a |-> 180],
                      IF sq THEN [k |-> <<y, y>>, a |-> 45] ELSE [k |-> <<0, -y>>, a |-> -90] >>
First ==
  \E kind \in {Pick({"gme", "gme", "gme", "mirror", "mirror", "mirror", "pwe", "ese", "pol", "polmirror"})} :
  \E li \in {Pick(1..Len(Lats))} : \E sq \in {Pick({TRUE, FALSE})} :
  \E n \in {Pick(1..2)} : \E lay \in {<<RandLayer(1), RandLayer(2)>>} : \E el \in {Pick(1..3)} : \E eu \in {Pick(1..3)} :
  \E tr \in {Pick({"abs", "tbt"})} : \E w \in {Pick(1..100)} : \E sh \in {Pick({"circle", "square"})} :
  \E kx \in {Pick(1..9)} : \E ky \in {Pick(1..9)} :
   LET mir == kind \in {"mirror", "polmirror"}
       ly == IF mir THEN [i \in 1..n |-> [lay[i] EXCEPT !.shapes = <<Centred(sh, lay[i].shapes[1])>>]] ELSE SubSeq(lay, 1, n)
       v == V0([lat |-> IF mir THEN (IF sq THEN <<60, 0, 0, 60>> ELSE <<60, 0, 0, 72>>) ELSE Lats[li], el |-> el, eu |-> eu,
                layers |-> IF kind \in {"pwe", "ese"} THEN <<lay[1]>> ELSE ly,
                clad |-> <<<<>>, <<>>>>, qws |-> <<>>], <<0, 0>>)
   IN h' = << [op |-> "base", kind |-> IF kind = "mirror" THEN "gme" ELSE IF kind = "polmirror" THEN "pol" ELSE kind,
               v |-> v, tr |-> tr, w |-> w,
               pool |-> IF mir THEN MPool(kx, ky, sq) ELSE [i \in 1..6 |-> [k |-> KP(i), a |-> 0]],
               gi |-> IF mir THEN Pick({<<0, 1>>, <<0, 1, 2>>, <<1, 0>>})
                      ELSE Pick({<<0>>, <<0, 1>>, <<2, 0>>, <<0, 1, 2, 3>>}),
               sy |-> IF mir THEN Pick({"both", "odd", "even"}) ELSE "none", sp |-> Pick({TRUE, FALSE}),
               sol |-> IF mir THEN "eigh" ELSE Pick({"eigh", "eigsh"}), sg |-> Pick({0, 4}),
               pol |-> Pick({"te", "tm"})] >>
Run == \E n \in {Pick(1..6)} : \E ks \in {[i \in 1..n |-> Pick(1..6)]} : \E new \in {Pick({TRUE, FALSE})} :
  h' = Append(h, [op |-> "run", ks |-> ks, new |-> new])
Query == \E pos \in {Pick(0..5)} : \E m \in {Pick(0..2)} : \E q \in {Pick({"rad", "field"})} :
  h' = Append(h, [op |-> "query", pos |-> pos, m |-> m, q |-> q])
Next == \/ h = <<>> /\ First
        \/ Len(h) \in 1..(LEN - 1) /\ IF Len(h) % 2 = 1 THEN Run ELSE Query
        \/ Len(h) = LEN /\ PrintT("CASE " \o ToJson(h)) /\ h' = Append(h, [op |-> "end"])
Spec == Init /\ [][Next]_h
=============================================================================
