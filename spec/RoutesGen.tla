------------------------------ MODULE RoutesGen ------------------------------
(* A random structure and question, answered first in the plainest way, then *)
(* by a walk over the numerical options: every step changes some of them.    *)
EXTENDS RandStruct
CONSTANTS LEN
VARIABLES h
Init == h = <<>>
Centred(k, s) == [s EXCEPT !.k = k, !.x = 0, !.y = 0, !.r = IF k = "square" THEN 2 * @ ELSE @, !.c = 1, !.s = 0, !.q = 1]
Plain == [bk |-> "numpy", sol |-> "eigh", gc |-> "exact", npts |-> 1000, tr |-> "abs", late |-> "inline", sp |-> FALSE,
          step |-> 10, grad |-> "exact", new |-> TRUE, verb |-> FALSE, kz |-> FALSE, tol |-> 10]
KP(i) == LET w == Pick(1..6) IN IF w = 1 THEN <<0, 0>> ELSE <<Pick(-12..12), Pick(-12..12)>>
First ==
  \E kind \in {Pick({"gme", "gme", "gme", "gme", "mirror", "mirror", "pwe", "ese", "pol", "polmirror"})} :
  \E li \in {Pick(1..(Len(Lats) + 2))} : \E sq \in {Pick({TRUE, FALSE})} :
  \E n \in {Pick(1..2)} : \E lay \in {<<RandLayer(1), RandLayer(2)>>} : \E el \in {Pick(1..3)} : \E eu \in {Pick(1..3)} :
  \E c1 \in {RandClad(1)} : \E sh \in {Pick({"circle", "square"})} : \E nk \in {Pick(1..3)} : \E a \in {Pick(1..9)} :
   LET mir == kind \in {"mirror", "polmirror"}
       ly == IF mir THEN [i \in 1..n |-> [lay[i] EXCEPT !.shapes = <<Centred(sh, lay[i].shapes[1])>>]] ELSE SubSeq(lay, 1, n)
       v == V0([lat |-> IF mir THEN (IF sq THEN <<60, 0, 0, 60>> ELSE <<60, 0, 0, 72>>)
                        ELSE IF li > Len(Lats) THEN <<60, 0, 0, 60>> ELSE Lats[li], el |-> el, eu |-> eu,
                layers |-> IF kind \in {"pwe", "ese"} THEN <<lay[1]>> ELSE ly,
                clad |-> IF kind = "gme" THEN <<c1, <<>>>> ELSE <<<<>>, <<>>>>, qws |-> <<>>], <<0, 0>>)
   IN h' = << [op |-> "base", kind |-> IF kind = "mirror" THEN "gme" ELSE IF kind = "polmirror" THEN "pol" ELSE kind,
               v |-> v, tr0 |-> Pick({"abs", "tbt"}), gm |-> Pick(1..3), ks |-> IF mir THEN [i \in 1..nk |-> <<a - i, 0>>] ELSE [i \in 1..nk |-> KP(i)],
               gi |-> IF mir THEN Pick({<<0, 1>>, <<0, 1, 2>>, <<1, 0>>})
                      ELSE Pick({<<0>>, <<0, 1>>, <<2, 0>>, <<0, 1, 2, 3>>, <<1>>, <<3, 1>>}),
               sy |-> IF mir THEN Pick({"both", "odd", "even"}) ELSE "none", sg |-> Pick({0, 0, 4}), only |-> Pick(1..8) = 1,
               ne |-> Pick({3, 5}), eff |-> Pick({"average", "average", "background"}),
               pol |-> Pick({"te", "tm"})], [op |-> "run", r |-> Plain] >>
(* one to three options change                                               *)
Change(r, w) ==
  CASE w = 1 -> [r EXCEPT !.bk = IF @ = "numpy" THEN "autograd" ELSE "numpy"]
    [] w = 2 -> [r EXCEPT !.sol = IF @ = "eigh" THEN "eigsh" ELSE "eigh"]
    [] w = 3 -> [r EXCEPT !.gc = IF @ = "exact" THEN "interp" ELSE "exact", !.npts = Pick({400, 1000, 2500})]
    [] w = 4 -> [r EXCEPT !.tr = IF @ = "abs" THEN "tbt" ELSE "abs"]
    [] w = 5 -> [r EXCEPT !.late = Pick({"inline", "run_im", "rad"})]
    [] w = 6 -> [r EXCEPT !.sp = ~@]
    [] w = 7 -> [r EXCEPT !.step = Pick({20, 10, 5})]
    [] w = 8 -> [r EXCEPT !.grad = IF @ = "exact" THEN "approx" ELSE "exact"]
    [] w = 9 -> [r EXCEPT !.verb = ~@]
    [] OTHER -> [r EXCEPT !.tol = Pick({8, 10, 12})]
Run == \E r \in {h[Len(h)].r} : \E w1 \in {Pick(1..10)} : \E w2 \in {Pick(1..10)} : \E w3 \in {Pick(1..4)} : \E new \in {Pick({TRUE, FALSE})} : \E one \in {Pick({TRUE, FALSE})} :
  h' = Append(h, [op |-> "run", r |-> [(IF one THEN Change(r, w3) ELSE Change(Change(Change(r, w1), w2), w3)) EXCEPT !.new = new]])
Next == \/ h = <<>> /\ First
        \/ Len(h) \in 2..(LEN - 1) /\ Run
        \/ Len(h) = LEN /\ PrintT("CASE " \o ToJson(h)) /\ h' = Append(h, [op |-> "end"])
Spec == Init /\ [][Next]_h
=============================================================================
