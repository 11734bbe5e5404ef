-------------------------------- MODULE PolGen --------------------------------
(* A random structure with wells, then rewritings of the set of wells: other *)
(* orders, wells divided into identical ones, vanishing strength, a subset   *)
(* switched off, the structure mirrored in time order of its photon options. *)
EXTENDS RandStruct
CONSTANTS LEN
VARIABLES h
Init == h = <<>>
Well(n) == [lay |-> Pick(1..n), at |-> Pick(1..9), e0 |-> Pick({0, 0, 10, 50, -30, 120}), V |-> Pick({0, 20, -30, 5}), m |-> Pick(1..4),
            f |-> <<Pick(0..4), Pick(0..4), Pick(0..2)>>, loss |-> Pick({0, 1, 20})]
KP(i) == <<Pick(1..12), Pick(-12..12)>>
First ==
  \E li \in {Pick(1..Len(Lats))} : \E n \in {Pick(1..2)} : \E lay \in {<<RandLayer(1), RandLayer(2)>>} :
  \E el \in {Pick(1..3)} : \E eu \in {Pick(1..3)} : \E q \in {Pick(1..3)} : \E tr \in {Pick({"abs", "tbt"})} :
  \E flat \in {Pick(1..6) = 1} :
   LET ly == SubSeq(IF flat THEN [i \in 1..2 |-> [lay[i] EXCEPT !.shapes = <<>>]] ELSE lay, 1, n)
       v == V0([lat |-> Lats[li], el |-> el, eu |-> eu, layers |-> ly, clad |-> <<<<>>, <<>>>>, qws |-> <<>>], <<0, 0>>)
   IN h' = << [op |-> "base", v |-> v, tr |-> tr, wells |-> [i \in 1..q |-> Well(n)], k |-> KP(1), flat |-> flat,
               gi |-> Pick({<<0>>, <<0, 1>>, <<2, 0>>, <<0, 1, 2, 3>>, <<1, 0>>}), n |-> Pick(2..6), mx |-> Pick(1..4), mode |-> Pick(0..2),
               str |-> Pick({1, 10, 100, 1000, 10000})] >>
Perms(q) == { p \in [1..q -> 1..q] : \A i, j \in 1..q : i # j => p[i] # p[j] }
Run == \E q \in {Len(h[1].wells)} : \E p \in {Pick(Perms(q))} : \E w \in {Pick(1..6)} : \E s \in {Pick(1..q)} : \E m \in {Pick(2..3)} : \E new \in {Pick(1..4)} :
  h' = Append(h, [op |-> "run", perm |-> IF Len(h) = 1 THEN [i \in 1..q |-> i] ELSE p,
                  what |-> IF Len(h) = 1 THEN "plain" ELSE CASE w = 1 -> "dark" [] w = 2 -> "plain" [] w \in {3, 4} -> "split" [] w = 5 -> "order" [] OTHER -> "off",
                  at |-> s, m |-> m])
Next == \/ h = <<>> /\ First
        \/ Len(h) \in 1..(LEN - 1) /\ Run
        \/ Len(h) = LEN /\ PrintT("CASE " \o ToJson(h)) /\ h' = Append(h, [op |-> "end"])
Spec == Init /\ [][Next]_h
=============================================================================
