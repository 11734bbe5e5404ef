------------------------------ MODULE BzPathGen ------------------------------
EXTENDS BzPath, Json
CONSTANTS LEN
VARIABLES h
Pick(S) == RandomElement(S)
RandPt(lat) ==
  LET w == Pick(1..12)  good == { n \in Names : Point(lat, n) # <<>> }
  IN IF w <= 6 THEN [name |-> Pick(good), p |-> <<0, 0>>]
     ELSE IF w = 7 THEN [name |-> "", p |-> <<0, 0>>]
     ELSE IF w = 8 THEN [name |-> "", p |-> <<Pick(-2..2) * 15, 0>>]
     ELSE IF w \in 9..10 THEN LET d == Pick({<<7, 0>>, <<7, 7>>, <<14, -7>>})  m == Pick(-6..6)
                              IN [name |-> "", p |-> <<m * d[1], m * d[2]>>]
     ELSE IF w = 12 /\ Pick(1..4) = 1 THEN [name |-> Pick(Names \union {"y", "", "q"}), p |-> <<60, 0>>]
     ELSE [name |-> "", p |-> <<Pick(-70..70), Pick(-70..70)>>]
Req(lat, n, w) ==
  LET pts == [i \in 1..n |-> RandPt(lat)]
  IN [lat |-> lat, pts |-> pts, case |-> Pick({"lower", "upper"}), 
      kind |-> Pick({"list", "array"}),
      symm |-> IF w = 1 THEN [name |-> "default", p |-> <<60, 0>>] ELSE RandPt(lat),
      scalar |-> Pick({TRUE, FALSE}),
      ns |-> IF w \in 1..5 THEN <<Pick(1..9)>>
             ELSE IF w = 6 THEN [i \in 1..(Pick(1..4)) |-> Pick(1..5)]
             ELSE [i \in 1..(n - 1) |-> Pick(1..9)]]
(* a straight path through the origin, which is one of its steps              *)
Through(lat) ==
  LET d == Pick({<<7, 0>>, <<7, 7>>, <<14, -7>>, <<1, -3>>})  a == Pick(1..5)  b == Pick(1..5)  z == Pick({-1, 1})
      tail == IF Pick({TRUE, FALSE}) THEN <<RandPt(lat)>> ELSE <<>>
  IN [Req(lat, 2, 9) EXCEPT
        !.pts = <<[name |-> "", p |-> <<z * a * d[1], z * a * d[2]>>],
                  [name |-> "", p |-> <<-z * b * d[1], -z * b * d[2]>>]>> \o tail,
        !.ns = IF tail = <<>> \/ Pick({TRUE, FALSE}) THEN <<a + b>> ELSE <<a + b, Pick(1..9)>>]
(* many steps, as for drawing bands                                            *)
Long(lat, n) == [Req(lat, n, 1) EXCEPT !.ns = IF Pick({TRUE, FALSE}) THEN <<Pick(10..130)>>
                                              ELSE [i \in 1..(n - 1) |-> Pick(10..130)]]
Add == \E lat \in {Pick({"square", "hexagonal", "rectangular", "custom"})} :
       \E n \in {IF Pick(1..25) = 1 THEN 1 ELSE Pick(2..5)} : \E w \in {Pick(1..9)} :
       \E r \in {CASE w \in {1, 2} -> Through(lat) [] w = 3 -> Long(lat, Pick(2..3)) [] OTHER -> Req(lat, n, Pick(1..9))} :
         h' = Append(h, r)
Init == h = <<>>
Next == \/ Len(h) < LEN /\ Add
        \/ Len(h) = LEN /\ PrintT("CASE " \o ToJson(h)) /\ h' = Append(h, 0)
Spec == Init /\ [][Next]_h
=============================================================================
