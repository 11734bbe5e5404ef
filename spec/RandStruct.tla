----------------------------- MODULE RandStruct ------------------------------
(* Random layers and shapes on the integer coordinates of Structure.tla      *)
(* (60 to the length unit in the plane).                                     *)
EXTENDS Equiv, Json
Pick(S) == RandomElement(S)
Lats == << <<60, 0, 0, 60>>, <<60, 0, 0, 72>>, <<60, 0, 18, 54>>, <<54, 12, -18, 60>>,
           <<60, 0, -24, 60>>, <<66, 0, 33, 57>> >>
Polys == << << <<-9, 8, 10, -4>>, <<-7, -9, 5, 11>> >>, << <<-11, 12, -2>>, <<-6, -8, 11>> >>,
            << <<-8, 8, 8, 2, -8>>, <<-9, -9, 9, -2, 5>> >> >>
Rots == << <<1, 0, 1>>, <<3, 4, 5>>, <<4, -3, 5>>, <<-3, 4, 5>> >>
Kinds == <<"circle", "circle", "square", "square", "ellipse", "poly">>
(* slot 1 and slot 2 are apart from each other *)
RandShape(k, epss) ==
  LET kind == Kinds[Pick(1..6)]  q == Pick(1..3)  rot == Pick(1..4)
      x == (IF k = 1 THEN -15 ELSE 15) + Pick(-3..3)
      y == (IF k = 1 THEN -12 ELSE 14) + Pick(-4..4)
      r == Pick(6..11)
  IN [k |-> kind, x |-> x, y |-> y, eps |-> Pick(epss),
      r |-> IF kind = "square" THEN 2 * r ELSE r, rx |-> Pick(6..11), ry |-> Pick(5..9),
      c |-> Rots[rot][1], s |-> Rots[rot][2], q |-> Rots[rot][3],
      xs |-> IF kind = "poly" THEN [i \in DOMAIN Polys[q][1] |-> Polys[q][1][i] + x] ELSE <<>>,
      ys |-> IF kind = "poly" THEN [i \in DOMAIN Polys[q][2] |-> Polys[q][2][i] + y] ELSE <<>>]
RandLayer(i) ==
  LET a == RandShape(1, 1..5)  b == RandShape(2, 1..16)  n == Pick(1..3)
  IN [d |-> Pick({16, 20, 24, 30, 36}), eps |-> Pick(7..13),
      shapes |-> IF n = 1 THEN <<a>> ELSE IF n = 2 THEN <<a, b>> ELSE <<b, a>>]
RandClad(i) == LET w == Pick(1..3) IN IF w = 1 THEN <<RandShape(1, 1..3)>> ELSE <<>>

=============================================================================
