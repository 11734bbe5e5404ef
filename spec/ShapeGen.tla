------------------------------- MODULE ShapeGen -------------------------------
(* Random shapes and chains of transformations; random layers.               *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS LEN
VARIABLES h
Pick(S) == RandomElement(S)
Polys == << << <<-18, 12, 15, -6>>, <<-12, -15, 9, 18>> >>,
            << <<-20, 20, 20, 2, -20>>, <<-16, -16, 16, -4, 16>> >>,
            << <<-15, 18, -3>>, <<-9, -12, 21>> >>,
            << <<-21, 21, 21, -21>>, <<-8, -8, 8, 8>> >>,
            << <<0, 12, 18, 6, -9, -14>>, <<-20, -14, 3, 17, 15, -4>> >> >>
Convex == {1, 3, 4, 5}
Kinds == {"circle", "ellipse", "square", "hex", "poly", "fourier"}
Vec(w) == CASE w = 1 -> <<0, Pick(-8..8)>> [] w = 2 -> <<Pick(-8..8), 0>>
            [] w = 3 -> <<0, 0>> [] OTHER -> <<Pick(-8..8), Pick(-8..8)>>
RandShape(k) ==
  LET kind == Pick(Kinds) q == Pick(1..5)
  IN [k |-> kind, x |-> Pick(-50..50), y |-> Pick(-50..50), r |-> Pick(6..24),
      ry |-> Pick(4..20), rot |-> Pick(0..11), q |-> q,
      fa |-> <<Pick(40..56), Pick(-4..4), Pick(-4..4), Pick(-3..3)>>,
      fb |-> <<Pick(-4..4), Pick(-3..3)>>,
      eps |-> Pick(1..12),
      xs |-> Polys[q][1], ys |-> Polys[q][2], convex |-> q \in Convex]
Init == h = <<>>
Ops == {"move", "move", "turn", "turn", "mirror", "halve", "indicator", "alias",
        "pieces", "refine", "spin", "order"}
First ==
  \E sh \in {RandShape(1)} : \E w \in {Pick(1..9)} :
  \E nv \in {[i \in 1..7 |-> Vec(IF i <= 3 THEN i ELSE 9)]} :
    h' = << [op |-> IF w <= 6 THEN "shape" ELSE "layer", sh |-> sh, n |-> nv,
             lat |-> Pick(1..4), epsb |-> Pick(1..12)] >>
IsLayer == h[1].op = "layer"
Act ==
  IF h = <<>> THEN First
  ELSE IF IsLayer
       THEN \E m \in {Pick(1..3)} : \E shs \in {<<RandShape(1), RandShape(2), RandShape(3)>>} :
              h' = Append(h, [op |-> "add", shs |-> SubSeq(shs, 1, m)])
       ELSE \E o \in {Pick(Ops)} : \E dx \in {Pick(-2..2)} : \E dy \in {Pick(-2..2)} :
            \E an \in {Pick(1..30)} :
              h' = Append(h, [op |-> o, d |-> <<dx, dy>>, ang |-> an])
Next == \/ Len(h) < LEN /\ Act
        \/ Len(h) = LEN /\ PrintT("CASE " \o ToJson(h)) /\ h' = Append(h, [op |-> "end"])
Spec == Init /\ [][Next]_h
=============================================================================
