----------------------------- MODULE StructureGen -----------------------------
(* Random building histories with probes, printed as cases.                 *)
EXTENDS Structure, Json
CONSTANTS LEN, NPTS
VARIABLES s, h
Pick(S) == RandomElement(S)

Lats == << <<60, 0, 0, 60>>, <<60, 0, 0, 80>>, <<60, 0, 18, 54>>,
           <<60, 0, 48, 30>>, <<60, 0, -24, 48>>, <<36, 48, 60, -15>>,
           <<60, 0, 54, 20>>, <<60, 0, 12, -54>>, <<-60, 0, -75, 40>> >>
Polys == << << <<-18, 12, 15, -6>>, <<-12, -15, 9, 18>> >>,        \* convex
            << <<-20, 20, 20, 2, -20>>, <<-16, -16, 16, -4, 16>> >>, \* concave
            << <<-15, 18, -3>>, <<-9, -12, 21>> >>,
            << <<-21, -21, 21, 21>>, <<8, -8, -8, 8>> >> >>
Rots == << <<1, 0, 1>>, <<0, 1, 1>>, <<3, 4, 5>>, <<4, -3, 5>>, <<-3, 4, 5>> >>

RandShape(k) ==
  \* a function of the draw k so that every use is a new random shape
  LET kind == Pick({"circle", "square", "hex", "ellipse", "poly"})
      x == Pick(-40..40) y == Pick(-40..40) eps == Pick(1..12)
      r == Pick(8..20) rx == Pick(8..20) ry == Pick(4..14)
      q == Pick(1..4) rot == Pick(1..5)
  IN [k |-> kind, x |-> x, y |-> y, eps |-> eps,
      r |-> IF kind = "square" THEN 2 * r ELSE r,
      rx |-> rx, ry |-> ry, c |-> Rots[rot][1], s |-> Rots[rot][2],
      q |-> Rots[rot][3],
      xs |-> IF kind = "poly" THEN [i \in DOMAIN Polys[q][1] |-> Polys[q][1][i] + x] ELSE <<>>,
      ys |-> IF kind = "poly" THEN [i \in DOMAIN Polys[q][2] |-> Polys[q][2][i] + y] ELSE <<>>]

Init == s = <<>> /\ h = <<>>
First == \E i \in {Pick(1..Len(Lats))} : \E el \in {Pick(1..4)} : \E eu \in {Pick(1..4)} :
             /\ s' = NewPhc(Lats[i], el, eu)
             /\ h' = << [op |-> "new", lat |-> Lats[i], el |-> el, eu |-> eu] >>
Emit(e, s2) == h' = Append(h, e) /\ s' = s2

Layer == \E d \in {Pick({5, 10, 20, 33, 50})} : \E e \in {Pick(1..13)} :
   Emit([op |-> "layer", d |-> d, eps |-> e], AddLayer(s, d, e))
BadLayer == Emit([op |-> "badlayer"], s)
Shapes ==
  \E n \in {Pick({1, 1, 2, 3})} : \E sh1 \in {RandShape(1)} : \E sh2 \in {RandShape(2)} :
  \E sh3 \in {RandShape(3)} : \E w \in {Pick(1..10)} : \E wx \in {Pick(1..10)} :
  \E ix0 \in {Pick(0..2)} :
  LET shs == SubSeq(<<sh1, sh2, sh3>>, 1, n)
      clad == IF w = 1 THEN 1 ELSE IF w = 2 THEN 2 ELSE IF w = 3 /\ wx > 5 THEN 3 ELSE 0
      ix == IF wx \in 1..5 THEN -1 ELSE IF wx = 6 THEN -2 ELSE ix0
      valid == w # 4
  IN Emit([op |-> "shapes", shs |-> shs, ix |-> ix, clad |-> clad,
           valid |-> valid, name |-> wx % 2 = 0],
          IF ShapeOk(s, ix, clad, valid) THEN AddShapes(s, shs, ix, clad) ELSE s)
Qw == \E z \in {Pick({-5, 0, 3, 12, 27, 41, 60, 300})} :
   IF Interface(s, z) /\ z # 0 THEN Emit([op |-> "badlayer"], s)
   ELSE Emit([op |-> "qw", z |-> z], IF QwOk(s, z) THEN AddQw(s, z) ELSE s)
Probe == \E pts \in {[i \in 1..NPTS |-> <<Pick(-250..250), Pick(-250..250),
                                          Pick({-7, 2, 3, 8, 13, 17, 24, 36, 47, 58, 71, 90, 120, 151, 188})>>]} :
   LET ok == { i \in 1..NPTS : ~Unclear(s, pts[i][1], pts[i][2], pts[i][3]) }
       RECURSIVE Sel(_)
       Sel(i) == IF i > NPTS THEN <<>>
                 ELSE IF i \in ok THEN <<pts[i]>> \o Sel(i + 1) ELSE Sel(i + 1)
   IN Emit([op |-> "probe", pts |-> Sel(1)], s)
Grid == \E p \in {Pick(0..3)} : \E nx \in {Pick(2..7)} : \E ny \in {Pick(2..7)} :
   Emit([op |-> "grid", per |-> p, nx |-> nx, ny |-> ny], s)

Act == IF s.layers = <<>> /\ Len(h) > 3 THEN Layer
       ELSE \E w \in {Pick(1..20)} :
         CASE w \in 1..4 -> Layer
           [] w = 5 -> BadLayer
           [] w \in 6..11 -> Shapes
           [] w \in 12..13 -> Qw
           [] w = 14 -> Grid
           [] OTHER -> Probe
Next == \/ h = <<>> /\ First
        \/ Len(h) \in 1..(LEN - 1) /\ Act
        \/ Len(h) = LEN /\ PrintT("CASE " \o ToJson(h))
           /\ h' = Append(h, [op |-> "end"]) /\ s' = s
Spec == Init /\ [][Next]_<<s, h>>
=============================================================================
