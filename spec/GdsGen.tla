------------------------------- MODULE GdsGen --------------------------------
(* Histories of building structures (two of them, in turn) and exporting     *)
(* them, with points to look at, and of rasters.                             *)
EXTENDS Gds, Json
CONSTANTS LEN
VARIABLES h, st
Pick(S) == RandomElement(S)
Lats == << <<60, 0, 0, 60>>, <<60, 0, 0, 84>>, <<60, 0, 18, 54>>, <<36, 48, 60, -15>>, <<60, 0, -24, 48>>, <<-60, 0, -75, 40>> >>
Polys == << << <<-18, 12, 15, -6>>, <<-12, -15, 9, 18>> >>, << <<-20, 20, 20, 2, -20>>, <<-16, -16, 16, -4, 16>> >>,
            << <<-15, 18, -3>>, <<-9, -12, 21>> >>, << <<-18, -18, 18, 18>>, <<9, -9, -9, 9>> >> >>
Rots == << <<1, 0, 1>>, <<1, 0, 1>>, <<3, 4, 5>>, <<4, -3, 5>>, <<-3, 4, 5>>, <<12, 5, 13>> >>
Units == {500, 600, 1000, 2000, 10000}
RandShape(k) ==
  LET kind == IF Pick(1..14) = 1 THEN Pick({"ellipse", "fourier"}) ELSE Pick({"circle", "square", "hex", "poly"})
      x == Pick(-40..40)  y == Pick(-40..40)  r == Pick(8..20)  q == Pick(1..4)  rot == Pick(1..6)
  IN [k |-> kind, x |-> x, y |-> y, eps |-> Pick(1..12), r |-> IF kind = "square" THEN 2 * r ELSE r, rx |-> Pick(8..20), ry |-> Pick(4..14),
      c |-> Rots[rot][1], s |-> Rots[rot][2], q |-> Rots[rot][3],
      xs |-> IF kind = "poly" THEN [i \in DOMAIN Polys[q][1] |-> Polys[q][1][i] + x] ELSE <<>>,
      ys |-> IF kind = "poly" THEN [i \in DOMAIN Polys[q][2] |-> Polys[q][2][i] + y] ELSE <<>>]
Init == h = <<>> /\ st = <<>>
New(p) == \E i \in {Pick(1..Len(Lats))} : \E sh \in {<<RandShape(1), RandShape(2)>>} : \E c \in {Pick(1..4)} :
  /\ h' = Append(h, [op |-> "new", p |-> p, lat |-> Lats[i], clad |-> IF c > 2 THEN <<>> ELSE SubSeq(sh, 1, c)])
  /\ st' = IF p <= Len(st) THEN [st EXCEPT ![p] = NewPhc(Lats[i], 1, 1)] ELSE Append(st, NewPhc(Lats[i], 1, 1))
Layer(p) == h' = Append(h, [op |-> "layer", p |-> p]) /\ st' = [st EXCEPT ![p] = AddLayer(@, 20, 12)]
Shapes(p) == \E n \in {Pick(1..3)} : \E shs \in {<<RandShape(1), RandShape(2), RandShape(3)>>} : \E ix \in {Pick(0..(Len(st[p].layers) - 1))} :
  h' = Append(h, [op |-> "shapes", p |-> p, ix |-> ix, shs |-> SubSeq(shs, 1, n)]) /\ st' = [st EXCEPT ![p] = AddShapes(@, SubSeq(shs, 1, n), ix, 0)]
AllShapes(s) == UNION { { s.layers[i].shapes[j] : j \in DOMAIN s.layers[i].shapes } : i \in DOMAIN s.layers }
Pt(s, i) == IF i < 9 \/ AllShapes(s) = {} THEN <<3 * Pick(-24..24), 3 * Pick(-24..24)>>
            ELSE IF i > 28 THEN \* just inside and outside of the outline of a circle, or thereabouts
                 LET sh == Pick(AllShapes(s))  v == Pick({<<3, 4, 5>>, <<5, 12, 13>>, <<8, 15, 17>>, <<7, 24, 25>>, <<20, 21, 29>>, <<0, 1, 1>>})  w == Pick({1, 2})
                     ro == sh.r + Pick({-3, -2, 2, 3})  a == Pick({-1, 1}) * ((ro * v[w]) \div v[3])  b == Pick({-1, 1}) * ((ro * v[3 - w]) \div v[3])
                 IN <<3 * ((sh.x + a + 1) \div 3), 3 * ((sh.y + b + 1) \div 3)>>
            ELSE LET sh == Pick(AllShapes(s)) IN <<3 * ((sh.x + Pick(-24..24)) \div 3), 3 * ((sh.y + Pick(-24..24)) \div 3)>>
Export(p) == \E pts \in {[i \in 1..40 |-> Pt(st[p], i)]} : \E m \in {Pick(Units \cup {100, 200})} : \E tol \in {Pick({10, 10, 3})} : \E d \in {Pick(BOOLEAN)} :
  h' = Append(h, [op |-> "export", p |-> p, pts |-> pts, m |-> m, tol |-> tol, defaults |-> d]) /\ st' = st
(* values that are 0 along the border of the cell                            *)
Raster == \E n \in {Pick(4..8)} : \E k \in {Pick(4..8)} : \E i \in {Pick(1..Len(Lats))} : \E m \in {Pick(Units)} : \E b \in {Pick(BOOLEAN)} :
  \E lv \in {Pick({<<1>>, <<3>>, <<5>>, <<1, 5>>, <<3, 7>>, <<3, 1>>, <<1, 3, 5>>})} : \E f \in {Pick({"default", "scalar", "list", "list"})} :
  \E v \in {[x \in 1..n |-> [y \in 1..k |-> IF x \in {1, n} \/ y \in {1, k} THEN 0 ELSE IF f = "default" THEN Pick(0..1) ELSE Pick(0..5)]]} :
  /\ h' = Append(h, [op |-> "raster", v |-> v, lat |-> Lats[i], m |-> m, bound |-> b, levels |-> IF f = "default" THEN <<1>> ELSE IF f = "scalar" THEN <<lv[1]>> ELSE lv, form |-> f])
  /\ st' = st
Act == \E p \in {Pick(1..2)} :
  IF Len(st) < p THEN New(Len(st) + 1)
  ELSE IF Len(st[p].layers) = 0 THEN Layer(p)
  ELSE \E w \in {Pick(1..12)} : CASE w \in 1..2 -> Layer(p) [] w \in 3..5 -> Shapes(p) [] w \in 6..9 -> Export(p) [] w = 10 -> New(p) [] OTHER -> Raster
Next == \/ h = <<>> /\ New(1)
        \/ Len(h) \in 1..(LEN - 1) /\ Act
        \/ Len(h) = LEN /\ PrintT("CASE " \o ToJson(h)) /\ h' = Append(h, [op |-> "end"]) /\ st' = st
Spec == Init /\ [][Next]_<<h, st>>
=============================================================================
