------------------------------ MODULE Structure ------------------------------
(* A photonic crystal as its user builds it: layers stacked upwards from     *)
(* z = 0 between two half-spaces, shapes drawn into layers and claddings,    *)
(* quantum wells.  Lengths are integers (1/60 of the unit in the plane,      *)
(* 1/100 along z), so what is inside a shape is decided exactly.             *)
(*                                                                           *)
(* State: s.lat = <<a1x, a1y, a2x, a2y>>, s.el / s.eu cladding permittivity, *)
(* s.layers = sequence of [d, eps, shapes], s.clad = <<lower, upper>> shapes *)
(* and s.qws = sequence of z.                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
Sq(x) == x * x

(* ------------------------------ shapes ---------------------------------- *)
(* Side: 1 inside, -1 outside, 0 on (or too close to) the boundary          *)
Sgn(v, m) == IF v > m THEN 1 ELSE IF v < -m THEN -1 ELSE 0
Min2(a, b) == IF a < b THEN a ELSE b

Cross(ax, ay, bx, by) == ax * by - ay * bx
PolySide(xs, ys, x, y) ==
  LET n == Len(xs)
      nx(i) == IF i = n THEN 1 ELSE i + 1
      on(i) == /\ Cross(xs[nx(i)] - xs[i], ys[nx(i)] - ys[i], x - xs[i], y - ys[i]) = 0
               /\ x >= Min2(xs[i], xs[nx(i)]) /\ x <= -Min2(-xs[i], -xs[nx(i)])
               /\ y >= Min2(ys[i], ys[nx(i)]) /\ y <= -Min2(-ys[i], -ys[nx(i)])
      (* an upward ray from (x, y) crosses the edge *)
      hit(i) == /\ (xs[i] <= x) # (xs[nx(i)] <= x)
                /\ LET c == Cross(xs[nx(i)] - xs[i], ys[nx(i)] - ys[i],
                                  x - xs[i], y - ys[i])
                   IN IF xs[nx(i)] > xs[i] THEN c < 0 ELSE c > 0
  IN IF \E i \in 1..n : on(i) THEN 0
     ELSE IF Cardinality({ i \in 1..n : hit(i) }) % 2 = 1 THEN 1 ELSE -1

(* no shape reaches further than R from its reference point *)
R == 36

(* c, s, q: cosine c/q and sine s/q of the rotation of an ellipse *)
EllSide(sh, dx, dy) ==
  LET u == sh.c * dx + sh.s * dy
      v == sh.c * dy - sh.s * dx
      m == Sq(sh.q * sh.rx * sh.ry)
  IN Sgn(m - Sq(u * sh.ry) - Sq(v * sh.rx), 0)

Side(sh, x, y) ==
  LET dx == x - sh.x  dy == y - sh.y
  IN CASE sh.k = "circle" -> Sgn(Sq(sh.r) - Sq(dx) - Sq(dy), 0)
       [] sh.k = "square" ->
            LET h == 2 * (IF Abs(dx) > Abs(dy) THEN Abs(dx) ELSE Abs(dy))
            IN Sgn(sh.r - h, 0)
       [] sh.k = "hex" ->    \* corners at (+-a, 0)
            IF Abs(dx) > sh.r THEN -1
            ELSE LET a == Sgn(3 * Sq(sh.r) - 4 * Sq(dy), 0)
                     b == Sgn(3 * Sq(sh.r - Abs(dx)) - Sq(dy), 0)
                 IN Min2(a, b)
       [] sh.k = "ellipse" ->
            IF Abs(dx) > R \/ Abs(dy) > R THEN -1 ELSE EllSide(sh, dx, dy)
       [] OTHER -> PolySide(sh.xs, sh.ys, x, y)

Near(sh, x, y) == Abs(x - sh.x) <= R /\ Abs(y - sh.y) <= R

(* the images of the point by the lattice that can be near the shape: with   *)
(* lattice coordinates f = coords(point - reference) / det only integers     *)
(* around -f matter                                                          *)
Det(lat) == lat[1] * lat[4] - lat[2] * lat[3]
Spread(lat, i) == 1 + (R * (Abs(lat[i]) + Abs(lat[i+1]))) \div Abs(Det(lat))
SidesOf(lat, sh, x, y) ==
  LET D  == Det(lat)
      px == x - sh.x  py == y - sh.y
      f1 == (IF D > 0 THEN px * lat[4] - py * lat[3] ELSE py * lat[3] - px * lat[4]) \div Abs(D)
      f2 == (IF D > 0 THEN lat[1] * py - lat[2] * px ELSE lat[2] * px - lat[1] * py) \div Abs(D)
      k1 == Spread(lat, 3)  k2 == Spread(lat, 1)
  IN { IF Near(sh, x + m * lat[1] + n * lat[3], y + m * lat[2] + n * lat[4])
       THEN Side(sh, x + m * lat[1] + n * lat[3], y + m * lat[2] + n * lat[4])
       ELSE -1 : m \in (-f1 - k1)..(-f1 + k1), n \in (-f2 - k2)..(-f2 + k2) }
Covers(lat, sh, x, y) == 1 \in SidesOf(lat, sh, x, y)
OnEdge(lat, sh, x, y) == 0 \in SidesOf(lat, sh, x, y)

(* ------------------------------ stacking -------------------------------- *)
RECURSIVE Bottom(_, _)
Bottom(layers, i) == IF i = 1 THEN 0 ELSE Bottom(layers, i - 1) + layers[i-1].d
Top(layers, i) == Bottom(layers, i) + layers[i].d
Height(s) == IF s.layers = <<>> THEN 0 ELSE Top(s.layers, Len(s.layers))

NewPhc(lat, el, eu) == [lat |-> lat, el |-> el, eu |-> eu, layers |-> <<>>,
                        clad |-> <<<<>>, <<>>>>, qws |-> <<>>]

AddLayer(s, d, eps) ==
  [s EXCEPT !.layers = Append(@, [d |-> d, eps |-> eps, shapes |-> <<>>])]

(* where: [clad |-> 0] for a layer index counted from 0 (or from the top     *)
(* when negative), clad 1 or 2 for the lower and upper cladding              *)
LayerIx(s, ix) == IF ix >= 0 THEN ix + 1 ELSE Len(s.layers) + ix + 1
ShapeOk(s, ix, clad, valid) ==
  /\ valid
  /\ clad \in {1, 2} \/ (clad = 0 /\ LayerIx(s, ix) \in 1..Len(s.layers))
AddShapes(s, shs, ix, clad) ==
  IF clad = 0 THEN [s EXCEPT !.layers[LayerIx(s, ix)].shapes = @ \o shs]
  ELSE [s EXCEPT !.clad[clad] = @ \o shs]

QwOk(s, z) == z > 0 /\ z < Height(s)
AddQw(s, z) == [s EXCEPT !.qws = Append(@, z)]

(* ------------------------------ lookup ---------------------------------- *)
LastCover(lat, shs, x, y) ==
  LET c == { i \in DOMAIN shs : Covers(lat, shs[i], x, y) }
  IN IF c = {} THEN 0 ELSE CHOOSE i \in c : \A j \in c : j <= i
Paint(lat, eps, shs, x, y) ==
  LET i == LastCover(lat, shs, x, y) IN IF i = 0 THEN eps ELSE shs[i].eps
EpsAt(s, x, y, z) ==
  IF z < 0 THEN Paint(s.lat, s.el, s.clad[1], x, y)
  ELSE IF z > Height(s) THEN Paint(s.lat, s.eu, s.clad[2], x, y)
  ELSE LET i == CHOOSE i \in DOMAIN s.layers :
                  z > Bottom(s.layers, i) /\ z < Top(s.layers, i)
       IN Paint(s.lat, s.layers[i].eps, s.layers[i].shapes, x, y)

(* a point at which the question has no clear answer *)
Interface(s, z) == z = 0 \/ \E i \in DOMAIN s.layers : z = Top(s.layers, i)
ShapesAt(s, z) ==
  IF z < 0 THEN s.clad[1] ELSE IF z > Height(s) THEN s.clad[2]
  ELSE s.layers[CHOOSE i \in DOMAIN s.layers :
                  z > Bottom(s.layers, i) /\ z < Top(s.layers, i)].shapes
Unclear(s, x, y, z) ==
  \/ Interface(s, z)
  \/ \E i \in DOMAIN ShapesAt(s, z) : OnEdge(s.lat, ShapesAt(s, z)[i], x, y)

(* ------------------------------ bounds ---------------------------------- *)
EpsIn(shs) == { shs[i].eps : i \in DOMAIN shs }
AllEps(s) == {s.el, s.eu} \cup EpsIn(s.clad[1]) \cup EpsIn(s.clad[2])
             \cup UNION { {s.layers[i].eps} \cup EpsIn(s.layers[i].shapes)
                          : i \in DOMAIN s.layers }
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
=============================================================================
