-------------------------------- MODULE Equiv --------------------------------
(* Different descriptions of the same physics.  A description v has          *)
(*   v.s    a structure (Structure.tla, integer coordinates)                 *)
(*   v.k    a wave vector, integer                                          *)
(*   v.ln, v.ld   every length of the real structure is multiplied by ln/ld  *)
(*   v.en, v.ed   every permittivity is multiplied by (en/ed)^2              *)
(* Each action rewrites the description; PointMap says where a point of the  *)
(* old description is in the new one, so that the actions can be checked     *)
(* against the permittivity map.  Frequencies may change only by             *)
(* Factor(v) = (ld * ed) / (ln * en) relative to scale one.                  *)
EXTENDS Structure

V0(s, k) == [s |-> s, k |-> k, ln |-> 1, ld |-> 1, en |-> 1, ed |-> 1, un |-> 0]

(* ------------------------- on shapes ---------------------------------- *)
MoveSh(sh, dx, dy) ==
  [sh EXCEPT !.x = @ + dx, !.y = @ + dy,
             !.xs = [i \in DOMAIN @ |-> @[i] + dx], !.ys = [i \in DOMAIN @ |-> @[i] + dy]]
TurnSh(sh) ==    \* (x, y) -> (-y, x)
  [sh EXCEPT !.x = -sh.y, !.y = sh.x, !.xs = [i \in DOMAIN sh.ys |-> -sh.ys[i]],
             !.ys = sh.xs, !.c = -sh.s, !.s = sh.c]
Rev(q) == [i \in DOMAIN q |-> q[Len(q) + 1 - i]]
MirrorSh(sh) ==  \* (x, y) -> (-x, y); vertices listed backwards to keep their sense
  [sh EXCEPT !.x = -@, !.xs = Rev([i \in DOMAIN @ |-> -@[i]]), !.ys = Rev(@), !.s = -@]
MapShs(F(_), shs) == [i \in DOMAIN shs |-> F(shs[i])]
MapAll(s, F(_)) ==
  [s EXCEPT !.layers = [i \in DOMAIN @ |-> [@[i] EXCEPT !.shapes = MapShs(F, @)]],
            !.clad = <<MapShs(F, @[1]), MapShs(F, @[2])>>]

(* ------------------------- actions ------------------------------------ *)
Shift(v, dx, dy) == [v EXCEPT !.s = MapAll(@, LAMBDA sh : MoveSh(sh, dx, dy))]

(* one shape to the equivalent place in another cell *)
LatShift(v, i, j, m, n) ==
  LET L == v.s.lat
      dx == m * L[1] + n * L[3]  dy == m * L[2] + n * L[4]
  IN [v EXCEPT !.s.layers[i].shapes[j] = MoveSh(@, dx, dy)]

Rebase(v, u) ==
  LET L == v.s.lat
  IN [v EXCEPT !.s.lat = << u[1] * L[1] + u[2] * L[3], u[1] * L[2] + u[2] * L[4],
                            u[3] * L[1] + u[4] * L[3], u[3] * L[2] + u[4] * L[4] >>]

Split(v, i, d) ==
  LET a == v.s.layers[i]
      lo == [a EXCEPT !.d = d]  hi == [a EXCEPT !.d = a.d - d]
  IN [v EXCEPT !.s.layers = SubSeq(@, 1, i - 1) \o <<lo, hi>> \o SubSeq(@, i + 1, Len(@))]

Flip(v) == [v EXCEPT !.s = [@ EXCEPT !.el = v.s.eu, !.eu = v.s.el,
                               !.layers = Rev(@), !.clad = <<v.s.clad[2], v.s.clad[1]>>]]
Reorder(v, i) == [v EXCEPT !.s.layers[i].shapes = Rev(@)]
ReverseK(v) == [v EXCEPT !.k = <<-@[1], -@[2]>>]
Turn(v) == [v EXCEPT !.s = [MapAll(@, TurnSh) EXCEPT !.lat = <<-@[2], @[1], -@[4], @[3]>>],
                     !.k = <<-@[2], @[1]>>]
Mirror(v) == [v EXCEPT !.s = [MapAll(@, MirrorSh) EXCEPT !.lat = <<-@[1], @[2], -@[3], @[4]>>],
                       !.k = <<-@[1], @[2]>>]

(* a square is two rectangles *)
RectSh(sh, x0, x1) ==
  LET h == sh.r \div 2 IN
  [sh EXCEPT !.k = "poly", !.xs = <<x0, x1, x1, x0>>,
             !.ys = <<sh.y - h, sh.y - h, sh.y + h, sh.y + h>>]
CanCut(v, i, j) == /\ v.s.layers[i].shapes[j].k = "square"
                   /\ v.s.layers[i].shapes[j].r % 2 = 0
Cut(v, i, j, at) ==
  LET sh == v.s.layers[i].shapes[j]  h == sh.r \div 2
      x0 == sh.x - h  x1 == sh.x + h  xm == x0 + 1 + (at % (sh.r - 1))
  IN [v EXCEPT !.s.layers[i].shapes =
        SubSeq(@, 1, j - 1) \o <<RectSh(sh, x0, xm), RectSh(sh, xm, x1)>>
        \o SubSeq(@, j + 1, Len(@))]

(* drawing with the material that is already there changes nothing, if the   *)
(* shape comes first                                                         *)
Null(v, i, sh) == [v EXCEPT !.s.layers[i].shapes = <<[sh EXCEPT !.eps = v.s.layers[i].eps]>> \o @]

Gcd(a, b) == CHOOSE d \in 1..a : a % d = 0 /\ b % d = 0 /\
               \A x \in (d+1)..a : a % x # 0 \/ b % x # 0
Reduce(a, b) == <<a \div Gcd(a, b), b \div Gcd(a, b)>>
ScaleL(v, p, q) == LET f == Reduce(v.ln * p, v.ld * q) IN [v EXCEPT !.ln = f[1], !.ld = f[2]]
ScaleE(v, p, q) == LET f == Reduce(v.en * p, v.ed * q) IN [v EXCEPT !.en = f[1], !.ed = f[2]]
(* another unit of length, much larger or smaller than the period; results   *)
(* are read in the old one                                                   *)
Units(v, a) == [v EXCEPT !.un = a]
FNum(v) == v.ld * v.ed
FDen(v) == v.ln * v.en

(* cells of twice the size, each with two copies *)
Double(v, axis) ==
  LET L == v.s.lat
      dx == IF axis = 1 THEN L[1] ELSE L[3]
      dy == IF axis = 1 THEN L[2] ELSE L[4]
      Two(shs) == shs \o MapShs(LAMBDA sh : MoveSh(sh, dx, dy), shs)
  IN [v EXCEPT !.s = [@ EXCEPT
        !.lat = IF axis = 1 THEN <<2 * L[1], 2 * L[2], L[3], L[4]>>
                ELSE <<L[1], L[2], 2 * L[3], 2 * L[4]>>,
        !.layers = [i \in DOMAIN @ |-> [@[i] EXCEPT !.shapes = Two(@)]],
        !.clad = <<Two(@[1]), Two(@[2])>>]]

(* the action named in a recorded event *)
Apply(v, e) ==
  CASE e.op = "shift"   -> Shift(v, e.a, e.b)
    [] e.op = "latshift" -> LatShift(v, e.i, e.j, e.a, e.b)
    [] e.op = "rebase"  -> Rebase(v, e.u)
    [] e.op = "split"   -> Split(v, e.i, e.a)
    [] e.op = "flip"    -> Flip(v)
    [] e.op = "reorder" -> Reorder(v, e.i)
    [] e.op = "reversek" -> ReverseK(v)
    [] e.op = "turn"    -> Turn(v)
    [] e.op = "mirror"  -> Mirror(v)
    [] e.op = "cut"     -> Cut(v, e.i, e.j, e.a)
    [] e.op = "null"    -> Null(v, e.i, e.sh)
    [] e.op = "scalel"  -> ScaleL(v, e.a, e.b)
    [] e.op = "scalee"  -> ScaleE(v, e.a, e.b)
    [] e.op = "units"   -> Units(v, e.a)
    [] e.op = "double"  -> Double(v, e.a)
    [] OTHER -> v

(* where the point <<x, y, z>> went *)
PointMap(v, e, p) ==
  CASE e.op = "shift"  -> <<p[1] + e.a, p[2] + e.b, p[3]>>
    [] e.op = "flip"   -> <<p[1], p[2], Height(v.s) - p[3]>>
    [] e.op = "turn"   -> <<-p[2], p[1], p[3]>>
    [] e.op = "mirror" -> <<-p[1], p[2], p[3]>>
    [] OTHER -> p

(* every layer has shapes that do not overlap *)
Clear(v, p) == ~Unclear(v.s, p[1], p[2], p[3])
=============================================================================
