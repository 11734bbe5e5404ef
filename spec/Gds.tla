--------------------------------- MODULE Gds ---------------------------------
(* Layout of a structure: on layer number i - 1 the shapes of layer i, each  *)
(* once and where it was drawn (no images by the lattice, no claddings).     *)
(* A layout is a sequence of [l, t, xs, ys] in database units.               *)
EXTENDS Structure
Exportable(sh) == sh.k \in {"circle", "square", "hex", "poly"}
CanExport(s) == \A i \in DOMAIN s.layers : \A j \in DOMAIN s.layers[i].shapes : Exportable(s.layers[i].shapes[j])
(* squares and hexagons may be rotated about their centre by (c, s)/q        *)
SideRot(sh, x, y) ==
  LET dx == x - sh.x  dy == y - sh.y
  IN IF sh.k \notin {"square", "hex"} THEN Side(sh, x, y)
     ELSE Side([sh EXCEPT !.r = sh.q * @, !.x = 0, !.y = 0], sh.c * dx + sh.s * dy, sh.c * dy - sh.s * dx)
(* 1 or -1 where the whole neighbourhood is inside or outside, else 0        *)
ClearSide(sh, x, y) ==
  LET a == { SideRot(sh, x + i, y + j) : i \in {-1, 0, 1}, j \in {-1, 0, 1} }
  IN IF a = {1} THEN 1 ELSE IF a = {-1} THEN -1 ELSE 0
InHowMany(shs, x, y) == Cardinality({ j \in DOMAIN shs : ClearSide(shs[j], x, y) = 1 })
ClearOf(shs, x, y) == \A j \in DOMAIN shs : ClearSide(shs[j], x, y) # 0
Covering(polys, l, ty, x, y) == Cardinality({ j \in DOMAIN polys : polys[j].l = l /\ polys[j].t = ty /\ PolySide(polys[j].xs, polys[j].ys, x, y) = 1 })
(* point x/60, y/60 in database units, of which m make one unit              *)
Dbu(m, x) == (m * x) \div 60
OfLayer(polys, l) == { j \in DOMAIN polys : polys[j].l = l }

(* raster of n by k values spanning the unit cell, first index along a1      *)
NodeX(m, lat, n, k, i, j, c) ==
  (m * ((2 * i - (n - 1)) * (k - 1) * lat[c] + (2 * j - (k - 1)) * (n - 1) * lat[c + 2])) \div (120 * (n - 1) * (k - 1))
(* levels are given twofold and odd                                          *)
Beyond(v, levels) == Cardinality({ q \in DOMAIN levels : 2 * v > levels[q] })
Corner(m, lat, a, b, c) == (m * (a * lat[c] + b * lat[c + 2])) \div 120
=============================================================================
