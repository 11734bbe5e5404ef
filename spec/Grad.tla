-------------------------------- MODULE Grad ---------------------------------
(* Derivatives: the parameters of a structure, the differences from which    *)
(* the derivative along a direction follows, and the exact laws a gradient   *)
(* obeys (joint parameters, scaling of the permittivity, translations).      *)
EXTENDS Integers, Sequences
(* everything in a structure that can be a differentiable parameter:         *)
(* w: el, eu, eb (background of layer i), d (thickness of layer i),          *)
(* sh (field f of shape j of layer i), cl (the same of cladding i)           *)
Site(w, i, j, f, m) == [w |-> w, i |-> i, j |-> j, f |-> f, m |-> m]
RECURSIVE Edges(_, _, _, _, _, _)
Edges(w, i, j, f, n, m) == IF m > n THEN <<>> ELSE <<Site(w, i, j, f, m)>> \o Edges(w, i, j, f, n, m + 1)
Fields(sh) == CASE sh.k \in {"circle", "square", "hex"} -> <<"x", "y", "r">>
                [] sh.k = "ellipse" -> <<"x", "y", "rx", "ry", "phi">>
                [] OTHER -> <<>>
ShapeSites(w, i, j, sh, sym) ==
  LET fs == Fields(sh)  keep == SelectSeq(fs, LAMBDA f : ~sym \/ f \notin {"y", "phi"}) IN
  <<Site(w, i, j, "eps", 0)>> \o [n \in DOMAIN keep |-> Site(w, i, j, keep[n], 0)]
  \o (IF sh.k = "poly" /\ ~sym THEN Edges(w, i, j, "xs", Len(sh.xs), 1) \o Edges(w, i, j, "ys", Len(sh.ys), 1) ELSE <<>>)
RECURSIVE ShapesSites(_, _, _, _, _)
ShapesSites(w, i, shs, j, sym) == IF j > Len(shs) THEN <<>> ELSE ShapeSites(w, i, j, shs[j], sym) \o ShapesSites(w, i, shs, j + 1, sym)
RECURSIVE LayerSites(_, _, _)
LayerSites(lays, i, sym) == IF i > Len(lays) THEN <<>>
  ELSE <<Site("eb", i, 0, "", 0), Site("d", i, 0, "", 0)>> \o ShapesSites("sh", i, lays[i].shapes, 1, sym) \o LayerSites(lays, i + 1, sym)
SitesOf(s, sym) == <<Site("el", 0, 0, "", 0), Site("eu", 0, 0, "", 0)>> \o LayerSites(s.layers, 1, sym)
                   \o ShapesSites("cl", 1, s.clad[1], 1, sym) \o ShapesSites("cl", 2, s.clad[2], 1, sym)
(* a plane-wave expansion of the first layer                                 *)
FlatSites(s) == SelectSeq(LayerSites(SubSeq(s.layers, 1, 1), 1, FALSE), LAMBDA z : z.w # "d")
(* an exciton in the first layer: its shapes (not their permittivity), and   *)
(* the height of the potential                                               *)
WellSites(s) == <<Site("V", 0, 0, "", 0)>> \o SelectSeq(ShapesSites("sh", 1, s.layers[1].shapes, 1, FALSE), LAMBDA z : z.f # "eps")
IsEps(z) == z.w \in {"el", "eu", "eb"} \/ z.f = "eps"
IsX(z) == z.f \in {"x", "xs"}
IsY(z) == z.f \in {"y", "ys"}
(* 12 h times the derivative from the values at +h, -h, +2h, -2h             *)
Diff12(v) == 8 * (v[1] - v[2]) - (v[3] - v[4])
RECURSIVE DotUpTo(_, _, _)
DotUpTo(c, g, n) == IF n = 0 THEN 0 ELSE DotUpTo(c, g, n - 1) + c[n] * g[n]
Dot(c, g) == DotUpTo(c, g, Len(c))
=============================================================================
