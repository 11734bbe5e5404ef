------------------------------- MODULE GdsTrace ------------------------------
(* Judges recorded histories of exports: what was read back from the files   *)
(* (with a reader of its own) against Gds.tla.                               *)
EXTENDS Gds, Fix, Json, IOUtils
VARIABLES t, l, s, bad
Start(tr) == <<>>
After(st, e) ==
  CASE e.op = "new" -> IF e.p <= Len(st) THEN [st EXCEPT ![e.p] = NewPhc(e.lat, 1, 1)] ELSE Append(st, NewPhc(e.lat, 1, 1))
    [] e.op = "layer" -> [st EXCEPT ![e.p] = AddLayer(@, 20, 12)]
    [] e.op = "shapes" -> [st EXCEPT ![e.p] = AddShapes(@, e.shs, e.ix, 0)]
    [] OTHER -> st
Exp(sr, e) ==
  IF ~CanExport(sr) THEN << <<"refused", ~e.ok>> >>
  ELSE IF ~e.ok THEN << <<"accepted", FALSE>> >>
  ELSE << <<"unit", Close(e.unit, 1000, 0)>>,
          <<"one-cell-of-polygons", e.cells = 1 /\ e.other = 0>>,
          <<"no-other-layer", \A j \in DOMAIN e.polys : e.polys[j].l \in 0..(Len(sr.layers) - 1)>>,
          <<"each-shape-once", \A i \in DOMAIN sr.layers : Cardinality(OfLayer(e.polys, i - 1)) = Len(sr.layers[i].shapes)>>,
          <<"one-datatype", \A j \in DOMAIN e.polys : e.polys[j].t = 1>>,
          <<"same-region", \A i \in DOMAIN sr.layers : \A q \in DOMAIN e.pts :
             LET x == e.pts[q][1]  y == e.pts[q][2]  shs == sr.layers[i].shapes
             IN ClearOf(shs, x, y) => InHowMany(shs, x, y) = Covering(e.polys, i - 1, 1, Dbu(e.m, x), Dbu(e.m, y))>> >>
Ras(e) ==
  IF ~e.ok THEN << <<"accepted", FALSE>> >>
  ELSE LET n == Len(e.v)  k == Len(e.v[1]) IN
       << <<"unit", Close(e.unit, 1000, 0)>>,
          <<"one-cell-of-polygons", e.cells = 1 /\ e.other = 0>>,
          <<"cell-boundary", LET b == { j \in DOMAIN e.polys : e.polys[j].t = 1 } IN
             /\ Cardinality(b) = IF e.bound THEN 1 ELSE 0
             /\ \A j \in b : /\ Len(e.polys[j].xs) \in {4, 5}
                             /\ \A z \in {<<-1, -1>>, <<-1, 1>>, <<1, 1>>, <<1, -1>>} : \E q \in DOMAIN e.polys[j].xs :
                                  /\ Close(e.polys[j].xs[q], Corner(e.m, e.lat, z[1], z[2], 1), 1)
                                  /\ Close(e.polys[j].ys[q], Corner(e.m, e.lat, z[1], z[2], 2), 1)
                             /\ PolySide(e.polys[j].xs, e.polys[j].ys, 0, 0) = 1>>,
          <<"no-other-layer", \A j \in DOMAIN e.polys : e.polys[j].l = 0 /\ e.polys[j].t \in {0, 1}>>,
          <<"region-beyond-levels", \A i \in 1..n : \A j \in 1..k :
             (Beyond(e.v[i][j], e.levels) + Covering(e.polys, 0, 0, NodeX(e.m, e.lat, n, k, i - 1, j - 1, 1), NodeX(e.m, e.lat, n, k, i - 1, j - 1, 2))) % 2 = 0>> >>
Clauses(st, e) == CASE e.op = "export" -> Exp(st[e.p], e) [] e.op = "raster" -> Ras(e) [] OTHER -> << <<"accepted", e.ok>> >>
INSTANCE TraceLoop WITH S0 <- Start, Clauses <- Clauses, Step <- After
=============================================================================
