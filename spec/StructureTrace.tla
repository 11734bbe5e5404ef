---------------------------- MODULE StructureTrace ----------------------------
(* Judges recorded building histories with Structure.tla.                   *)
(* Recorded lengths are scaled to 1e-6, permittivities to 1e-6.             *)
EXTENDS Structure, Fix, Json, IOUtils
VARIABLES t, l, s, bad
TZ == 10
TE == 10
Start(tr) == NewPhc(<<60, 0, 0, 60>>, 1, 1)

After(st, e) ==
  CASE e.op = "new"    -> NewPhc(e.lat, e.el, e.eu)
    [] e.op = "layer"  -> AddLayer(st, e.d, e.eps)
    [] e.op = "shapes" -> IF ShapeOk(st, e.ix, e.clad, e.valid)
                          THEN AddShapes(st, e.shs, e.ix, e.clad) ELSE st
    [] e.op = "qw"     -> IF QwOk(st, e.z) THEN AddQw(st, e.z) ELSE st
    [] OTHER           -> st

ZMicro(z) == z * 10000
Micro(v) == v * 1000000

Look(st, e) ==
  LET L == st.layers IN
  << <<"number-of-layers", Len(e.zmin) = Len(L)>>,
     <<"layer-positions", Len(e.zmin) = Len(L) => \A i \in DOMAIN L :
         /\ Close(e.zmin[i], ZMicro(Bottom(L, i)), TZ)
         /\ Close(e.zmax[i], ZMicro(Top(L, i)), TZ)
         /\ Close(e.d[i], ZMicro(L[i].d), TZ)>>,
     <<"layer-background", Len(e.zmin) = Len(L) => \A i \in DOMAIN L :
         Close(e.epsb[i], Micro(L[i].eps), TE)>>,
     <<"shapes-in-layer", Len(e.nsh) = Len(L) /\ \A i \in DOMAIN L :
         e.nsh[i] = Len(L[i].shapes)>>,
     <<"shapes-in-cladding", e.nclad = <<Len(st.clad[1]), Len(st.clad[2])>> >>,
     <<"claddings-adjoin", Close(e.lower, 0, TZ) /\ Close(e.upper, ZMicro(Height(st)), TZ)>>,
     <<"quantum-wells", CloseV(e.qws, [i \in DOMAIN st.qws |-> ZMicro(st.qws[i])], TZ)>>,
     <<"permittivity-bounds",
        CloseV(e.bounds, <<Micro(MinOf(AllEps(st))), Micro(MaxOf(AllEps(st)))>>, TE)>>,
     <<"printable", e.repr>> >>

Probe(st, e) ==
  << <<"lookup-accepted", e.ok>>,
     <<"lookup-size", e.ok => Len(e.eps) = Len(e.pts)>>,
     <<"permittivity-at-point", (e.ok /\ Len(e.eps) = Len(e.pts)) =>
        \A i \in DOMAIN e.pts : Close(e.eps[i],
          Micro(EpsAt(st, e.pts[i][1], e.pts[i][2], e.pts[i][3])), TE)>> >>

(* the grid spans per periods of the lattice along x and y, symmetrically.   *)
(* per = 0: the default (1 for rectangular, 2 for other lattices); 1: a      *)
(* number; 2, 3: a list                                                      *)
Rect(st) == st.lat[1] * st.lat[3] + st.lat[2] * st.lat[4] = 0
MaxA(a, b) == IF Abs(a) > Abs(b) THEN Abs(a) ELSE Abs(b)
PerX(st, e) == CASE e.per = 0 -> IF Rect(st) THEN 1 ELSE 2
                 [] e.per = 1 -> 3 [] e.per = 2 -> 1 [] OTHER -> 4
PerY(st, e) == CASE e.per = 0 -> IF Rect(st) THEN 1 ELSE 2
                 [] e.per = 1 -> 3 [] e.per = 2 -> 5 [] OTHER -> 2
GridOk(v, n, half) ==      \* 1e-6 of 1/60 is not an integer: compare * 60
  /\ Len(v) = n
  /\ \A i \in 1..n : AbsI(v[i] * (n - 1) - (2 * (i - 1) - (n - 1)) * half) <= 100 * n
Grid(st, e) ==
  << <<"grid-accepted", e.ok>>,
     <<"grid-x", e.ok => GridOk(e.gx, e.nx, MaxA(st.lat[1], st.lat[3]) * PerX(st, e) * 5000)>>,
     <<"grid-y", e.ok => GridOk(e.gy, e.ny, MaxA(st.lat[2], st.lat[4]) * PerY(st, e) * 5000)>> >>

Clauses(st, e) ==
  CASE e.op = "look"   -> Look(st, e)
    [] e.op = "probe"  -> Probe(st, e)
    [] e.op = "grid"   -> Grid(st, e)
    [] e.op = "shapes" -> << <<"shapes-accepted-or-refused",
                               e.ok = ShapeOk(st, e.ix, e.clad, e.valid)>> >>
    [] e.op = "qw"     -> << <<"quantum-well-accepted-or-refused", e.ok = QwOk(st, e.z)>> >>
    [] e.op = "badlayer" -> << <<"unknown-layer-type-refused", ~e.ok>> >>
    [] OTHER           -> << <<"accepted", e.ok>> >>

INSTANCE TraceLoop WITH S0 <- Start, Clauses <- Clauses, Step <- After
=============================================================================
