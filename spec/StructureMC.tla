----------------------------- MODULE StructureMC -----------------------------
(* Exhaustive exploration of small structures.                              *)
EXTENDS Structure
(* HOME: only the shape as drawn is looked at, none of its periodic images  *)
CONSTANTS MaxOps, HOME
VARIABLES s, n, last
vars == <<s, n, last>>
Lats == { <<60, 0, 0, 60>>, <<60, 0, 48, 30>> }
C(x, r, e) == [k |-> "circle", x |-> x, y |-> 0, r |-> r, eps |-> e]
Q(x, r, e) == [k |-> "square", x |-> x, y |-> 0, r |-> r, eps |-> e]
Lists == { <<C(0, 20, 2)>>, <<Q(20, 30, 7)>>, <<C(25, 20, 3), C(0, 15, 9)>> }
Pts == { <<0, 0>>, <<23, 3>>, <<95, 31>>, <<-47, 2>> }
Zs == { -10, 15, 25, 45, 95 }

Init == /\ \E l \in Lats : s = NewPhc(l, 1, 4)
        /\ n = 0 /\ last = "new"
Next ==
  /\ n < MaxOps /\ n' = n + 1
  /\ \/ \E d \in {20, 30}, e \in {5, 12} :
          s' = AddLayer(s, d, e) /\ last' = "ok"
     \/ \E shs \in Lists, ix \in {-1, 0, 1}, cl \in {0, 1, 2}, valid \in BOOLEAN :
          IF ShapeOk(s, ix, cl, valid)
          THEN s' = AddShapes(s, shs, ix, cl) /\ last' = "ok"
          ELSE s' = s /\ last' = "rejected"
     \/ \E z \in Zs : IF QwOk(s, z) THEN s' = AddQw(s, z) /\ last' = "ok"
                      ELSE s' = s /\ last' = "rejected"
Spec == Init /\ [][Next]_vars

(* the layers tile [0, Height], each point in exactly one of them *)
Tiles == \A z \in Zs : Interface(s, z) \/ z < 0 \/ z > Height(s) \/
  Cardinality({ i \in DOMAIN s.layers :
                  z > Bottom(s.layers, i) /\ z < Top(s.layers, i) }) = 1
Stacked == \A i \in 1..(Len(s.layers) - 1) :
  Bottom(s.layers, i + 1) = Top(s.layers, i)
WellsInside == \A i \in DOMAIN s.qws : s.qws[i] > 0 /\ s.qws[i] < Height(s)
InBounds == \A p \in Pts, z \in Zs : Interface(s, z) \/
  EpsAt(s, p[1], p[2], z) \in AllEps(s)
HomeAt(x, y, z) ==
  LET shs == ShapesAt(s, z)  c == { i \in DOMAIN shs : Side(shs[i], x, y) = 1 }
  IN IF c = {} THEN Paint(s.lat, 0, <<>>, x, y) ELSE shs[CHOOSE i \in c : \A j \in c : j <= i].eps
E(x, y, z) == IF HOME THEN HomeAt(x, y, z) ELSE EpsAt(s, x, y, z)
Periodic == \A p \in Pts, z \in Zs : Interface(s, z) \/
  E(p[1], p[2], z) = E(p[1] + s.lat[1], p[2] + s.lat[2], z)
(* an addition never changes what is elsewhere in the stack *)
RejectedSame == [][last' = "rejected" => s' = s]_vars
GrowOnly == [][\A i \in DOMAIN s.layers :
   /\ i \in DOMAIN s'.layers
   /\ Bottom(s'.layers, i) = Bottom(s.layers, i)
   /\ SubSeq(s'.layers[i].shapes, 1, Len(s.layers[i].shapes)) = s.layers[i].shapes]_vars
=============================================================================
