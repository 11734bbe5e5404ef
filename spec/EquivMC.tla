------------------------------- MODULE EquivMC -------------------------------
(* Each action really is the transformation of the permittivity map that it  *)
(* claims to be, for every structure reached by up to MaxOps of them.        *)
EXTENDS Equiv
CONSTANT MaxOps
VARIABLES v, n, orig, ev
vars == <<v, n, orig, ev>>
B == [k |-> "circle", x |-> 0, y |-> 0, r |-> 10, rx |-> 8, ry |-> 5, c |-> 1, s |-> 0,
      q |-> 1, xs |-> <<>>, ys |-> <<>>, eps |-> 2]
C1 == [B EXCEPT !.x = -14, !.y = 5]
S1 == [B EXCEPT !.k = "square", !.x = 17, !.y = -11, !.r = 18, !.eps = 7]
E1 == [B EXCEPT !.k = "ellipse", !.x = 13, !.y = 14, !.c = 3, !.s = 4, !.q = 5, !.rx = 11, !.eps = 3]
P1 == [B EXCEPT !.k = "poly", !.xs = <<-20, -2, -12>>, !.ys = <<-22, -18, -4>>, !.eps = 5]
Start == [lat |-> <<60, 0, 18, 54>>, el |-> 1, eu |-> 4,
          layers |-> << [d |-> 30, eps |-> 12, shapes |-> <<C1, S1>>],
                        [d |-> 20, eps |-> 9, shapes |-> <<E1, P1>>] >>,
          clad |-> << <<>>, <<S1>> >>, qws |-> <<>>]
Pts == { <<0, 0, 15>>, <<-13, 8, 12>>, <<16, -10, 27>>, <<15, 16, 41>>, <<-12, -16, 33>>,
         <<80, 40, 15>>, <<16, -10, 66>>, <<31, 29, -5>> }
Evs(w) ==
  { [op |-> "shift", a |-> 7, b |-> -3], [op |-> "flip"], [op |-> "reversek"],
    [op |-> "turn"], [op |-> "mirror"], [op |-> "rebase", u |-> <<1, 1, 0, 1>>],
    [op |-> "rebase", u |-> <<0, 1, 1, 0>>], [op |-> "latshift", i |-> 1, j |-> 1, a |-> 1, b |-> -1],
    [op |-> "reorder", i |-> 1], [op |-> "null", i |-> 2, sh |-> [C1 EXCEPT !.x = 3]],
    [op |-> "double", a |-> 2], [op |-> "units", a |-> 3], [op |-> "scalel", a |-> 2, b |-> 3], [op |-> "scalee", a |-> 3, b |-> 2] }
  \cup { [op |-> "split", i |-> 1, a |-> 10] : x \in (IF w.s.layers[1].d > 10 THEN {1} ELSE {}) }
  \cup { [op |-> "cut", i |-> 1, j |-> 2, a |-> 6] : x \in
         (IF Len(w.s.layers[1].shapes) = 2 /\ w.s.layers[1].shapes[2].k = "square" THEN {1} ELSE {}) }
Init == v = V0(Start, <<3, 1>>) /\ n = 0 /\ orig = v /\ ev = [op |-> "none"]
Next == n < MaxOps /\ n' = n + 1 /\ \E e \in Evs(v) : v' = Apply(v, e) /\ ev' = e /\ orig' = v
Spec == Init /\ [][Next]_vars
SameMap == \A p \in Pts :
  LET q == PointMap(orig, ev, p) IN
  Clear(orig, p) /\ Clear(v, q) => EpsAt(v.s, q[1], q[2], q[3]) = EpsAt(orig.s, p[1], p[2], p[3])
Unmoved == \A p \in Pts : Clear(orig, p) /\ Clear(v, p) => EpsAt(v.s, p[1], p[2], p[3]) = EpsAt(orig.s, p[1], p[2], p[3])
SameHeight == Height(v.s) = Height(orig.s)
Ratio == v.ln * v.ld * v.en * v.ed > 0
CellKept == LET d == Abs(Det(v.s.lat)) IN d = Abs(Det(Start.lat)) \/ d % Abs(Det(Start.lat)) = 0
=============================================================================
