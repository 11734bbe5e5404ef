------------------------------ MODULE ShapeTrace ------------------------------
(* Judges Fourier components recorded from real shapes and layers against   *)
(* FourierLaws.  Values are scaled by 1e8, those of layers by 1e7.          *)
EXTENDS FourierLaws, Fix, Json, IOUtils
VARIABLES t, l, s, bad
TF == 60
(* an indicator sampled on a grid of cells of size h reproduces an integral  *)
(* up to the recorded tolerance e.tol                                        *)
Start(tr) == [n |-> <<>>, f |-> <<>>, area |-> 0, lsum |-> <<>>, lavg |-> 0,
              p |-> 1, q |-> 1, epsb |-> 1]
Pairs(re, im) == [i \in DOMAIN re |-> <<re[i], im[i]>>]
CloseP(v, w, tol) == /\ Len(v) = Len(w)
  /\ \A i \in DOMAIN v : Close(v[i][1], w[i][1], tol) /\ Close(v[i][2], w[i][2], tol)

(* -- layers: sum over shapes of (eps - eps_b) times the shape's values      *)
RECURSIVE AddUp(_, _, _, _)
AddUp(acc, fs, es, i) ==
  IF i > Len(fs) THEN acc
  ELSE AddUp([j \in DOMAIN acc |-> <<acc[j][1] + es[i] * fs[i][j][1],
                                     acc[j][2] + es[i] * fs[i][j][2]>>], fs, es, i + 1)

After(st, e) ==
  CASE e.op = "shape"  -> [st EXCEPT !.n = e.n, !.f = Pairs(e.re, e.im), !.area = e.area]
    [] e.op = "move"   -> Moved(st, e.d)
    [] e.op = "turn"   -> Turned(st)
    [] e.op = "mirror" -> Mirrored(st)
    [] e.op = "halve"  -> [st EXCEPT !.n = Halved(st).n, !.f = Halved(st).f, !.area = @ \div 4]
    [] e.op = "layer"  -> [st EXCEPT !.n = e.n, !.p = e.p, !.q = e.q, !.epsb = e.epsb,
                             !.lsum = [i \in DOMAIN e.n |-> <<0, 0>>], !.lavg = 0]
    [] e.op = "add"    ->
         IF ~e.ok THEN st ELSE
         [st EXCEPT !.lsum = AddUp(@, [i \in DOMAIN e.fre |-> Pairs(e.fre[i], e.fim[i])],
                                   [i \in DOMAIN e.eps |-> e.eps[i] - st.epsb], 1),
                    !.lavg = @ + SumSeq([i \in DOMAIN e.eps |->
                                    (e.eps[i] - st.epsb) * e.areas[i]])]
    [] OTHER -> st

Zero(m) == m[1] = 0 /\ m[2] = 0
RECURSIVE Twice(_, _, _)
Twice(xs, ys, i) ==   \* twice the area of a polygon
  IF i > Len(xs) THEN 0
  ELSE LET j == IF i = Len(xs) THEN 1 ELSE i + 1
       IN xs[i] * ys[j] - xs[j] * ys[i] + Twice(xs, ys, i + 1)
Base(st, e) ==
  << <<"finite", FinV(e.re) /\ FinV(e.im)>>,
     <<"zero-component-is-area", Close(e.zero, e.area, TF)>>,
     <<"area-of-polygon", e.twice # <<>> =>       \* e.twice = <<xs, ys>> in 1/60
        AbsI((e.area \div 100) * 72 - Twice(e.twice[1], e.twice[2], 1) * 10000) <= 200>>,
     <<"area-of-ellipse", e.ab # 0 =>             \* 355/113 to 3e-7
        AbsI((e.area \div 100) * 36 - ((e.ab * 355) \div 113) * 10000
             - (((e.ab * 355) % 113) * 10000) \div 113) <= 100>>,
     <<"area-positive", e.area > 0>>,
     <<"bounded-by-area", \A i \in DOMAIN e.re :
         AbsI(e.re[i]) <= e.area + TF /\ AbsI(e.im[i]) <= e.area + TF>>,
     <<"opposite-is-conjugate", CloseP(Pairs(e.nre, e.nim),
         [i \in DOMAIN e.re |-> <<e.re[i], -e.im[i]>>], TF)>> >>
Same(st, e, what) ==
  << <<what, e.ok /\ CloseP(Pairs(e.re, e.im), st.f, e.tol)>>,
     <<"area-kept", e.ok /\ Close(e.area, st.area, e.tol)>> >>
Clauses(st, e) ==
  CASE e.op = "failed" -> << <<"shape-accepted", FALSE>> >>
    [] e.op = "shape" -> Base(st, e)
    [] e.op = "move"  -> Same(Moved(st, e.d), e, "moved")
    [] e.op = "turn"  -> Same(Turned(st), e, "turned")
    [] e.op = "mirror" -> Same(Mirrored(st), e, "mirrored")
    [] e.op = "halve" -> Same(After(st, e), e, "halved")
    [] e.op \in {"alias", "refine", "order"} -> Same(st, e, e.op)
    [] e.op = "pieces" ->
         << <<"pieces-add-up", e.ok /\ CloseP([i \in DOMAIN e.re |->
               Plus(<<e.re[i], e.im[i]>>, <<e.re2[i], e.im2[i]>>)], st.f, 2 * TF)>> >>
    [] e.op = "indicator" ->
         << <<"integral-over-inside", e.ok /\ CloseP(Pairs(e.re, e.im), st.f, e.tol)>>,
            <<"area-of-inside", e.ok /\ Close(e.area, st.area, e.tol)>> >>
    [] e.op = "spin" ->
         << <<"rotation-accepted", e.ok>>,
            <<"rotation-keeps-area", e.ok => Close(e.area, st.area, TF)>>,
            <<"rotation-about-centre", e.ok => CloseP(Pairs(e.re, e.im), Pairs(e.re0, e.im0), TF)>>,
            <<"rotated-inside", e.ok => e.ins = e.ins0>> >>
    [] e.op = "layer" -> << <<"layer-accepted", e.ok>> >>
    [] e.op = "add" ->
         LET s2 == After(st, e)
             \* p * FT = q * sum  (cell area p / q), zero component p * avg = p * eps_b + ...
             want(i) == IF Zero(st.n[i])
                        THEN <<st.p * st.epsb * 10000000 + st.q * s2.lsum[i][1], 0>>
                        ELSE <<st.q * s2.lsum[i][1], st.q * s2.lsum[i][2]>>
         IN << <<"shapes-accepted", e.ok>>,
               <<"layer-components", e.ok => CloseP(
                   [i \in DOMAIN e.re |-> <<st.p * e.re[i], st.p * e.im[i]>>],
                   [i \in DOMAIN st.n |-> want(i)], 300)>>,
               <<"layer-average", e.ok => Close(st.p * e.avg,
                   st.p * st.epsb * 10000000 + st.q * s2.lavg, 300)>> >>
    [] OTHER -> <<>>
INSTANCE TraceLoop WITH S0 <- Start, Clauses <- Clauses, Step <- After
=============================================================================
