------------------------------- MODULE PlotTrace ------------------------------
(* Judges drawings of real objects.  State: the last look at the results.    *)
EXTENDS Structure, Plot, Fix, Json, IOUtils
VARIABLES t, l, s, bad
Start(tr) == [seen |-> <<>>, base |-> <<>>]
After(st, e) == IF e.op = "base" THEN [seen |-> e.seen, base |-> <<e>>]
                ELSE IF e.op # "base" /\ e.ok THEN [st EXCEPT !.seen = e.seen] ELSE st
(* results keep their values; losses may be there that were not asked for yet *)
Kept(a, b) == /\ DOMAIN a = DOMAIN b /\ \A i \in DOMAIN a : a[i] = b[i] \/ a[i] = <<>>
XofK(st, e, i) == AtX(st.base[1].len, st.base[1].nk, e.units, i)
Bands(st, e) ==
  LET X(i) == XofK(st, e, i)
      (* frequencies in 1e-6, times conv *)
      V == [i \in DOMAIN e.f |-> [n \in DOMAIN e.f[i] |-> (e.f[i][n] * e.conv[1]) \div e.conv[2]]] IN
  << <<"every-state-once", OncePerState(e.pts, V)>>,
     <<"every-state-where-it-belongs", AllShown(e.pts, X, V, e.col, 4, 2)>>,
     <<"nothing-but-states", NothingElse(e.pts, X, V, e.col, 4, 2)>>,
     <<"everything-in-view", \A j \in DOMAIN e.pts : /\ e.pts[j][1] >= e.xlim[1] - 2 /\ e.pts[j][1] <= e.xlim[2] + 2
                                                       /\ e.pts[j][2] >= e.ylim[1] - 2 /\ e.pts[j][2] <= e.ylim[2] + 2>>,
     <<"axis-from-the-first-to-the-last", st.base[1].nk < 2 \/ (e.units /\ AtX(st.base[1].len, st.base[1].nk, TRUE, st.base[1].nk) = 0)
         \/ (Close(e.xlim[1], X(1), 2) /\ Close(e.xlim[2], X(st.base[1].nk), 2))>>,
     <<"cone-only-if-asked-for", (e.low # <<>>) = (e.cone /\ e.light)>>,
     <<"light-cone", e.low = <<>> \/ \A i \in 1..st.base[1].nk :
          LET nn == MaxI(e.ncl[1], e.ncl[2])
              want == (((e.kl[i] * 10000) \div nn) * e.lconv[1]) \div e.lconv[2]
          IN \E j \in DOMAIN e.low : Close(e.low[j][1], X(i), 3) /\ Close(e.low[j][2], want, 40)>>,
     <<"cone-reaches-over-the-states", e.low = <<>> \/ \A j \in DOMAIN e.pts : e.pts[j][2] <= e.top>>,
     <<"scale-of-colours", e.scale[1] = e.scale[2]>>,
     <<"drawn-where-asked", e.same>> >>
Image(im) ==
  << <<"image-values:" \o im.what, CloseV(im.a, im.b, im.tol)>>,
     <<"image-frame:" \o im.what, CloseV(im.frame, im.place, 2) /\ im.up>>,
     <<"image-scale:" \o im.what, im.lim = <<>> \/ CloseV(im.lim, im.wanted, 2)>> >>
RECURSIVE Images(_, _)
Images(ims, i) == IF i = 0 THEN <<>> ELSE Images(ims, i - 1) \o Image(ims[i])
(* outlines, vertices in 1/600 *)
Ten(x) == 10 * x
EdgesOf(sh) ==
  LET h == 5 * sh.r  q == (866 * sh.r) \div 100 IN
  CASE sh.k = "square" -> << <<Ten(sh.x) - h, Ten(sh.y) - h>>, <<Ten(sh.x) + h, Ten(sh.y) - h>>, <<Ten(sh.x) + h, Ten(sh.y) + h>>, <<Ten(sh.x) - h, Ten(sh.y) + h>> >>
    [] sh.k = "hex" -> << <<Ten(sh.x + sh.r), Ten(sh.y)>>, <<Ten(sh.x) + h, Ten(sh.y) + q>>, <<Ten(sh.x) - h, Ten(sh.y) + q>>, <<Ten(sh.x - sh.r), Ten(sh.y)>>,
                          <<Ten(sh.x) - h, Ten(sh.y) - q>>, <<Ten(sh.x) + h, Ten(sh.y) - q>> >>
    [] OTHER -> [i \in DOMAIN sh.xs |-> <<Ten(sh.xs[i]), Ten(sh.ys[i])>>]
RoundSh(sh) == sh.k \in {"circle", "ellipse"}
(* on the boundary of a circle or ellipse centred at (x, y)                  *)
OnRound(sh, x, y, p) ==
  LET dx == p[1] - x  dy == p[2] - y
      m == IF sh.k = "circle" THEN 11 * sh.r ELSE 11 * MaxI(sh.rx, sh.ry) IN
  /\ AbsI(dx) <= m /\ AbsI(dy) <= m
  /\ IF sh.k = "circle" THEN AbsI(Sq(dx) + Sq(dy) - Sq(Ten(sh.r))) <= 40 * sh.r
     ELSE LET u == (sh.c * dx + sh.s * dy) * sh.ry  v == (sh.c * dy - sh.s * dx) * sh.rx  r == Ten(sh.q * sh.rx * sh.ry)
          IN AbsI((Sq(u) \div 100) + (Sq(v) \div 100) - (Sq(r) \div 100)) <= (Sq(r) \div 100) \div 25 + 10
Around(sh, x, y, vs) ==   \* a closed line goes all the way around: all four sides are reached
  LET qd(p) == <<p[1] >= x, p[2] >= y>> IN { qd(vs[i]) : i \in DOMAIN vs } = (BOOLEAN \X BOOLEAN)
IsOutline(sh, ox, oy, vs) ==
  /\ Len(vs) >= 3 /\ Close(vs[1][1], vs[Len(vs)][1], 1) /\ Close(vs[1][2], vs[Len(vs)][2], 1)
  /\ IF RoundSh(sh) THEN /\ \A i \in DOMAIN vs : OnRound(sh, Ten(sh.x + ox), Ten(sh.y + oy), vs[i])
                        /\ Around(sh, Ten(sh.x + ox), Ten(sh.y + oy), vs)
     ELSE LET es == EdgesOf(sh) IN
          /\ \A i \in DOMAIN vs : \E j \in DOMAIN es : Close(vs[i][1], es[j][1] + Ten(ox), 2) /\ Close(vs[i][2], es[j][2] + Ten(oy), 2)
          /\ \A j \in DOMAIN es : \E i \in DOMAIN vs : Close(vs[i][1], es[j][1] + Ten(ox), 2) /\ Close(vs[i][2], es[j][2] + Ten(oy), 2)
Places(lat, pad) == IF pad THEN << <<0, 0>>, <<lat[1], lat[2]>>, <<-lat[1], -lat[2]>>, <<lat[3], lat[4]>>, <<-lat[3], -lat[4]>> >> ELSE << <<0, 0>> >>
Outlines(st, e) ==
  LET sv == st.base[1].v.s  shs == e.shs  pl == Places(sv.lat, e.pad) IN
  << <<"each-shape-once-at-every-place", Len(e.lines) = Len(shs) * Len(pl)>>,
     <<"view-of-one-cell", e.equal /\ CloseV(e.view, e.cell, 1)>>,
     <<"outline-of-each-shape", \A j \in DOMAIN shs : \A p \in DOMAIN pl : \E i \in DOMAIN e.lines : IsOutline(shs[j], pl[p][1], pl[p][2], e.lines[i])>>,
     <<"lines-are-outlines", \A i \in DOMAIN e.lines : \E j \in DOMAIN shs : \E p \in DOMAIN pl : IsOutline(shs[j], pl[p][1], pl[p][2], e.lines[i])>> >>
Clauses(st, e) ==
  IF e.op = "base" THEN << <<"structure-accepted", e.ok>> >>
  ELSE IF ~e.ok THEN << <<"drawing-accepted:" \o e.op, FALSE>> >>
  ELSE << <<"results-untouched", Kept(st.seen, e.seen)>> >> \o
    (CASE e.op \in {"bands", "pol_bands"} -> Bands(st, e)
       [] e.op = "shapes" -> Outlines(st, e)
       [] e.op = "recip" -> << <<"reciprocal-vectors", Len(e.a) = Len(e.b) /\ { e.a[i] : i \in DOMAIN e.a } = { e.b[i] : i \in DOMAIN e.b }>> >>
       [] OTHER -> << <<"number-of-images:" \o e.op, Len(e.ims) = e.n>>, <<"wells-in-sections", e.wells = e.wantwells>>, <<"titles", e.titles>>,
                      <<"colour-bars", e.bars[1] = (IF e.cbar THEN e.bars[2] ELSE 0)>> >>
                   \o Images(e.ims, Len(e.ims)))
INSTANCE TraceLoop WITH S0 <- Start, Clauses <- Clauses, Step <- After
=============================================================================
