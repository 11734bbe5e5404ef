------------------------------- MODULE RadTrace -------------------------------
(* Judges the radiation of real guided-mode expansions.  A mode is recorded  *)
(* as [ql, qu: eps f^2 KD^2 of the claddings; gl, gu: indexes of the         *)
(* diffraction orders reported; c: |c|^2 * 10^8 as <<l te, l tm, u te,       *)
(* u tm>>, one entry per order; r: the same relative to their sum (10^4);    *)
(* tot: imaginary part of omega^2 from freqs_im * 10^8; im: freqs_im * 10^9; *)
(* un: unbalance * 10^4; ok: separate from its neighbours; low: losses low   *)
(* compared to the frequency].                                               *)
EXTENDS Radiation, Mirror, Fix, Json, IOUtils
VARIABLES t, l, s, bad
Start(tr) == [base |-> tr[1], runs |-> <<>>]
After(st, e) == IF e.op = "run" THEN [st EXCEPT !.runs = e.k] ELSE st
Elems(x) == { x[i] : i \in DOMAIN x }
Lat(st) == [i \in 1..4 |-> st.base.v.s.lat[i] \div 5]
Tol(a) == 30 + AbsI(a) \div 1000000
FinMode(m) == FinV(m.c[1]) /\ FinV(m.c[2]) /\ FinV(m.c[3]) /\ FinV(m.c[4]) /\ Fin(m.tot) /\ Fin(m.im) /\ Fin(m.un)
Sum4(c) == SumSeq(c[1]) + SumSeq(c[2]) + SumSeq(c[3]) + SumSeq(c[4])
OpenOk(lat, k, gs, q, got) ==
  /\ Cardinality(Elems(got)) = Len(got)
  /\ Surely(lat, k, gs, q) \subseteq Elems(got) /\ Elems(got) \subseteq Perhaps(lat, k, gs, q)
Shapes(m) == /\ Len(m.c[1]) = Len(m.gl) /\ Len(m.c[2]) = Len(m.gl) /\ Len(m.c[3]) = Len(m.gu) /\ Len(m.c[4]) = Len(m.gu)
ModeClauses(lat, k, gs, M) ==
  LET fin == \A i \in DOMAIN M : FinMode(M[i]) IN
   << <<"finite", fin>>,
      <<"lower-orders-are-the-open-ones", \A i \in DOMAIN M : OpenOk(lat, k, gs, M[i].ql, M[i].gl)>>,
      <<"upper-orders-are-the-open-ones", \A i \in DOMAIN M : OpenOk(lat, k, gs, M[i].qu, M[i].gu)>>,
      <<"one-coupling-per-order", \A i \in DOMAIN M : Shapes(M[i])>>,
      <<"losses-not-negative", \A i \in DOMAIN M : M[i].im >= 0>>,
      <<"no-losses-below-the-light-cone", \A i \in DOMAIN M :
           Perhaps(lat, k, gs, M[i].ql) = {} /\ Perhaps(lat, k, gs, M[i].qu) = {} => M[i].im = 0>>,
      <<"loss-is-the-sum-over-orders", fin => \A i \in DOMAIN M : Close(M[i].tot, Sum4(M[i].c), Tol(M[i].tot))>>,
      <<"unbalance-is-the-share-of-te", fin => \A i \in DOMAIN M :
           IF M[i].gl = <<>> /\ M[i].gu = <<>> THEN M[i].un = 5000
           ELSE M[i].low /\ M[i].tot > 1000 => Close(M[i].un, SumSeq(M[i].r[1]) + SumSeq(M[i].r[3]), 30)>>,
      <<"parts-of-te-and-tm", fin => \A i \in DOMAIN M :
           Close(M[i].tote, SumSeq(M[i].c[1]) + SumSeq(M[i].c[3]), Tol(M[i].tot)) /\
           Close(M[i].totm, SumSeq(M[i].c[2]) + SumSeq(M[i].c[4]), Tol(M[i].tot))>> >>
Same(a, b) == /\ a.gl = b.gl /\ a.gu = b.gu /\ Close(a.im, b.im, 2 + AbsI(b.im) \div 1000000)
              /\ \A j \in 1..4 : Len(a.c[j]) = Len(b.c[j]) /\ \A i \in DOMAIN a.c[j] : Close(a.c[j][i], b.c[j][i], Tol(b.tot))
(* per order and polarisation, both claddings together                       *)
At(g, c, m) == SumSeq([i \in DOMAIN g |-> IF g[i] = m THEN c[i] ELSE 0])
Both(M, p, m) == At(M.gl, M.c[p], m) + At(M.gu, M.c[2 + p], m)
BackTol(M) == 300 + M.tot \div 20000
(* sum of the complex contributions of the layers, squared; 10^4 relative    *)
Abs2(ps) == LET re == SumSeq([i \in DOMAIN ps |-> ps[i][1]])  im == SumSeq([i \in DOMAIN ps |-> ps[i][2]]) IN re * re + im * im
Clauses(st, e) ==
  CASE e.op = "base" -> <<>>
    [] ~e.ok -> << <<"accepted", FALSE>> >>
    [] e.op = "run" ->
         LET lat == Lat(st)  gs == Elems(e.g)
             one(j) == ModeClauses(lat, e.k[j].k, gs, e.k[j].modes)
         IN one(1) \o one(2) \o
            (IF st.base.sy = "z" THEN
             << <<"symmetric-slab-radiates-to-both-sides", \A j \in 1..2 : \A i \in DOMAIN e.k[j].modes :
                  LET m == e.k[j].modes[i] IN m.ok => m.gl = m.gu /\ CloseV(m.c[1], m.c[3], BackTol(m)) /\ CloseV(m.c[2], m.c[4], BackTol(m))>> >>
             ELSE <<>>)
    [] e.op \in {"sub", "again"} ->
         LET M == st.runs[e.kind + 1].modes IN
         << <<"same-number", Len(e.modes) = Len(e.minds)>>,
            <<"subset-and-later-computation-agree", \A i \in DOMAIN e.minds : Same(e.modes[i], M[e.minds[i] + 1])>> >>
    [] e.op = "back" ->
         LET M == st.runs[e.kind + 1].modes  R == e.modes IN
         << <<"same-number", Len(M) = Len(R)>>,
            <<"reversed-k-radiates-in-reversed-orders", Len(M) = Len(R) =>
               \A i \in DOMAIN M : M[i].ok /\ R[i].ok /\ M[i].tot > 0 =>
                 \A m \in Elems(M[i].gl) \cup Elems(M[i].gu) : \A p \in 1..2 :
                   Close(Both(M[i], p, m), Both(R[i], p, Neg(m)), BackTol(M[i]))>>,
            <<"reversed-k-loses-the-same", Len(M) = Len(R) =>
               \A i \in DOMAIN M : M[i].ok /\ R[i].ok => Close(M[i].tot, R[i].tot, BackTol(M[i]))>> >>
    [] e.op = "golden" ->
         << <<"coupling-is-the-overlap-with-the-outgoing-wave", \A i \in DOMAIN e.ch :
               e.ch[i].fin /\ Close(Abs2(e.ch[i].parts), e.ch[i].r, 30000 + e.ch[i].r \div 2000)>> >>
    [] e.op = "mirror" ->
         << <<"parity-selects-the-polarisation", \A i \in DOMAIN e.modes : LET M == e.modes[i] IN
               M.ok => \A p \in 1..2 :
                 /\ \A j \in DOMAIN M.gl : ReflG(e.m, M.gl[j]) = M.gl[j] /\ (M.lab = 1) = (p = 1) => M.c[p][j] <= BackTol(M)
                 /\ \A j \in DOMAIN M.gu : ReflG(e.m, M.gu[j]) = M.gu[j] /\ (M.lab = 1) = (p = 1) => M.c[2 + p][j] <= BackTol(M)>>,
            <<"mirror-orders-are-equally-strong", \A i \in DOMAIN e.modes : LET M == e.modes[i] IN
               M.ok => \A p \in 1..2 :
                 /\ \A j \in DOMAIN M.gl : Close(M.c[p][j], At(M.gl, M.c[p], ReflG(e.m, M.gl[j])), BackTol(M))
                 /\ \A j \in DOMAIN M.gu : Close(M.c[2 + p][j], At(M.gu, M.c[2 + p], ReflG(e.m, M.gu[j])), BackTol(M))>> >>
INSTANCE TraceLoop WITH S0 <- Start, Clauses <- Clauses, Step <- After
=============================================================================
