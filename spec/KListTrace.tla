------------------------------ MODULE KListTrace ------------------------------
(* Judges runs of real simulations over lists of k-points.  A result is a    *)
(* record of integer sequences: fr frequencies * 10^8, fi losses * 10^9, lab *)
(* labels and channel counts, md intensities * 10^8, q answers to questions  *)
(* about the mode (by name).                                                 *)
EXTENDS KList, Fix, Json, IOUtils
VARIABLES t, l, s, bad
Start(tr) == [mem |-> [id \in 1..6 |-> <<>>], ks |-> <<>>]
After(st, e) ==
  CASE e.op = "alone" -> [st EXCEPT !.mem = Learn(@, e.ks[1], IF e.ok /\ Len(e.res) = 1 THEN e.res[1] ELSE <<>>)]
    [] e.op = "run" -> [st EXCEPT !.ks = e.ks]
    [] OTHER -> st
FT == 100
SameF(a, b) == b # <<>> /\ CloseV(a.fr, b.fr, FT)
SameL(a, b) == b # <<>> /\ CloseV(a.fi, b.fi, 200)
SameI(a, b) == b # <<>> /\ a.lab = b.lab
SameM(a, b) == b # <<>> /\ CloseV(a.md, b.md, 2000)
Clauses(st, e) ==
  CASE e.op = "alone" -> << <<"accepted", e.ok>>, <<"one-result", e.ok => Len(e.res) = 1>> >>
    [] e.op = "run" ->
      IF ~e.ok THEN << <<"accepted", FALSE>> >>
      ELSE << <<"k-points", e.kept>>,
              <<"frequencies", Independent(st.mem, e.ks, e.res, SameF)>>,
              <<"losses", Independent(st.mem, e.ks, e.res, SameL)>>,
              <<"labels", Independent(st.mem, e.ks, e.res, SameI)>>,
              <<"modes", Independent(st.mem, e.ks, e.res, SameM)>> >>
    [] OTHER ->
      IF st.ks = <<>> THEN <<>>
      ELSE << <<"accepted", e.ok>>,
              <<"question-refers-to-its-k", e.ok =>
                   LET m == st.mem[st.ks[e.at + 1]] IN m # <<>> /\ CloseV(e.val, m.q[e.key], 2000)>> >>
INSTANCE TraceLoop WITH S0 <- Start, Clauses <- Clauses, Step <- After
=============================================================================
