------------------------------ MODULE SessionGen ------------------------------
(* Random behaviours of Session.tla, printed as cases for the real code.     *)
EXTENDS Session, Json

CONSTANTS NOBJ, LEN
VARIABLES s, h

Kinds == <<"gme", "gme", "gme", "gme", "pwe", "ese", "pol">>
Pick(S) == RandomElement(S)

Init == s = NewState(NOBJ) /\ h = <<>>

RawArgs == [ks : {"A", "B", "C"}, gi : {"0", "01", "012", "0123", "103"},
            ne : {3, 5}, sy : {"none", "none", "both", "odd", "even"},
            sp : BOOLEAN, only : BOOLEAN, sol : {"eigh", "eigsh"}, im : BOOLEAN,
            gc : {"exact", "interp"}, eff : {"average", "background"},
            sig : {0, 4}, pol : {"te", "tm"}]

(* make the combination one that the documentation allows *)
Norm(kind, tr, a, w) ==
  LET sy == IF w \in 1..4 THEN "none" ELSE a.sy
      only == a.only /\ tr = "abs" /\ w \in {1, 2, 6}
      sol == IF sy # "none" \/ w \in {1, 3} THEN "eigh" ELSE a.sol
      gi == IF sy \in {"odd", "even"} /\ a.gi = "0" THEN "01" ELSE a.gi
  IN [a EXCEPT !.sy = sy,
               !.ks = IF sy # "none" \/ kind = "pol" THEN "B" ELSE a.ks,
               !.sp = a.sp /\ sy # "none",
               !.only = only, !.sol = sol, !.gi = gi,
               !.ne = IF sy \in {"odd", "even"} THEN 3 ELSE a.ne]

BadOf(kind) ==
  CASE kind = "gme" -> {"toomany", "symmfoo", "noangles", "offaxis", "badeff",
                        "badsolver", "customunset", "kzeigsh", "kwarg"}
    [] kind = "pwe" -> {"badpol", "kwarg"}
    [] OTHER -> {"kwarg"}

A(op, o, f) == IF f = <<>> THEN [op |-> op, o |-> o] ELSE [op |-> op, o |-> o] @@ f
Emit(x, s2) == h' = Append(h, x) /\ s' = s2

MaxOf(kind) == IF kind = "pol" THEN 1 ELSE NOBJ

New(o) ==
  \E i \in {Pick(1..Len(Kinds))} : \E st \in {Pick({"S1", "S2", "S3"})} :
  \E tr \in {Pick({"abs", "tbt"})} :
    Emit(A("new", o, [kind |-> Kinds[i], st |-> st, tr |-> tr]),
         DoNew(s, o, Kinds[i], st, tr))
Run(o) ==
  \E a0 \in {Pick(RawArgs)} : \E w \in {Pick(1..8)} :
    LET a == Norm(s.obj[o].kind, s.obj[o].tr, a0, w)
    IN Emit(A("run", o, [args |-> a]),
            DoRun(s, o, "key", WithIm(s.obj[o].kind, a)))
Bad(o) == \E b \in {Pick(BadOf(s.obj[o].kind))} : \E a0 \in {Pick(RawArgs)} :
    Emit(A("bad", o, [what |-> b,
                      args |-> [Norm(s.obj[o].kind, s.obj[o].tr, a0, 1)
                                EXCEPT !.ks = "A"]]),
         DoRunBad(s, o))
RunIm(o) == Emit(A("runim", o, <<>>), DoRunIm(s, o))
Query(o) == \E q \in {Pick({"rad", "radsp", "field", "fieldxz", "eps", "repr"})} :
  \E k \in {Pick(0..1)} : \E m \in {Pick(0..2)} :
    Emit(A("query", o, [q |-> q, k |-> k, m |-> m]), s)
Backend == \E b \in {Pick({"numpy", "autograd"})} :
    Emit(A("backend", 0, [b |-> b]), DoBackend(s, b))
Grad == Emit(A("grad", 0, <<>>), s)

Objs == { o \in 1..NOBJ : Exists(s, o) }
Ran == { o \in Objs : HasRun(s, o) }
Lossy == { o \in Ran : s.obj[o].kind = "gme" }

Act ==
  IF Objs = {} THEN New(1)
  ELSE \E w \in {Pick(1..20)} : \E o \in {Pick(Objs)} :
    CASE w \in 1..2 -> New(Pick(1..NOBJ))
      [] w \in 3..12 -> Run(o)
      [] w \in 13..14 -> Bad(o)
      [] w \in 15..16 -> IF Lossy = {} THEN Run(o) ELSE RunIm(Pick(Lossy))
      [] w \in 17..18 -> IF Ran = {} THEN Run(o) ELSE Query(Pick(Ran))
      [] w = 19 -> Backend
      [] OTHER -> Grad

Next == \/ Len(h) < LEN /\ Act
        \/ Len(h) = LEN /\ PrintT("CASE " \o ToJson(h)) /\ h' = Append(h, "end")
                        /\ s' = s
Spec == Init /\ [][Next]_<<s, h>>
=============================================================================
