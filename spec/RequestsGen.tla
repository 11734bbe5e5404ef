----------------------------- MODULE RequestsGen -----------------------------
(* Histories of requests, most of them legal: to two solver objects (KIND    *)
(* "solver") or to a structure under construction and to what stands alone   *)
(* (KIND "build").  o mirrors the objects only to know whether they may be   *)
(* asked.                                                                    *)
EXTENDS Requests, Json
CONSTANTS LEN, KIND
VARIABLES h, o
Pick(S) == RandomElement(S)
(* a legal value, or with probability 1/n an illegal one                     *)
Mostly(good, wrong, n) == IF Pick(1..n) = 1 THEN Pick(wrong) ELSE Pick(good)
New(i) == \E kind \in {IF Pick(1..3) = 1 THEN Pick({"pwe", "ese", "pol"}) ELSE "gme"} : \E tr \in {Mostly({"tbt", "abs"}, {"foo"}, 12)} :
  \E z \in {Mostly({"inside", "upper-layer"}, {"below", "above"}, 5)} : \E osc \in {Mostly({"list", "array", "none"}, {"two", "tuple", "number"}, 5)} :
  \E w \in {Mostly({"one", "two"}, {"none", "differ"}, 4)} : \E st \in {Pick(1..3)} :
  \E r \in {[op |-> "new", i |-> i, kind |-> kind, tr |-> tr, z |-> z, osc |-> osc, wells |-> w, st |-> st, gm |-> Pick(1..2)]} :
  /\ h' = Append(h, r)
  /\ o' = IF ~NewOk(r) THEN o ELSE [o EXCEPT ![i] = [kind |-> kind, tr |-> tr, eff |-> FALSE, ran |-> <<>>]]
Eff(i) == o[i].kind = "gme" /\ h' = Append(h, [op |-> "eff", i |-> i]) /\ o' = [o EXCEPT ![i].eff = TRUE]
Run(i) == \E kz \in {IF Pick(1..3) = 1 THEN Mostly({"both", "even", "odd"}, {"foo"}, 5) ELSE "none"} : \E flaws \in {Pick(1..2)} :
  LET N == IF flaws = 1 THEN 1000000 ELSE 9 IN
  \E r \in {[op |-> "run", i |-> i, kz |-> kz, gmc |-> Mostly({"exact"}, {"interp", "foo"}, IF N = 9 THEN 5 ELSE N), grad |-> Mostly({"exact", "approx"}, {"foo"}, N),
            solver |-> IF kz # "none" THEN Mostly({"eigh"}, {"eigsh"}, N) ELSE Mostly({"eigh", "eigsh"}, {"foo"}, N),
            eps |-> IF o[i].eff THEN Mostly({"average", "background", "custom"}, {"foo"}, N) ELSE Mostly({"average", "background"}, {"foo", "custom"}, N),
            ang |-> IF kz = "none" THEN Pick({"right", "none", "short"}) ELSE Mostly({"right"}, {"none", "short", "off"}, N),
            kp |-> IF kz = "none" THEN Mostly({"axis", "any"}, {"flat"}, N) ELSE Mostly({"axis"}, {"any"}, N),
            only |-> IF kz = "none" /\ Pick(1..6) = 1 /\ (N = 9 \/ o[i].tr = "abs") THEN TRUE ELSE FALSE,
            ne |-> Mostly(1..4, {5000}, N), inds |-> Mostly({<<0, 1>>, <<0, 1, 2>>, <<0, 1, 3>>}, {<<>>}, N),
            im |-> Pick(BOOLEAN), extra |-> Mostly({FALSE}, {TRUE}, N), extraex |-> Mostly({FALSE}, {TRUE}, N), sp |-> Pick(BOOLEAN), pol |-> Mostly({"te", "tm", "TE", "TM"}, {"xx", "t"}, N)]} :
     /\ h' = Append(h, r)
     /\ o' = [o EXCEPT ![i].ran = IF RunOk(o[i], r) THEN <<r>> ELSE <<0, 0>>]
Query(i) == \E k \in {Mostly(0..1, {2, 5, -3}, 8)} : \E m \in {Mostly({0, 1, 2, 3}, {4, 7}, 8)} : \E f \in {Mostly({"h", "H", "d", "e", "E"}, {"q", "b"}, 8)} :
  \E c \in {Mostly({"x", "xyz", "zz", "yx"}, {"q", "xq"}, 8)} :
  /\ o[i].kind # "pol" /\ Askable(o[i])
  /\ h' = Append(h, [op |-> "query", i |-> i, what |-> Pick(Whats(o[i].kind)), k |-> k, m |-> m, field |-> f, comp |-> c]) /\ o' = o
Solver == \E i \in {Pick(1..2)} :
  IF o[i].kind = "" THEN New(i)
  ELSE \E w \in {Pick(1..20)} : CASE w = 1 -> New(i) [] w = 2 /\ o[i].kind = "gme" -> Eff(i)
         [] w \in 3..12 -> IF o[i].kind # "pol" /\ Askable(o[i]) THEN Query(i) ELSE Run(i) [] OTHER -> Run(i)
B == \E w \in {Pick(1..24)} :
  \E r \in {CASE w \in 1..4 -> [op |-> "build", what |-> "layer", type |-> Mostly({"shapes", "default"}, {"foo", "shape"}, 4)]
             [] w \in 5..9 -> [op |-> "build", what |-> "shape", shape |-> Mostly({"one", "list"}, {"text", "listwrong", "class", "number"}, 4), clad |-> IF Pick(1..3) > 1 THEN "no" ELSE Mostly({"0", "1", "l", "u"}, {"2", "x", "-1"}, 4),
                               ix |-> Pick(-3..3)]
             [] w \in 10..12 -> [op |-> "build", what |-> "well", z |-> Pick({"inside", "inside", "below", "justbelow", "bottom", "above", "justabove", "top"})]
             [] w \in 13..14 -> [op |-> "build", what |-> "eps", same |-> Pick(BOOLEAN), part |-> Pick(1..3)]
             [] w = 15 -> [op |-> "build", what |-> "eff", set |-> Pick(BOOLEAN)]
             [] w = 16 -> [op |-> "build", what |-> "lattice", form |-> Pick({"square", "hexagonal", "vectors", "foo", "one", "nothing", "numbers"})]
             [] w \in 17..19 -> [op |-> "build", what |-> "path", lat |-> Pick({"square", "hexagonal", "vectors"}), ns |-> [i \in 1..Pick(1..3) |-> Pick(1..4)],
                               pts |-> [i \in 1..Pick(1..4) |-> IF Pick(1..8) = 1 THEN Pick({"Q", "g2"}) ELSE Pick({"G", "vector", "X", "K", "M"})]]
             [] w = 20 -> [op |-> "build", what |-> "poly", form |-> Pick({"anticlockwise", "clockwise", "lengths"})]
             [] w = 21 -> [op |-> "build", what |-> "backend", name |-> Pick({"numpy", "autograd", "foo", "Numpy"})]
             [] w = 22 -> [op |-> "build", what |-> "print", name |-> Pick({"base", "foo"})]
             [] w = 23 -> [op |-> "build", what |-> "slab", pol |-> Pick({"te", "tm", "TE", "TM", "xx", "t"})]
             [] OTHER -> [op |-> "build", what |-> "bounds", form |-> Pick({"none", "pair", "list", "open", "ragged", "three", "one", "short", "text"}), meth |-> Pick({"adam", "lbfgs"})]} :
     h' = Append(h, r) /\ o' = o
Blank == [kind |-> "", tr |-> "", eff |-> FALSE, ran |-> <<>>]
Init == h = <<>> /\ o = <<Blank, Blank>>
Next == \/ Len(h) < LEN /\ (IF KIND = "solver" THEN Solver ELSE B)
        \/ Len(h) = LEN /\ PrintT("CASE " \o ToJson(h)) /\ h' = Append(h, [op |-> "end"]) /\ o' = o
Spec == Init /\ [][Next]_<<h, o>>
=============================================================================
