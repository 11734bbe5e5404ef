------------------------------- MODULE EquivGen -------------------------------
(* Random structures and chains of equivalent descriptions.  Every event     *)
(* carries the whole new description, so the driver only has to build it.    *)
EXTENDS RandStruct
CONSTANTS LEN, MODE
VARIABLES v, h
Gme == MODE = "gme"
Init == h = <<>> /\ v = <<>>
(* TLC evaluates Init only once, so the structure is drawn in the first step *)
First ==
  \E li \in {Pick(1..Len(Lats))} : \E n \in {IF Gme THEN Pick({1, 2, 2, 3}) ELSE 1} :
  \E lay \in {<<RandLayer(1), RandLayer(2), RandLayer(3)>>} :
  \E cl \in {<<RandClad(1), RandClad(2)>>} : \E kx \in {Pick(-9..9)} : \E ky \in {Pick(-9..9)} :
  \E el \in {Pick(1..3)} : \E eu \in {Pick(1..3)} : \E tr \in {Pick(1..4)} : \E w \in {Pick(1..100)} :
    /\ v' = V0([lat |-> Lats[li], el |-> el, eu |-> eu, layers |-> SubSeq(lay, 1, n),
               clad |-> IF Gme THEN cl ELSE <<<<>>, <<>>>>, qws |-> <<>>], <<kx, ky>>)
    /\ h' = << [op |-> "base", v |-> v', w |-> w,
               tr |-> IF MODE = "pwe" \/ tr = 1 THEN "tbt" ELSE "abs"] >>

Us == << <<1, 1, 0, 1>>, <<1, 0, 1, 1>>, <<1, 0, -1, 1>>, <<0, 1, -1, 0>>, <<1, -1, 1, 0>> >>
UsT == << <<0, 1, 1, 0>>, <<-1, 0, 0, 1>>, <<0, 1, -1, 0>>, <<-1, 0, 0, -1>> >>
Emit(e) == v' = Apply(v, e) /\ h' = Append(h, e @@ [v |-> v'])
Big(x) == x.ln * x.ld * x.en * x.ed > 36
Ops == IF Gme THEN {"shift", "latshift", "rebase", "split", "split", "flip", "flip", "reorder", "reversek",
                    "turn", "mirror", "cut", "null", "scalel", "scalee", "units"}
       ELSE {"shift", "shift", "latshift", "rebase", "reorder", "reversek", "turn", "mirror", "cut",
             "scalel", "scalee"} \union (IF MODE = "exc" THEN {} ELSE {"null", "units"})
Act ==
  \E o \in {Pick(Ops)} : \E i \in {Pick(1..Len(v.s.layers))} : \E a \in {Pick(-30..30)} :
  \E b \in {Pick(-30..30)} : \E m \in {Pick(-1..2)} : \E sh \in {RandShape(2, 1..2)} : \E ui \in {Pick(1..5)} :
  LET nsh == Len(v.s.layers[i].shapes)
      j == 1 + (Abs(a) % nsh)
      e == CASE o = "shift" -> [op |-> o, a |-> a, b |-> b]
             [] o = "latshift" -> [op |-> o, i |-> i, j |-> j, a |-> m, b |-> 1 - m]
             [] o = "rebase" -> [op |-> o, u |-> IF h[1].tr = "abs" THEN Us[ui] ELSE UsT[1 + (ui % 4)]]
             [] o = "split" -> [op |-> o, i |-> i, a |-> v.s.layers[i].d \div (2 + (Abs(b) % 2))]
             [] o \in {"cut"} /\ CanCut(v, i, j) -> [op |-> o, i |-> i, j |-> j, a |-> Abs(b)]
             [] o = "cut" -> [op |-> "again"]
             [] o = "null" -> IF Len(v.s.layers[i].shapes) < 4 THEN [op |-> o, i |-> i, sh |-> sh]
                              ELSE [op |-> "again"]
             [] o \in {"scalel", "scalee"} ->
                  LET f == IF a > 0 THEN <<2, 1>> ELSE IF b > 0 THEN <<2, 3>> ELSE <<3, 2>>
                      e0 == [op |-> o, a |-> f[1], b |-> f[2]]
                  IN IF Big(Apply(v, e0)) THEN [op |-> "again"] ELSE e0
             [] o = "units" -> [op |-> o, a |-> Abs(a) % 5]
             [] o = "reorder" -> [op |-> o, i |-> i]
             [] OTHER -> [op |-> o]
  IN IF o = "split" /\ (v.s.layers[i].d < 12 \/ Len(v.s.layers) > 4) THEN Emit([op |-> "again"]) ELSE Emit(e)
Last == \E a \in {Pick(1..2)} :
  IF h[1].tr = "abs" THEN Emit([op |-> "double", a |-> a]) ELSE Emit([op |-> "again"])
Next == \/ h = <<>> /\ First
        \/ Len(h) \in 1..(LEN - 2) /\ Act
        \/ Len(h) = LEN - 1 /\ Last
        \/ Len(h) = LEN /\ PrintT("CASE " \o ToJson(h))
           /\ h' = Append(h, [op |-> "end"]) /\ v' = v
Spec == Init /\ [][Next]_<<v, h>>
=============================================================================
