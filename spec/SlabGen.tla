-------------------------------- MODULE SlabGen --------------------------------
(* Random stacks (thickness in 1/20) and searches for their guided modes     *)
(* over lists of wave vectors (in 1/10) in any order.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS LEN
VARIABLES h
Pick(S) == RandomElement(S)
Init == h = <<>>
G1(i) == LET w == Pick(1..5) IN IF w = 1 THEN Pick(1..20) ELSE IF w = 2 THEN Pick(100..250) ELSE Pick(10..120)
(* lists: ascending, descending, any order, with repetitions                 *)
Sorted(s, dir) == LET RECURSIVE Ins(_, _)
                      Ins(x, q) == IF q = <<>> THEN <<x>> ELSE IF dir * x <= dir * Head(q) THEN <<x>> \o q ELSE <<Head(q)>> \o Ins(x, Tail(q))
                      RECURSIVE Sort(_)
                      Sort(q) == IF q = <<>> THEN <<>> ELSE Ins(Head(q), Sort(Tail(q)))
                  IN Sort(s)
First ==
  \E n \in {Pick({1, 1, 2, 2, 3, 3, 4})} : \E lay \in {[i \in 1..4 |-> [eps |-> Pick({1, 2, 4, 6, 8, 10, 12, 13, 16}), d |-> Pick({2, 4, 6, 8, 10, 14, 20})]]} :
  \E el \in {Pick({1, 1, 2, 3, 9})} : \E eu \in {Pick({1, 1, 2, 3})} :
    h' = << [op |-> "base", layers |-> SubSeq(lay, 1, n), el |-> el, eu |-> eu] >>
Search ==
  \E ln \in {Pick(1..6)} : \E gs \in {[i \in 1..6 |-> G1(i)]} : \E ord \in {Pick({"up", "down", "any", "any", "rep"})} :
  \E n \in {Pick({1, 1, 2, 3, 4, 6, 9})} : \E pol \in {Pick({"TE", "TM", "te", "tm"})} : \E stp \in {Pick({1, 2, 5})} :
    LET s == SubSeq(gs, 1, ln)
        q == CASE ord = "up" -> Sorted(s, 1) [] ord = "down" -> Sorted(s, -1) [] ord = "rep" -> Sorted(s \o s, 1) [] OTHER -> s
    IN h' = Append(h, [op |-> "search", gs |-> q, n |-> n, pol |-> pol, step |-> stp])
Next == \/ h = <<>> /\ First
        \/ Len(h) \in 1..(LEN - 1) /\ Search
        \/ Len(h) = LEN /\ PrintT("CASE " \o ToJson(h)) /\ h' = Append(h, [op |-> "end"])
Spec == Init /\ [][Next]_h
=============================================================================
