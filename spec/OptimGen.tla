------------------------------- MODULE OptimGen -------------------------------
(* Histories of one optimizer object: an objective, then several uses with   *)
(* random starts, bounds and options, some of which end with an error raised *)
(* by the objective.  Lengths in thousandths.                                *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS LEN
NONE == 1000000000
VARIABLES h
Pick(S) == RandomElement(S)
Init == h = <<>>
(* slopes left (downwards) and right (upwards) of the knee at c              *)
Knee(k) == [c |-> 10 * Pick(-200..200) + Pick({1, 3, 7}), l |-> Pick({0, 1, 2, 2, 3}), r |-> Pick({0, 1, 1, 2, 3})]
First == \E n \in {Pick(1..3)} : \E ks \in {<<Knee(1), Knee(2), Knee(3)>>} : \E sign \in {Pick(1..4)} :
  h' = << [op |-> "base", n |-> n, wave |-> Pick(1..3) = 1,
           kn |-> SubSeq([i \in 1..3 |-> IF sign = 1 THEN [ks[i] EXCEPT !.r = -ks[i].l] ELSE ks[i]], 1, n)] >>
(* bounds and a start within them                                            *)
Side(i) == Pick({ <<NONE, NONE>>, <<NONE, 500>>, <<-300, NONE>>, <<-1000, 1000>>, <<-50, 60>>, <<400, 400>>, <<0, 900>>, <<0, NONE>>, <<NONE, 0>>, <<-2000, 0>> })
Lo(b) == IF b[1] # NONE THEN b[1] ELSE IF b[2] # NONE THEN b[2] - 1500 ELSE -1500
Hi(b) == IF b[2] # NONE THEN b[2] ELSE IF b[1] # NONE THEN b[1] + 1500 ELSE 1500
Start(b) == Pick(Lo(b)..Hi(b))
Use == \E n \in {h[1].n} : \E kind \in {Pick({"none", "pair", "list", "list"})} : \E bs \in {<<Side(1), Side(2), Side(3)>>} :
  \E m \in {Pick(1..5)} : \E b0 \in {Pick({ <<-1000, 1000>>, <<-50, 60>>, <<NONE, 300>>, <<100, NONE>>, <<0, 700>> })} :
   LET b == [i \in 1..n |-> IF kind = "none" THEN <<NONE, NONE>> ELSE IF kind = "pair" THEN b0 ELSE bs[i]] IN
   \E p \in {[i \in 1..n |-> Start(b[i])]} :
   h' = Append(h, [op |-> "use", how |-> IF m <= 3 THEN "adam" ELSE "lbfgs", kind |-> kind, b |-> b, p |-> p,
                   N |-> IF m <= 3 THEN Pick(0..7) ELSE Pick({1, 2, 3, 40}), st |-> Pick({1, 10, 50, 200, 700}),
                   h1 |-> Pick({0, 1, 9, 9}), h2 |-> Pick(IF \A i \in 1..n : h[1].kn[i].l # 0 /\ h[1].kn[i].r # 0 THEN {0, 1, 9, 9} ELSE {1, 9}), args |-> Pick({ <<>>, <<1>>, <<2>>, <<3, 1>> }),
                   ps |-> Pick(BOOLEAN), cb |-> Pick(BOOLEAN), arr |-> Pick(BOOLEAN), defs |-> Pick(1..6) = 1, maxfun |-> Pick({15000, 15000, 2}), res |-> Pick(BOOLEAN),
                   fail |-> IF Pick(1..6) = 1 THEN Pick(1..3) ELSE 0])
Next == \/ h = <<>> /\ First
        \/ Len(h) \in 1..(LEN - 1) /\ Use
        \/ Len(h) = LEN /\ PrintT("CASE " \o ToJson(h)) /\ h' = Append(h, [op |-> "end"])
Spec == Init /\ [][Next]_h
=============================================================================
