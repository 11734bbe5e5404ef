-------------------------------- MODULE RadMC --------------------------------
(* A mode is raised in frequency, its k-point reversed, or another name      *)
(* (k + reciprocal vector) is taken for it.  The open orders of both         *)
(* claddings have to follow.                                                 *)
EXTENDS Radiation
CONSTANTS N, QMAX, FOLD
VARIABLES lat, k, q, el, open
B == (-N..N) \X (-N..N)
Lats == { <<12, 0, 0, 12>>, <<12, 0, 6, 12>>, <<12, 0, 0, 18>> }
Unit(lt) == Sq2(KD(lt)) \div 40          \* step of f^2 KD^2
Rec(lt, c) == << (KapX(lt, <<0, 0>>, c) * KU) \div KD(lt), (KapY(lt, <<0, 0>>, c) * KU) \div KD(lt) >>
Orders(lt, kk, qq) == Open(lt, kk, B, qq)
Init == /\ lat \in Lats /\ k \in { <<i, j>> : i \in {0, 3, 10}, j \in {-7, 0, 10} } /\ q = 0 /\ el = 1
        /\ open = [l |-> Orders(lat, k, 0), u |-> Orders(lat, k, 0), fold |-> <<0, 0>>]
Raise == /\ q < QMAX * Unit(lat) /\ q' = q + Unit(lat) /\ UNCHANGED <<lat, k, el>>
         /\ open' = [open EXCEPT !.l = Orders(lat, k, el * q'), !.u = Orders(lat, k, q')]
Dense == /\ el < 3 /\ el' = el + 1 /\ UNCHANGED <<lat, k, q>>
         /\ open' = [open EXCEPT !.l = Orders(lat, k, el' * q)]
Back == /\ k' = Neg(k) /\ UNCHANGED <<lat, q, el>>
        /\ open' = [l |-> NegS(open.l), u |-> NegS(open.u), fold |-> Neg(open.fold)]
Next == Raise \/ Dense \/ Back
Spec == Init /\ [][Next]_<<lat, k, q, el, open>>
(* the light cone of the cladding over all orders                            *)
Lowest == LET S == { IF FOLD THEN Kap2(lat, k, m) ELSE Kap2(lat, k, <<0, 0>>) : m \in B } IN CHOOSE x \in S : \A y \in S : x <= y
Current == open.l = Orders(lat, k, el * q) /\ open.u = Orders(lat, k, q)
LowerHasMore == open.u \subseteq open.l
DarkBelowLightCone == /\ (open.u = {}) = (q < Lowest) /\ (open.l = {}) = (el * q < Lowest)
(* the set of directions does not depend on the name of k                    *)
Name == \A c \in {<<1, 0>>, <<0, 1>>, <<1, -1>>} :
          LET k2 == <<k[1] + Rec(lat, c)[1], k[2] + Rec(lat, c)[2]>>
              inner == { m \in open.l : \A i \in 1..2 : AbsL(m[i]) < N - 1 }
          IN (Rec(lat, c)[1] * KD(lat) = KU * KapX(lat, <<0, 0>>, c) /\ Rec(lat, c)[2] * KD(lat) = KU * KapY(lat, <<0, 0>>, c)) =>
             \A m \in inner : <<m[1] - c[1], m[2] - c[2]>> \in Open(lat, k2, B, el * q)
Inv == Current /\ LowerHasMore /\ Name
=============================================================================
