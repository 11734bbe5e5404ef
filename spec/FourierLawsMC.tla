---------------------------- MODULE FourierLawsMC ----------------------------
(* The laws hold for the Fourier sums of every region of a 3 x 3 pixel board *)
(* (exhaustive): moving, turning, mirroring, cutting, conjugation, bounds.   *)
EXTENDS FourierLaws
VARIABLES region, n
Board == (-1..1) \X (-1..1)
RECURSIVE F(_, _)
F(R, m) == IF R = {} THEN <<0, 0>>
           ELSE LET p == CHOOSE p \in R : TRUE
                IN Plus(Quarter(<<1, 0>>, Dot(m, p)), F(R \ {p}, m))
Init == region \in SUBSET Board /\ n \in (-2..2) \X (-1..2)
Next == UNCHANGED <<region, n>>
Spec == Init /\ [][Next]_<<region, n>>

S == [n |-> <<n>>, f |-> <<F(region, n)>>, area |-> Cardinality(region)]
Shift(R, d) == { <<p[1] + d[1], p[2] + d[2]>> : p \in R }
Holds(s2, R2) == F(R2, s2.n[1]) = s2.f[1]
LawMove   == \A d \in { <<1, 0>>, <<0, 2>>, <<-3, 1>> } :
               Holds(Moved(S, d), Shift(region, d))
LawTurn   == Holds(Turned(S), { TurnV(p) : p \in region })
LawMirror == Holds(Mirrored(S), { MirrorV(p) : p \in region })
LawConj   == F(region, Neg(n)) = Conj(F(region, n))
LawZero   == F(region, <<0, 0>>) = <<Cardinality(region), 0>>
LawCut    == LET a == { p \in region : p[1] + p[2] > 0 }
             IN F(region, n) = Plus(F(a, n), F(region \ a, n))
LawBound  == F(region, n)[1] <= Cardinality(region)
(* not a law: the value does not depend on the sign of the phase (rejected)  *)
NoPhase   == F(Shift(region, <<1, 0>>), n) = F(region, n)
=============================================================================
