----------------------------- MODULE FourierLaws -----------------------------
(* How the Fourier integral F(n) = Int_region exp(-i (pi/2) n.r) of a region *)
(* of the plane changes with the region.  A complex value is <<re, im>>.     *)
(* n is a pair of integers (the wave vector is n pi/2), displacements are    *)
(* integers, so every phase is a quarter turn and the laws are exact.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Mod4(x) == x % 4
(* multiply z by (-i)^k *)
Quarter(z, k) ==
  CASE Mod4(k) = 0 -> z
    [] Mod4(k) = 1 -> <<z[2], -z[1]>>
    [] Mod4(k) = 2 -> <<-z[1], -z[2]>>
    [] OTHER       -> <<-z[2], z[1]>>
Conj(z) == <<z[1], -z[2]>>
Plus(z, w) == <<z[1] + w[1], z[2] + w[2]>>
Dot(n, d) == n[1] * d[1] + n[2] * d[2]
TurnV(n) == <<-n[2], n[1]>>
MirrorV(n) == <<-n[1], n[2]>>
Neg(n) == <<-n[1], -n[2]>>

(* State of an observation: n = wave vectors looked at, f = values there.    *)
Moved(s, d)  == [s EXCEPT !.f = [i \in DOMAIN s.f |-> Quarter(s.f[i], Dot(s.n[i], d))]]
Turned(s)    == [s EXCEPT !.n = [i \in DOMAIN s.n |-> TurnV(s.n[i])]]
Mirrored(s)  == [s EXCEPT !.n = [i \in DOMAIN s.n |-> MirrorV(s.n[i])]]
(* half the size: twice the wave vector, a quarter of the value *)
Halved(s)    == [n |-> [i \in DOMAIN s.n |-> <<2 * s.n[i][1], 2 * s.n[i][2]>>],
                 f |-> [i \in DOMAIN s.f |-> <<s.f[i][1] \div 4, s.f[i][2] \div 4>>],
                 area |-> s.area \div 4]
=============================================================================
