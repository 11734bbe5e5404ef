------------------------------ MODULE Radiation ------------------------------
(* Radiation of Bloch modes: a mode of frequency f at k couples to the       *)
(* diffraction order G of a cladding of permittivity eps exactly if          *)
(* |k+G|^2 <= eps f^2.  Wave vectors are exact integers (FieldLaws), q is    *)
(* eps f^2 KD^2 rounded.                                                     *)
EXTENDS FieldLaws

(* open orders among the vectors gs, with the margin of the rounding         *)
Margin(q) == 3 + q \div 50000
Surely(lat, k, gs, q) == { m \in gs : Kap2(lat, k, m) <= q - Margin(q) }
Perhaps(lat, k, gs, q) == { m \in gs : Kap2(lat, k, m) <= q + Margin(q) }
Open(lat, k, gs, q) == { m \in gs : Kap2(lat, k, m) <= q }
Neg(m) == <<-m[1], -m[2]>>
NegS(S) == { Neg(m) : m \in S }
=============================================================================
