------------------------------ MODULE FieldLaws ------------------------------
(* Maxwell equations for one Bloch mode, exp(-i omega t), by Fourier         *)
(* components in the plane.  A vector field F is a sequence over the basis   *)
(* of <<re x, im x, re y, im y, re z, im z>>; kap is k+G, dF the derivative  *)
(* along z.  All are integers; k+G is exact in units of 2 pi / KD(lat).      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Sq2(x) == x * x
(* ---------------------- wave vectors, exactly --------------------------- *)
(* lat in 1/LU of the length unit, k in 1/KU of 2 pi / length unit           *)
LU == 12
KU == 20
AbsL(x) == IF x < 0 THEN -x ELSE x
LDet(lat) == lat[1] * lat[4] - lat[2] * lat[3]
KD(lat) == KU * AbsL(LDet(lat))
KapX(lat, k, m) == k[1] * AbsL(LDet(lat)) +
  KU * LU * (LDet(lat) \div AbsL(LDet(lat))) * (m[1] * lat[4] - m[2] * lat[2])
KapY(lat, k, m) == k[2] * AbsL(LDet(lat)) +
  KU * LU * (LDet(lat) \div AbsL(LDet(lat))) * (m[2] * lat[1] - m[1] * lat[3])
Kap(lat, k, m) == <<KapX(lat, k, m), KapY(lat, k, m)>>
(* |k+G|^2 KD^2 *)
Kap2(lat, k, m) == Sq2(KapX(lat, k, m)) + Sq2(KapY(lat, k, m))

(* ---------------------- curl and divergence ----------------------------- *)
(* i curl F *)
ICurl(kap, F, dF) ==
  << -kap[2] * F[5] + dF[4], -kap[2] * F[6] - dF[3],
     kap[1] * F[5] - dF[2],   kap[1] * F[6] + dF[1],
     kap[2] * F[1] - kap[1] * F[3], kap[2] * F[2] - kap[1] * F[4] >>
Neg6(F) == [i \in 1..6 |-> -F[i]]
(* -i div F *)
NIDiv(kap, F, dF) == << kap[1] * F[1] + kap[2] * F[3] + dF[6],
                        kap[1] * F[2] + kap[2] * F[4] - dF[5] >>
(* <F, G>, real and imaginary part *)
Dot6(F, G) == << F[1] * G[1] + F[2] * G[2] + F[3] * G[3] + F[4] * G[4] + F[5] * G[5] + F[6] * G[6],
                 F[1] * G[2] - F[2] * G[1] + F[3] * G[4] - F[4] * G[3] + F[5] * G[6] - F[6] * G[5] >>
=============================================================================
