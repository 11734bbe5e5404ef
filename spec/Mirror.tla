-------------------------------- MODULE Mirror --------------------------------
(* Vertical mirror planes of a lattice through the origin.  Points of the    *)
(* plane and vectors are written in the lattice vectors (contravariant),     *)
(* reciprocal lattice vectors by their indexes, so that a reflection is an   *)
(* integer matrix <<p, q, r, s>>: (u, v) -> (p u + q v, r u + s v).          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
(* dir: reciprocal coordinates of the direction the plane contains           *)
Planes(lat) ==
  CASE lat = "square" -> << [a |-> 0, m |-> <<1, 0, 0, -1>>, dir |-> <<1, 0>>], [a |-> 45, m |-> <<0, 1, 1, 0>>, dir |-> <<1, 1>>],
                            [a |-> 90, m |-> <<-1, 0, 0, 1>>, dir |-> <<0, 1>>], [a |-> 135, m |-> <<0, -1, -1, 0>>, dir |-> <<-1, 1>>] >>
    [] lat = "rectangular" -> << [a |-> 0, m |-> <<1, 0, 0, -1>>, dir |-> <<1, 0>>], [a |-> 90, m |-> <<-1, 0, 0, 1>>, dir |-> <<0, 1>>] >>
    [] OTHER -> << [a |-> 0, m |-> <<0, 1, 1, 0>>, dir |-> <<1, 1>>], [a |-> 30, m |-> <<1, 0, 1, -1>>, dir |-> <<1, 0>>],
                   [a |-> 60, m |-> <<1, -1, 0, -1>>, dir |-> <<2, -1>>], [a |-> 90, m |-> <<0, -1, -1, 0>>, dir |-> <<1, -1>>],
                   [a |-> 120, m |-> <<-1, 0, -1, 1>>, dir |-> <<1, -2>>], [a |-> 150, m |-> <<-1, 1, 0, 1>>, dir |-> <<0, -1>>] >>
(* metric <a1.a1, a1.a2, a2.a2> *)
Gram(lat) == CASE lat = "square" -> <<2, 0, 2>> [] lat = "rectangular" -> <<50, 0, 72>> [] OTHER -> <<2, -1, 2>>
Refl(m, u) == <<m[1] * u[1] + m[2] * u[2], m[3] * u[1] + m[4] * u[2]>>
(* on indexes of reciprocal vectors: the transposed matrix                   *)
ReflG(m, g) == <<m[1] * g[1] + m[3] * g[2], m[2] * g[1] + m[4] * g[2]>>
Norm2(lat, u) == LET w == Gram(lat) IN w[1] * u[1] * u[1] + 2 * w[2] * u[1] * u[2] + w[3] * u[2] * u[2]
Fixed(m, G) == { g \in G : ReflG(m, g) = g }
(* number of even minus number of odd states over the basis: a guided mode    *)
(* contributes its sign for every vector the plane leaves in place; TE modes  *)
(* are odd and TM modes are even                                              *)
Excess(m, G, nte, ntm) == Cardinality(Fixed(m, G)) * (ntm - nte)
(* A mode: F is a sequence over G (indexes Gs[i]) of components in lattice    *)
(* coordinates and z.  pol = 1 for D and E, -1 for H (axial).                 *)
Parity(m, pol, par) == pol * par
=============================================================================
