------------------------------- MODULE MirrorMC -------------------------------
(* The reflection acts on the basis states |mode, G>; a separator walks over *)
(* the vectors and makes one even and one odd combination of every pair, one *)
(* state of the mode's own sign for a vector left in place.  ALLBOTH is the  *)
(* variant that makes both of every vector.                                  *)
EXTENDS Mirror
CONSTANTS ALLBOTH
VARIABLES lat, pl, n, left, te, even, odd
vars == <<lat, pl, n, left, te, even, odd>>
Ball(lt, c) == { g \in (-6..6) \X (-6..6) : Norm2(lt, <<g[2], -g[1]>>) <= c }
AllPlanes(lt) == { Planes(lt)[i] : i \in DOMAIN Planes(lt) }
Init == /\ lat \in {"square", "rectangular", "hexagonal"}
        /\ pl \in AllPlanes(lat)
        /\ n \in (IF lat = "rectangular" THEN {50, 72, 130, 290} ELSE {2, 4, 8, 18, 50}) /\ left = Ball(lat, n) /\ te \in BOOLEAN /\ even = 0 /\ odd = 0
Pair == left # {} /\ LET g == CHOOSE g \in left : TRUE  r == ReflG(pl.m, g) IN
  /\ left' = left \ {g, r}
  /\ IF r # g \/ ALLBOTH THEN even' = even + 1 /\ odd' = odd + 1
     ELSE IF te THEN odd' = odd + 1 /\ even' = even ELSE even' = even + 1 /\ odd' = odd
  /\ UNCHANGED <<lat, pl, n, te>>
Next == Pair
Spec == Init /\ [][Next]_vars
(* the planes are reflections of the lattice that keep their direction       *)
Geometry ==
  \A lt \in {"square", "rectangular", "hexagonal"} : \A p \in AllPlanes(lt) :
    /\ p.m[1] * p.m[4] - p.m[2] * p.m[3] = -1
    /\ ReflG(p.m, p.dir) = p.dir
    /\ \A u \in (-2..2) \X (-2..2) : Refl(p.m, Refl(p.m, u)) = u /\ Norm2(lt, Refl(p.m, u)) = Norm2(lt, u)
ASSUME Geometry
Closed == \A g \in Ball(lat, n) : ReflG(pl.m, g) \in Ball(lat, n)
Partition == left = {} =>
  /\ even + odd = Cardinality(Ball(lat, n))
  /\ even - odd = Excess(pl.m, Ball(lat, n), IF te THEN 1 ELSE 0, IF te THEN 0 ELSE 1)
=============================================================================
