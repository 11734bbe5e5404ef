------------------------------- MODULE MirrorGen -------------------------------
(* Structures with a mirror plane (or with all of the lattice's), runs at    *)
(* k-points on the plane, with all ways to separate the modes.               *)
EXTENDS Mirror, Json
CONSTANTS LEN
VARIABLES h, st
Pick(S) == RandomElement(S)
Init == h = <<>> /\ st = <<>>
(* shapes in 1/60 of the lattice vectors; a shape away from the plane comes  *)
(* with its image                                                            *)
Ring == << <<5, 0>>, <<3, 4>>, <<-2, 6>>, <<-6, 1>>, <<-3, -5>>, <<4, -5>> >>
Dist2(lat, u, v) ==
  LET D == { Norm2(lat, <<u[1] - v[1] + 60 * i, u[2] - v[2] + 60 * j>>) : i \in -2..2, j \in -2..2 }
  IN CHOOSE x \in D : \A y \in D : x <= y
RandOne(i) == [kind |-> Pick({"circle", "poly", "poly"}), u |-> <<Pick(-28..28), Pick(-28..28)>>, r |-> Pick(5..8), e |-> Pick(1..16),
               vs |-> IF Pick({TRUE, FALSE}) THEN Ring ELSE <<Ring[1], Ring[3], Ring[6]>>]
Image(m, s) == [s EXCEPT !.u = Refl(m, @), !.vs = [i \in DOMAIN @ |-> Refl(m, @[Len(@) + 1 - i])]]
(* twice the largest radius, as a square in units of Norm2 *)
Room(lat) == IF lat = "rectangular" THEN 50 * 400 ELSE 2 * 400
WithImage(lat, m, s) ==
  IF Dist2(lat, s.u, Refl(m, s.u)) >= Room(lat) THEN <<s, Image(m, s)>>
  ELSE <<[s EXCEPT !.kind = "circle", !.u = IF lat # "hexagonal" /\ Dist2(lat, @, <<0, 0>>) >= Room(lat) THEN <<30, 30>> ELSE <<0, 0>>]>>
Centre(i) == <<[RandOne(i) EXCEPT !.kind = "circle", !.u = <<0, 0>>, !.r = Pick(9..18)]>>
Lay(lat, m, full, i) ==
  [d |-> Pick({16, 20, 24, 30}), eps |-> Pick(7..13),
   shapes |-> IF full THEN Centre(i) ELSE IF Pick(1..6) = 1 THEN <<>> ELSE WithImage(lat, m, RandOne(i))]
First ==
  \E lat \in {Pick({"square", "square", "rectangular", "hexagonal", "hexagonal"})} : \E w \in {Pick(1..60)} :
  \E n \in {Pick(1..2)} : \E full \in {Pick({TRUE, FALSE, FALSE})} :
  \E el \in {Pick({1, 1, 2})} : \E eu \in {Pick({1, 1, 2})} : \E tr \in {Pick({"abs", "abs", "tbt"})} :
   LET pl == Planes(lat)[(w % Len(Planes(lat))) + 1]
   IN \E ly \in {<<Lay(lat, pl.m, full, 1), Lay(lat, pl.m, full, 2)>>} :
      /\ st' = [lat |-> lat, full |-> full, pl |-> pl]
      /\ h' = << [op |-> "base", lat |-> lat, m |-> pl.m, full |-> full, layers |-> SubSeq(ly, 1, n), el |-> el,
                 eu |-> eu, tr |-> IF lat = "hexagonal" THEN "abs" ELSE tr, t |-> Pick(0..9),
                 gi |-> Pick({<<0, 1>>, <<0, 1>>, <<1, 0>>, <<0, 1, 2>>, <<0, 1, 3>>, <<0, 3, 2, 1>>, <<1, 2>>})] >>
(* runs on the same structure; with all planes present, along any of them     *)
Run == \E pl \in {IF st.full THEN Planes(st.lat)[Pick(1..Len(Planes(st.lat)))] ELSE st.pl} :
       \E back \in {Pick({1, -1})} : \E sp \in {Pick({TRUE, FALSE})} : \E turn \in {Pick({0, 0, 360})} :
       \E t \in {IF st.full THEN h[1].t ELSE Pick(0..9)} : \E fd \in {Pick({"H", "D", "E"})} : \E z \in {Pick(3..97)} :
  /\ h' = Append(h, [op |-> "run", a |-> pl.a, m |-> pl.m, dir |-> pl.dir, back |-> back, sp |-> sp, turn |-> turn, t |-> t, fd |-> fd, z |-> z])
  /\ st' = st
Next == \/ h = <<>> /\ First
        \/ Len(h) \in 1..(LEN - 1) /\ Run
        \/ Len(h) = LEN /\ PrintT("CASE " \o ToJson(h)) /\ h' = Append(h, [op |-> "end"]) /\ st' = st
Spec == Init /\ [][Next]_<<h, st>>
=============================================================================
