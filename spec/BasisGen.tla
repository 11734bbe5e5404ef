------------------------------- MODULE BasisGen -------------------------------
(* A lattice, then simulations of several kinds with several cutoffs, also   *)
(* on the same lattice with other vectors.                                   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS LEN
VARIABLES h
Pick(S) == RandomElement(S)
Vec(k) == <<Pick(-9..9), Pick(-9..9)>>
Named == {"square", "hexagonal"}
Us == << <<1, 0, 0, 1>>, <<1, 0, 0, 1>>, <<1, 0, 1, 1>>, <<1, 1, 0, 1>>, <<0, 1, 1, 0>>, <<-1, 0, 0, 1>>,
         <<2, 1, 1, 1>>, <<0, -1, 1, 0>>, <<1, -2, 0, 1>>, <<1, 0, 2, 1>>, <<1, 0, 2, 1>>, <<-2, 1, 1, -1>> >>
(* lattices with many vectors whose length is a multiple of a tenth          *)
Round == << << <<4, 0>>, <<0, 4>> >>, << <<3, 4>>, <<-4, 3>> >>, << <<5, 0>>, <<0, 4>> >>, << <<4, 3>>, <<3, -4>> >>,
            << <<0, 8>>, <<5, 0>> >>, << <<8, 0>>, <<0, 5>> >>, << <<3, 4>>, <<-8, 6>> >>, << <<2, 0>>, <<0, 5>> >> >>
Kinds == <<"gme-abs", "gme-abs", "gme-tbt", "pwe", "exc-abs", "exc-tbt">>
Init == h = <<>>
First == \E w \in {Pick(1..10)} : \E r \in {Pick(1..8)} : \E v \in {<<Vec(1), Vec(2)>>} :
 \E a \in {IF w > 6 THEN Round[r][1] ELSE v[1]} : \E b \in {IF w > 6 THEN Round[r][2] ELSE v[2]} :
  LET det == a[1] * b[2] - a[2] * b[1]
      ok == det # 0 /\ a[1] * a[1] + a[2] * a[2] <= 100 /\ b[1] * b[1] + b[2] * b[2] <= 100
            /\ det * det >= 16
      name == IF w = 1 THEN "square" ELSE IF w = 2 THEN "hexagonal" ELSE IF ok THEN "" ELSE "square"
  IN h' = << [op |-> "lat", name |-> name, a1 |-> a, a2 |-> b] >>
Act == \E k \in {Pick(1..6)} : \E u \in {IF h[1].name = "" THEN Us[Pick(1..12)] ELSE Us[1]} :
       \E gn \in {Pick(1..26)} : \E five \in {Pick(1..6)} :
         h' = Append(h, [op |-> "sim", kind |-> Kinds[k], u |-> u,
                         gn |-> IF five = 1 THEN 10 * (1 + (gn % 3)) ELSE gn])
Next == \/ h = <<>> /\ First
        \/ Len(h) \in 1..(LEN - 1) /\ Act
        \/ Len(h) = LEN /\ PrintT("CASE " \o ToJson(h)) /\ h' = Append(h, [op |-> "end"])
Spec == Init /\ [][Next]_h
=============================================================================
