-------------------------------- MODULE PlotGen -------------------------------
(* A random structure and simulation on a list of wave vectors, then         *)
(* drawings of all kinds, in any order.                                      *)
EXTENDS RandStruct
CONSTANTS LEN
VARIABLES h
PLats == << <<60, 0, 0, 60>>, <<60, 0, 0, 80>>, <<60, 0, 30, 60>>, <<40, 20, -20, 40>>, <<60, 0, -20, 60>> >>
Sims == <<"gme", "gme", "gme", "pwe", "pwe", "ese", "pol", "phc", "phc", "phc">>
Steps == << <<3, 4, 5>>, <<4, 0, 4>>, <<0, 5, 5>>, <<-4, 3, 5>>, <<5, 0, 5>>, <<0, -3, 3>>, <<-2, 0, 2>>, <<0, 0, 0>> >>
AlongX == << <<4, 0, 4>>, <<3, 0, 3>>, <<5, 0, 5>>, <<1, 0, 1>>, <<-2, 0, 2>>, <<2, 0, 2>>, <<3, 0, 3>>, <<0, 0, 0>> >>
Centred(sh) == [sh EXCEPT !.k = "circle", !.x = 0, !.y = 0]
CentredL(l) == [l EXCEPT !.shapes = IF @ = <<>> THEN <<>> ELSE << Centred(@[1]) >>]
Init == h = <<>>
First ==
  \E li \in {Pick(1..5)} : \E kd \in {Sims[Pick(1..10)]} : \E n \in {Pick({1, 2, 2, 3})} :
  \E lay \in {<<RandLayer(1), RandLayer(2), RandLayer(3)>>} : \E cl \in {<<RandClad(1), RandClad(2)>>} :
  \E el \in {Pick(1..4)} : \E eu \in {Pick(1..4)} : \E w \in {Pick(1..100)} : \E sym \in {Pick({TRUE, FALSE})} :
  \E st \in {<<Pick(1..7), Pick(1..8), Pick(1..8)>>} : \E nk \in {Pick(1..4)} : \E k0 \in {<<Pick(-6..6), Pick(-6..6)>>} :
  \E ne \in {Pick(2..4)} : \E im \in {Pick({TRUE, TRUE, FALSE})} : \E kz \in {Pick({"none", "both", "both", "even", "odd"})} :
  \E qw \in {Pick(0..2)} : \E conv \in {<<Pick(1..4), Pick(1..3)>>} : \E tr \in {Pick({"abs", "tbt"})} :
  LET sy == kd = "gme" /\ sym
      S == IF sy THEN AlongX ELSE Steps
      lays == SubSeq(lay, 1, n)
  IN h' = << [op |-> "base", kind |-> kd, sym |-> sy, kz |-> IF sy THEN kz ELSE "none", im |-> im, ne |-> ne, w |-> w, tr |-> tr,
              nk |-> nk, k0 |-> IF sy THEN <<2, 0>> ELSE k0, steps |-> [i \in 1..(nk - 1) |-> S[st[i]]], nqw |-> qw, conv |-> conv,
              v |-> V0([lat |-> IF sy THEN PLats[1 + (li % 2)] ELSE PLats[li], el |-> el, eu |-> eu,
                        layers |-> IF sy THEN [i \in 1..n |-> CentredL(lays[i])] ELSE lays,
                        clad |-> IF sy \/ kd = "pol" THEN <<<<>>, <<>>>> ELSE cl, qws |-> <<>>], <<0, 0>>)] >>
OpsOf(kd) ==
  CASE kd = "gme" -> <<"bands", "bands", "bands", "field", "field", "field", "eps_ft", "recip", "structure">>
    [] kd = "pwe" -> <<"bands", "bands", "field", "field", "eps_ft", "recip">>
    [] kd = "pol" -> <<"pol_bands", "pol_bands", "pol_bands", "structure">>
    [] kd = "ese" -> <<"wavef", "wavef", "pot_ft", "recip">>
    [] OTHER -> <<"eps", "eps_xy", "eps_xz", "eps_yz", "shapes", "shapes", "structure", "structure">>
B == {TRUE, FALSE}
Act ==
  LET ops == OpsOf(h[1].kind) IN
  \E o \in {Pick(1..Len(ops))} : \E f \in {[i \in 1..8 |-> Pick(B)]} : \E fr \in {<<Pick(0..100), Pick(0..100), Pick(0..100)>>} :
  \E k \in {Pick(1..h[1].nk)} : \E m \in {Pick(1..h[1].ne)} : \E nx \in {Pick(4..9)} : \E ny \in {Pick(4..9)} : \E lay \in {Pick(0..4)} :
  \E comp \in {Pick({"x", "y", "z", "xy", "zx", "xyz"})} : \E fd \in {Pick({"H", "D", "E", "h", "e"})} :
  \E val \in {Pick({"re", "im", "abs"})} : \E pl \in {Pick({"x", "y", "z", "z"})} :
    h' = Append(h, [op |-> ops[o], q |-> f[1], cone |-> f[2], ev |-> f[3], units |-> f[4], symm |-> f[5], ax |-> f[6], cbar |-> f[7],
                    clad |-> f[8], per |-> f[1], outline |-> f[2], xz |-> f[3], yz |-> f[4], xy |-> f[5] \/ ~(f[3] \/ f[4]),
                    pad |-> f[8], frac |-> f[5], clim |-> f[2], plot |-> f[1] \/ f[2], spec |-> f[6] /\ f[7],
                    at |-> fr, k |-> k, m |-> m, nx |-> nx, ny |-> ny, lay |-> lay, comp |-> comp, fd |-> fd, val |-> val, pl |-> pl])
Next == \/ h = <<>> /\ First
        \/ Len(h) \in 1..(LEN - 1) /\ Act
        \/ Len(h) = LEN /\ PrintT("CASE " \o ToJson(h)) /\ h' = Append(h, [op |-> "end"])
Spec == Init /\ [][Next]_h
=============================================================================
