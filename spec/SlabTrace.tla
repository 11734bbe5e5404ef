------------------------------- MODULE SlabTrace -------------------------------
(* Judges searches for guided modes.  Per wave vector: om (frequencies *     *)
(* 10^7), lo, hi the light lines (10^7); sl, sh: signs of the wave of the    *)
(* stack at the ends of the range (of the stack, not of legume), sep: its    *)
(* modes are apart.  Per mode: below, above: signs of the wave of the stack  *)
(* a bit below and above the frequency; u: samples of the returned profile,  *)
(* per layer (10^4, equal steps), sg: their signs, k: 2 cos(kappa h) (10^4); dif: jumps of    *)
(* the value and weighted derivative at the interfaces relative to the       *)
(* largest (10^7), norm (10^7), im: largest component out of phase (10^7).   *)
EXTENDS SlabModes, Fix, Json, IOUtils
VARIABLES t, l, s, bad
Start(tr) == <<>>
After(st, e) == st
Recur(v, k) == \A i \in 2..(Len(v) - 1) : Close((v[i - 1] + v[i + 1]) * 1000, (v[i] * k) \div 10, 8000)
G(x) ==
  LET n == Len(x.om)  top == Changes(x.sh)  sure == Changes(x.sl) IN
  << <<"finite", FinV(x.om) /\ \A i \in DOMAIN x.m : Fin(x.m[i].norm) /\ FinV(x.m[i].dif) /\ FinM(x.m[i].u)>>,
     <<"ascending", \A i \in 1..(n - 1) : x.om[i] < x.om[i + 1]>>,
     <<"between-the-light-lines", \A i \in 1..n : x.om[i] >= x.lo - 1 /\ x.om[i] <= x.hi + 1>>,
     <<"a-profile-for-every-mode", Len(x.m) = n>>,
     <<"at-most-the-number-asked-for", n <= x.n>>,
     <<"every-mode-found", x.sep => n >= MinI(x.n, sure)>>,
     <<"nothing-but-modes", n <= top>>,
     <<"mode-i-has-i-nodes", x.sep => \A i \in DOMAIN x.m : Changes(x.m[i].below) = i - 1 /\ Changes(x.m[i].above) = i>>,
     <<"frequency-of-a-mode", \A i \in DOMAIN x.m : Changes(x.m[i].above) = Changes(x.m[i].below) + 1>>,
     <<"profile-has-the-nodes", x.sep => \A i \in DOMAIN x.m : x.m[i].thick \/ Changes(x.m[i].sg) = i - 1>>,
     <<"profile-solves-the-wave-equation", \A i \in DOMAIN x.m : \A j \in DOMAIN x.m[i].u : Recur(x.m[i].u[j], x.m[i].k[j])>>,
     <<"profile-is-continuous", \A i \in DOMAIN x.m : x.m[i].thick \/ \A j \in DOMAIN x.m[i].dif : AbsI(x.m[i].dif[j]) <= 200>>,
     <<"profile-has-one-phase", \A i \in DOMAIN x.m : x.m[i].thick \/ AbsI(x.m[i].im) <= 200>>,
     <<"profile-is-normalised", \A i \in DOMAIN x.m : x.m[i].thick \/ Close(x.m[i].norm, 10000000, 200)>> >>
RECURSIVE Cat(_, _)
Cat(f, n) == IF n = 0 THEN <<>> ELSE Cat(f, n - 1) \o G(f[n])
Clauses(st, e) ==
  IF e.op = "base" THEN <<>>
  ELSE IF ~e.ok THEN << <<"accepted", FALSE>> >>
  ELSE << <<"one-result-per-wave-vector", Len(e.at) = Len(e.gs)>> >> \o Cat(e.at, Len(e.at))
INSTANCE TraceLoop WITH S0 <- Start, Clauses <- Clauses, Step <- After
=============================================================================
