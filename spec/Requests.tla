------------------------------- MODULE Requests ------------------------------
(* Which requests are legal, as documented, in which state of the object.    *)
(* An object is [kind, tr, eff, wells, ran]: ran is the accepted request     *)
(* whose results it holds (<<>> if none; two entries after a refused run).   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* ------------------------------ solvers ---------------------------------- *)
NewOk(r) ==
  /\ (r.kind # "pwe" => r.tr \in {"tbt", "abs"})
  /\ (r.kind = "ese" => r.z \in {"inside", "upper-layer"} /\ r.osc \in {"list", "array", "none"})
  /\ (r.kind = "pol" => r.wells \in {"one", "two"})
GmeRunOk(o, r) ==
  /\ r.gmc \in {"exact", "interp"}  /\ r.grad \in {"exact", "approx"}
  /\ r.solver \in {"eigh", "eigsh"} /\ r.eps \in {"average", "background", "custom"}
  /\ r.kz \in {"none", "both", "even", "odd"}
  /\ (r.eps = "custom" => o.eff)
  /\ (r.kz # "none" => r.ang = "right" /\ r.solver = "eigh" /\ r.kp = "axis")
  /\ ~(r.only /\ o.tr = "tbt")
  /\ r.ne \in 1..4 /\ r.inds # <<>> /\ ~r.extra /\ r.kp # "flat"
RunOk(o, r) ==
  CASE o.kind = "gme" -> GmeRunOk(o, r)
    [] o.kind = "pwe" -> r.pol \in {"te", "tm", "TE", "TM"} /\ ~r.extra /\ r.kp # "flat"
    [] o.kind = "ese" -> ~r.extra /\ r.kp # "flat"
    [] o.kind = "pol" -> ~r.extra /\ ~r.extraex /\ r.ne \in 1..4 /\ r.kp # "flat" /\ r.solver \in {"eigh", "eigsh"}
NKs == 2
Modes(o) == o.ran[1].ne
QueryOk(o, q) ==
  /\ o.ran # <<>>
  /\ q.k \in 0..(NKs - 1) /\ q.m < Modes(o) /\ q.m >= 0
  /\ (q.what \in {"xy", "xz", "yz"} /\ o.kind # "ese" => q.field \in {"h", "H", "d", "e", "E"} /\ q.comp \in {"x", "xyz", "zz", "yx"})
(* an object of this state can be asked at all                               *)
Askable(o) == Len(o.ran) < 2
Whats(kind) == CASE kind = "gme" -> {"xy", "xz", "yz", "rad", "radsp"} [] kind = "pwe" -> {"xy"} [] OTHER -> {"xy"}

(* ------------------------------ structures ------------------------------- *)
(* a structure is [lat, n, sh, qw]: numbers of shapes in layers and cladding *)
BuildOk(s, r) ==
  CASE r.what = "layer" -> r.type \in {"shapes", "default"}
    [] r.what = "shape" -> /\ r.shape \in {"one", "list"}
                           /\ IF r.clad = "no" THEN r.ix \in (-s.n)..(s.n - 1) ELSE r.clad \in {"0", "1", "l", "u"}
    [] r.what = "well" -> r.z \in {"inside", "bottom", "top"} /\ s.n > 0
    [] r.what = "eps" -> r.same
    [] r.what = "eff" -> r.set
    [] r.what = "lattice" -> r.form \in {"square", "hexagonal", "vectors"}
    [] r.what = "path" ->
         /\ Len(r.pts) >= 2 /\ (Len(r.ns) = 1 \/ Len(r.ns) = Len(r.pts) - 1)
         /\ \A i \in DOMAIN r.pts : CASE r.pts[i] = "G" -> TRUE [] r.pts[i] = "vector" -> TRUE
                                      [] r.pts[i] = "X" -> r.lat = "square" [] r.pts[i] = "K" -> r.lat = "hexagonal"
                                      [] r.pts[i] = "M" -> r.lat \in {"square", "hexagonal"} [] OTHER -> FALSE
    [] r.what = "poly" -> r.form \in {"anticlockwise"}
    [] r.what = "backend" -> r.name \in {"numpy", "autograd"}
    [] r.what = "print" -> r.name \in {"base", "rich"}
    [] r.what = "slab" -> r.pol \in {"te", "tm", "TE", "TM"}
    [] r.what = "bounds" -> r.form \in {"none", "pair", "list", "open"}
    [] OTHER -> FALSE
Built(s, r) ==
  IF ~BuildOk(s, r) THEN s
  ELSE CASE r.what = "layer" -> [s EXCEPT !.n = @ + 1, !.sh = Append(@, 0)]
         [] r.what = "shape" -> LET c == IF r.shape = "one" THEN 1 ELSE 2 IN
              IF r.clad # "no" THEN [s EXCEPT !.clad[IF r.clad \in {"0", "l"} THEN 1 ELSE 2] = @ + c]
              ELSE [s EXCEPT !.sh[IF r.ix >= 0 THEN r.ix + 1 ELSE s.n + r.ix + 1] = @ + c]
         [] r.what = "well" -> [s EXCEPT !.qw = @ + 1]
         [] r.what = "backend" -> [s EXCEPT !.bk = r.name]
         [] OTHER -> s
Empty == [n |-> 0, sh |-> <<>>, clad |-> <<0, 0>>, qw |-> 0, bk |-> "numpy"]
=============================================================================
