-------------------------------- MODULE KList --------------------------------
(* A run over a list of k-points leaves, at every position, what the k-point *)
(* at this position gives when it is run alone.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
(* mem[id]: the result of k-point id alone, <<>> while not known             *)
Learn(mem, id, res) == [mem EXCEPT ![id] = res]
Positions(ks) == DOMAIN ks
(* for Same(a, b) a comparison of results                                    *)
Independent(mem, ks, res, Same(_, _)) ==
  /\ DOMAIN res = Positions(ks)
  /\ \A i \in Positions(ks) : Same(res[i], mem[ks[i]])
=============================================================================
