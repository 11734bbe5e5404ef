--------------------------------- MODULE Fix ---------------------------------
(* Fixed-point observations.  A recorded real number is an integer (value *  *)
(* scale, rounded); BIG marks NaN, infinity or a value that does not fit.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

BIG == 2147483647
AbsI(x) == IF x < 0 THEN -x ELSE x
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b
Fin(x) == AbsI(x) < BIG

(* |a - b| <= tol without leaving 32 bits *)
Close(a, b, tol) ==
  /\ Fin(a) /\ Fin(b)
  /\ IF (a >= 0) = (b >= 0)
     THEN AbsI(a - b) <= tol
     ELSE AbsI(a) <= tol /\ AbsI(b) <= tol - AbsI(a)

FinV(v) == \A i \in DOMAIN v : Fin(v[i])
CloseV(v, w, tol) ==
  /\ Len(v) = Len(w)
  /\ \A i \in DOMAIN v : Close(v[i], w[i], tol)
FinM(m) == \A i \in DOMAIN m : FinV(m[i])
CloseM(m, n, tol) ==
  /\ Len(m) = Len(n)
  /\ \A i \in DOMAIN m : CloseV(m[i], n[i], tol)

SortedV(v, tol) == \A i \in 1..(Len(v) - 1) : v[i] <= v[i+1] + tol

RECURSIVE SumF(_, _)
SumF(f, S) == IF S = {} THEN 0
              ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumF(f, S \ {x})
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

(* The clauses an observation violates: a sequence of <<name, holds>> pairs  *)
Broken(cs) == { cs[i][1] : i \in { j \in DOMAIN cs : ~cs[j][2] } }

Has(r, f) == f \in DOMAIN r
Get(r, f, d) == IF f \in DOMAIN r THEN r[f] ELSE d
=============================================================================
