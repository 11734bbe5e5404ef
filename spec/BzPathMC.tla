------------------------------- MODULE BzPathMC -------------------------------
(* A walker that goes through the points with equal steps writes down the    *)
(* path.  EXTRA is the variant that stops once more at the end of a segment. *)
EXTENDS BzPath
CONSTANTS EXTRA
VARIABLES r, seg, j, out, inds
vars == <<r, seg, j, out, inds>>
Pts == { <<0, 0>>, <<60, 0>>, <<60, 60>>, <<-12, 30>> }
P(q) == [name |-> "", p |-> q]
Init ==
  /\ r \in { [lat |-> "square", symm |-> P(<<60, 0>>), pts |-> [i \in DOMAIN s |-> P(s[i])], ns |-> n] :
             s \in { q \in Pts \X Pts \X Pts : q[1] # q[2] /\ q[2] # q[3] } \union
                   { q \in Pts \X Pts : q[1] # q[2] },
             n \in { <<1>>, <<3>>, <<2, 3>>, <<4, 1>> } }
  /\ seg = 1 /\ j = 0 /\ out = <<>> /\ inds = <<0>>
Done == seg = Len(r.pts)
Step == /\ Valid(r) /\ ~Done /\ j < Steps(r)[seg] + EXTRA
        /\ LET a == At(r.lat, r.pts[seg])  b == At(r.lat, r.pts[seg + 1])  n == Steps(r)[seg]
           IN out' = Append(out, [d \in 1..2 |-> a[d] * n + (b[d] - a[d]) * j])
        /\ j' = j + 1 /\ UNCHANGED <<r, seg, inds>>
Corner == /\ Valid(r) /\ ~Done /\ j = Steps(r)[seg] + EXTRA
          /\ seg' = seg + 1 /\ j' = 0 /\ inds' = Append(inds, Len(out))
          /\ out' = IF seg + 1 = Len(r.pts) THEN
                      Append(out, [d \in 1..2 |-> At(r.lat, r.pts[seg + 1])[d] * Steps(r)[seg]]) ELSE out
          /\ UNCHANGED r
Next == Step \/ Corner
Spec == Init /\ [][Next]_vars
(* what the walker wrote is what the formulas say                            *)
Agree == Valid(r) => \A c \in DOMAIN out : c <= NPoints(r) /\ out[c] = KTimes(r, c - 1)
Ends == Valid(r) /\ Done =>
  /\ Len(out) = NPoints(r)
  /\ \A i \in DOMAIN r.pts : inds[i] = Index(r, i) /\
       LET n == Steps(r)[Seg(r, inds[i])] IN \A d \in 1..2 : out[inds[i] + 1][d] = n * At(r.lat, r.pts[i])[d]
=============================================================================
