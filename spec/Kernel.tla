--------------------------------- MODULE Kernel ---------------------------------
(* What the numerical building blocks compute, and what their derivatives    *)
(* are: exact over the (Gaussian) integers.  A complex number is <<re, im>>. *)
(* The derivative of a block along d is written down for itself (D...), and  *)
(* a backward pass v of a signal g is right when Re(g . D(d)) = Re(v . d)    *)
(* for every direction d.                                                    *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE SumTo(_, _)
SumTo(F(_), n) == IF n = 0 THEN 0 ELSE F(n) + SumTo(F, n - 1)
(* ---------------------------------------------------- complex numbers      *)
Cadd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Cneg(a) == <<-a[1], -a[2]>>
Cmul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
Cconj(a) == <<a[1], -a[2]>>
Z == <<0, 0>>
RECURSIVE CSum(_, _)
CSum(F(_), n) == IF n = 0 THEN Z ELSE Cadd(F(n), CSum(F, n - 1))
CDot(u, v) == CSum(LAMBDA i : Cmul(u[i], v[i]), Len(u))
ReDot(u, v) == SumTo(LAMBDA i : u[i][1] * v[i][1] - u[i][2] * v[i][2], Len(u))
ReDotM(u, v) == SumTo(LAMBDA i : ReDot(u[i], v[i]), Len(u))
Tr(M) == [j \in 1..Len(M[1]) |-> [i \in 1..Len(M) |-> M[i][j]]]
CMat(A, B) == [i \in 1..Len(A) |-> [j \in 1..Len(B[1]) |-> CSum(LAMBDA m : Cmul(A[i][m], B[m][j]), Len(B))]]
CNegM(A) == [i \in 1..Len(A) |-> [j \in 1..Len(A[1]) |-> Cneg(A[i][j])]]
CId(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN <<1, 0>> ELSE Z]]
CTransConj(A) == [j \in 1..Len(A[1]) |-> [i \in 1..Len(A) |-> Cconj(A[i][j])]]
Idot(u, v) == SumTo(LAMBDA i : u[i] * v[i], Len(u))
IMat(A, B) == [i \in 1..Len(A) |-> [j \in 1..Len(B[1]) |-> SumTo(LAMBDA m : A[i][m] * B[m][j], Len(B))]]
(* ---------------------------------------------------- Toeplitz blocks      *)
(* n blocks of p; T1 the first row of every block of the first row of blocks *)
(* T2 the first columns; the lower triangle is the conjugate of the upper    *)
TBUp(n, p, T1, T2, i, j) ==
  LET I == (i - 1) \div p  J == (j - 1) \div p  a == (i - 1) % p  b == (j - 1) % p  o == (J - I) * p
  IN IF b >= a THEN (IF b = a THEN T2[o + 1] ELSE T1[o + (b - a) + 1]) ELSE T2[o + (a - b) + 1]
TB(n, p, T1, T2) == [i \in 1..(n * p) |-> [j \in 1..(n * p) |->
  IF j >= i THEN TBUp(n, p, T1, T2, i, j) ELSE Cconj(TBUp(n, p, T1, T2, j, i))]]
(* what a pair of first rows and columns has to fulfil                       *)
TBPair(n, p, T1, T2) ==
  /\ \A I \in 0..(n - 1) : T1[I * p + 1] = T2[I * p + 1]
  /\ \A a \in 1..p : T2[a] = Cconj(T1[a])
(* the backward pass of the first row and of the first column                *)
Block(p, x) == (x - 1) \div p
In(p, x) == (x - 1) % p
Pairs(n, p) == (1..(n * p)) \X (1..(n * p))
RECURSIVE CSumS(_, _)
CSumS(F(_), S) == IF S = {} THEN Z ELSE LET x == CHOOSE x \in S : TRUE IN Cadd(F(x), CSumS(F, S \ {x}))
TBBack1(n, p, g, conj) == [k \in 1..(n * p) |-> LET o == Block(p, k)  d == In(p, k) IN
  Cadd(CSumS(LAMBDA x : g[x[1]][x[2]], { x \in Pairs(n, p) : Block(p, x[2]) - Block(p, x[1]) = o /\ In(p, x[2]) - In(p, x[1]) = d }),
       IF o = 0 THEN Z ELSE
       CSumS(LAMBDA x : IF conj THEN Cconj(g[x[2]][x[1]]) ELSE g[x[2]][x[1]], { x \in Pairs(n, p) : Block(p, x[2]) - Block(p, x[1]) = o /\ In(p, x[2]) - In(p, x[1]) = d }))]
TBBack2(n, p, g, conj) == [k \in 1..(n * p) |-> LET o == Block(p, k)  d == In(p, k) IN
  IF d = 0 THEN Z ELSE
  Cadd(CSumS(LAMBDA x : g[x[1]][x[2]], { x \in Pairs(n, p) : Block(p, x[2]) - Block(p, x[1]) = o /\ In(p, x[1]) - In(p, x[2]) = d }),
       IF o = 0 THEN Z ELSE
       CSumS(LAMBDA x : IF conj THEN Cconj(g[x[2]][x[1]]) ELSE g[x[2]][x[1]], { x \in Pairs(n, p) : Block(p, x[2]) - Block(p, x[1]) = o /\ In(p, x[1]) - In(p, x[2]) = d }))]
(* ---------------------------------------------------- extend, interpolate  *)
Extend(vals, inds, N) == [k \in 1..N |-> IF \E m \in DOMAIN inds : inds[m] = k
                                         THEN vals[CHOOSE m \in DOMAIN inds : inds[m] = k] ELSE 0]
(* 16 times the interpolant through integer knots with steps 1, 2 or 4 at    *)
(* a quarter q: constant outside the knots                                   *)
Interp16(q, xp, yp) ==
  LET n == Len(xp) IN
  IF q <= 4 * xp[1] THEN 16 * yp[1]
  ELSE IF q >= 4 * xp[n] THEN 16 * yp[n]
  ELSE LET i == CHOOSE i \in 1..(n - 1) : 4 * xp[i] <= q /\ q < 4 * xp[i + 1]
       IN 16 * yp[i] + (((yp[i + 1] - yp[i]) * (q - 4 * xp[i])) * 4) \div (xp[i + 1] - xp[i])
(* ---------------------------------------------------- scattering matrices  *)
(* the star product closes the loop between the two: with den = 1 - B11 A22  *)
StarDen(A, B) == 1 - B[1][1] * A[2][2]
StarTimesDen(A, B) == LET d == StarDen(A, B) IN
  << <<A[1][1] * d + A[1][2] * B[1][1] * A[2][1], A[1][2] * B[1][2]>>,
     <<B[2][1] * A[2][1], B[2][2] * d + B[2][1] * A[2][2] * B[1][2]>> >>
(* the waves themselves: amplitudes a1, a2 enter from the two ends, x and y  *)
(* run between; every solution of the two parts solves the star              *)
Solves(S, in1, in2, out1, out2) == /\ out1 = S[1][1] * in1 + S[1][2] * in2
                                   /\ out2 = S[2][1] * in1 + S[2][2] * in2
(* ---------------------------------------------------- Fourier series       *)
(* components c at integer vectors g, at a point of quarters q: i^(g . q);   *)
(* a vector that is there more than once counts once, with its first value   *)
IPow(k) == LET m == k % 4 IN IF m = 0 THEN <<1, 0>> ELSE IF m = 1 THEN <<0, 1>> ELSE IF m = 2 THEN <<-1, 0>> ELSE <<0, -1>>
Ftinv(c, g, qx, qy) ==
  CSum(LAMBDA i : IF \E j \in 1..(i - 1) : g[j] = g[i] THEN Z ELSE Cmul(c[i], IPow(g[i][1] * qx + g[i][2] * qy)), Len(g))
(* ---------------------------------------------------- numerical gradients  *)
(* four times the forward difference of sum c x^2 with a step of h quarters  *)
Forward4(c, x, h) == [j \in DOMAIN x |-> c[j] * (8 * x[j] + h[j])]
(* ---------------------------------------------------- nearest elements     *)
Dist(a, v) == IF a > v THEN a - v ELSE v - a
Nearest(arr, v, N, out) ==
  /\ Len(out) = (IF N < Len(arr) THEN N ELSE Len(arr))
  /\ \A i, j \in DOMAIN out : i # j => out[i] # out[j]
  /\ \A i \in DOMAIN out : out[i] \in DOMAIN arr
  /\ \A i \in 1..(Len(out) - 1) : Dist(arr[out[i]], v) <= Dist(arr[out[i + 1]], v)
  /\ \A i \in DOMAIN arr : (\A m \in DOMAIN out : out[m] # i) =>
       \A m \in DOMAIN out : Dist(arr[out[m]], v) <= Dist(arr[i], v)
=============================================================================
