-------------------------------- MODULE KernelMC --------------------------------
(* The definitions hang together: the matrix is Hermitian and Toeplitz, its  *)
(* backward pass is the adjoint of the map (CONJ = FALSE: the broken variant *)
(* that forgets to conjugate the mirrored half), the star product is the     *)
(* elimination of the waves in between, nearest elements exist.              *)
EXTENDS Kernel
CONSTANTS CONJ, BIGS
VARIABLES kind, x
U == {<<0, 0>>, <<1, 0>>, <<0, 1>>}
One == {0, 1}
Init == /\ kind = "none" /\ x = 0
Sig(n, p, pos, val) == [i \in 1..(n * p) |-> [j \in 1..(n * p) |-> IF <<i, j>> = pos THEN val ELSE Z]]
Next == /\ kind = "none"
        /\ \/ /\ kind' = "tb"
              /\ \E np \in {<<1, 2>>, <<2, 1>>, <<2, 2>>} \cup (IF BIGS THEN {<<2, 3>>, <<3, 2>>} ELSE {}) :
                 \E k \in 1..(np[1] * np[2]) : \E u \in {<<1, 0>>, <<0, 1>>} : \E w \in 1..2 :
                 \E pos \in Pairs(np[1], np[2]) : \E val \in {<<1, 0>>, <<0, 1>>} :
                   x' = [n |-> np[1], p |-> np[2], k |-> k, u |-> u, w |-> w, g |-> Sig(np[1], np[2], pos, val)]
           \/ /\ kind' = "star"
              /\ \E A, B \in [1..2 -> [1..2 -> {-1, 0, 2}]] : x' = [A |-> A, B |-> B]
           \/ /\ kind' = "interp"
              /\ \E y \in [1..3 -> {-1, 0, 2}] : \E s \in {1, 2, 4} : x' = [y |-> y, xp |-> <<0, s, s + 2>>]
(* the pairs of rows and columns are spanned by single entries               *)
Dir == LET n == x.n  p == x.p  o == Block(p, x.k)  d == In(p, x.k)
           e(m) == [i \in 1..(n * p) |-> IF i = m THEN x.u ELSE Z]
           ec(m) == [i \in 1..(n * p) |-> IF i = m THEN Cconj(x.u) ELSE Z]
           zero == [i \in 1..(n * p) |-> Z]
       IN IF o = 0 THEN <<e(x.k), ec(x.k)>>
          ELSE IF d = 0 THEN <<e(x.k), e(x.k)>>
          ELSE IF x.w = 1 THEN <<e(x.k), zero>> ELSE <<zero, e(x.k)>>
RealDiag == Block(x.p, x.k) = 0 /\ In(x.p, x.k) = 0 => x.u[2] = 0
Hermitian == kind = "tb" /\ RealDiag =>
  LET M == TB(x.n, x.p, Dir[1], Dir[2]) IN
  /\ TBPair(x.n, x.p, Dir[1], Dir[2])
  /\ M = CTransConj(M)
  /\ \A i, j \in 1..(x.n * x.p) : (In(x.p, i) + 1 < x.p /\ In(x.p, j) + 1 < x.p) => M[i][j] = M[i + 1][j + 1]
  /\ \A i, j \in 1..(x.n * x.p - x.p) : M[i][j] = M[i + x.p][j + x.p]
Adjoint == kind = "tb" /\ RealDiag =>
  ReDotM(x.g, TB(x.n, x.p, Dir[1], Dir[2])) =
    ReDot(TBBack1(x.n, x.p, x.g, CONJ), Dir[1]) + ReDot(TBBack2(x.n, x.p, x.g, CONJ), Dir[2])
(* wave amplitudes times den, for unit amplitudes from either end            *)
Star == kind = "star" /\ StarDen(x.A, x.B) # 0 =>
  \A in1, in2 \in One :
    LET A == x.A  B == x.B  d == StarDen(A, B)  S == StarTimesDen(A, B)
        fwd == A[2][1] * in1 + A[2][2] * B[1][2] * in2
        bwd == B[1][1] * A[2][1] * in1 + B[1][2] * in2 IN
    \* den times: the wave that goes forward in the middle, and the one back
    /\ d * (A[1][1] * in1) + A[1][2] * bwd = S[1][1] * in1 + S[1][2] * in2
    /\ d * (B[2][2] * in2) + B[2][1] * fwd = S[2][1] * in1 + S[2][2] * in2
    /\ fwd = A[2][1] * in1 * d + A[2][2] * bwd
    /\ bwd = B[1][1] * fwd + B[1][2] * in2 * d
InterpLaws == kind = "interp" =>
  /\ \A i \in 1..3 : Interp16(4 * x.xp[i], x.xp, x.y) = 16 * x.y[i]
  /\ \A q \in -4..(4 * x.xp[3] + 4) :
       LET lo == CHOOSE m \in {x.y[i] : i \in 1..3} : \A j \in 1..3 : m <= x.y[j]
           hi == CHOOSE m \in {x.y[i] : i \in 1..3} : \A j \in 1..3 : m >= x.y[j]
       IN Interp16(q, x.xp, x.y) \in (16 * lo)..(16 * hi)
Spec == Init /\ [][Next]_<<kind, x>>
=============================================================================
