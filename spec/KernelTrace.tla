------------------------------- MODULE KernelTrace -------------------------------
(* Judges recorded calls.  State: the backend that is set.                   *)
EXTENDS Kernel, Fix, Json, IOUtils
VARIABLES t, l, s, bad
Start(tr) == "NumpyBackend"
Class(n) == IF n = "numpy" THEN "NumpyBackend" ELSE "AutogradBackend"
After(st, e) == IF e.op = "switch" THEN Class(e.to) ELSE st
Ch(x, F(_)) == [i \in DOMAIN x |-> F(x[i])]
Flat(A) == [k \in 1..(Len(A) * Len(A[1])) |-> A[((k - 1) \div Len(A[1])) + 1][((k - 1) % Len(A[1])) + 1]]
SortedI(v) == \A i \in 1..(Len(v) - 1) : v[i] <= v[i + 1]
Count(v, x) == Cardinality({ i \in DOMAIN v : v[i] = x })
SameBag(v, w) == Len(v) = Len(w) /\ \A i \in DOMAIN v : Count(v, v[i]) = Count(w, v[i])
RECURSIVE IPower(_, _)
IPower(b, n) == IF n = 0 THEN 1 ELSE b * IPower(b, n - 1)

Toep(e) ==
  << <<"toeplitz", e.out = TB(e.n, e.p, e.T1, e.T2)>> >> \o
  (IF e.ag THEN << <<"toeplitz-backward", ReDotM(e.g, TB(e.n, e.p, e.d1, e.d2)) = ReDot(e.v1, e.d1) + ReDot(e.v2, e.d2)>> >> ELSE <<>>)
Ext(e) ==
  << <<"extend", e.out = Extend(e.vals, e.inds, e.N) /\ e.shape = (IF e.op = "extend" THEN <<6>> ELSE <<2, 3>>)>> >> \o
  (IF e.ag THEN << <<"extend-backward", e.v = [m \in DOMAIN e.inds |-> e.g[e.inds[m]]]>> >> ELSE <<>>)
Interp(e) ==
  << <<"interp", e.out = [i \in DOMAIN e.q |-> Interp16(e.q[i], e.xp, e.yp)]>> >> \o
  (IF e.ag THEN << <<"interp-backward", Idot(e.g, [i \in DOMAIN e.q |-> Interp16(e.q[i], e.xp, e.d)]) = Idot(e.v, e.d)>> >> ELSE <<>>)
Fm(e) ==
  << <<"fmap", e.out = [i \in DOMAIN e.A |-> SumTo(LAMBDA j : e.A[i][j] * e.x[j] * e.x[j], Len(e.x))]>> >> \o
  (IF e.ag THEN << <<"fmap-backward", e.v = [j \in DOMAIN e.x |-> SumTo(LAMBDA i : 2 * e.g[i] * e.A[i][j] * e.x[j], Len(e.A))]>> >> ELSE <<>>)
Sd(e) ==
  << <<"spdot", e.out = IMat(e.S, e.D)>> >> \o
  (IF e.ag THEN << <<"spdot-backward", e.v = IMat(Tr(e.S), e.g)>> >> ELSE <<>>)
Inv(e) ==
  LET ok == \A i \in DOMAIN e.out : \A j \in DOMAIN e.out[i] : Fin(e.out[i][j][1]) /\ Fin(e.out[i][j][2]) IN
  << <<"inverse", ok /\ CMat(e.M, e.out) = CId(Len(e.M))>> >> \o
  (IF e.ag THEN LET okv == \A i \in DOMAIN e.v : \A j \in DOMAIN e.v[i] : Fin(e.v[i][j][1]) /\ Fin(e.v[i][j][2]) IN
     << <<"inverse-backward", okv /\ CMat(CMat(Tr(e.M), e.v), Tr(e.M)) = CNegM(e.g)>> >> ELSE <<>>)
CCl(a, b, tol) == Close(a[1], b[1], tol) /\ Close(a[2], b[2], tol)
Sqrt(e) ==
  << <<"sqrt", Len(e.out) = Len(e.s) /\ \A i \in DOMAIN e.s : CCl(e.out[i], <<e.s[i][1] * 1000000, e.s[i][2] * 1000000>>, 2)>> >> \o
  (IF e.ag THEN << <<"sqrt-backward", \A i \in DOMAIN e.s :
     IF e.s[i] = Z THEN e.finite
     ELSE Fin(e.v[i][1]) /\ Fin(e.v[i][2]) /\ CCl(Cmul(<<2 * e.s[i][1], 2 * e.s[i][2]>>, e.v[i]), <<e.g[i] * 1000000, 0>>, 40)>> >> ELSE <<>>)
(* eigenvalues w, vectors V (columns), scale S0                              *)
Sc == 3000
FinC(M) == \A i \in DOMAIN M : \A j \in DOMAIN M[i] : Fin(M[i][j][1]) /\ Fin(M[i][j][2])
Residual(e) == \A k \in DOMAIN e.w : \A i \in DOMAIN e.H :
  LET hv == CSum(LAMBDA j : Cmul(e.H[i][j], e.V[j][k]), Len(e.H)) IN
  CCl(<<hv[1] * Sc, hv[2] * Sc>>, <<e.w[k] * e.V[i][k][1], e.w[k] * e.V[i][k][2]>>, 45 * Sc)
Orthonormal(e) == \A k, m \in DOMAIN e.w :
  LET d == CSum(LAMBDA j : Cmul(Cconj(e.V[j][k]), e.V[j][m]), Len(e.H)) IN
  CCl(d, IF k = m THEN <<Sc * Sc, 0>> ELSE Z, 6 * Sc)
Grads(e) ==
  IF ~Has(e, "dw") THEN <<>>
  ELSE << <<e.op \o "-backward", Close(e.dw, e.dwV, 4)>> >> \o
       (IF Has(e, "fd") THEN << <<e.op \o "-vectors-backward", Close(e.dv, e.fd, 400 + AbsI(e.fd) \div 200)>> >> ELSE <<>>)
Eigh(e) ==
  << <<"eigenvalues", FinV(e.w) /\ SortedI(e.w) /\ CloseV(e.w, e.full, 1)>>,
     <<"eigenvectors", FinC(e.V) /\ FinV(e.w) /\ Residual(e) /\ Orthonormal(e)>> >> \o Grads(e)
(* the k nearest ones to s                                                   *)
Eigsh(e) ==
  << <<"nearest-eigenvalues",
        /\ FinV(e.w) /\ Len(e.w) = e.k
        /\ \A i \in DOMAIN e.w : \E j \in DOMAIN e.full : Close(e.w[i], e.full[j], 2)
        /\ \A i \in DOMAIN e.w : Cardinality({ j \in DOMAIN e.full : Dist(e.full[j], e.s) < Dist(e.w[i], e.s) - 4 }) < e.k>>,
     <<"nearest-eigenvectors", FinC(e.V) /\ FinV(e.w) /\ Residual(e)>> >> \o Grads(e)
(* a matrix of no symmetry: eigenvectors of unit length, and as many values  *)
(* as rows, which add up to the trace                                        *)
Eig(e) ==
  LET n == Len(e.M) IN
  << <<"general-eigenvalues", FinC(<<e.w>>) /\ Len(e.w) = n /\
        LET tr == CSum(LAMBDA i : e.M[i][i], n) IN CCl(CSum(LAMBDA i : e.w[i], n), <<tr[1] * Sc, tr[2] * Sc>>, 10)>>,
     <<"general-eigenvectors", FinC(e.V) /\ FinC(<<e.w>>) /\ \A k \in 1..n :
        /\ \A i \in 1..n :
             LET hv == CSum(LAMBDA j : Cmul(e.M[i][j], e.V[j][k]), n)  wv == Cmul(e.w[k], e.V[i][k]) IN
             CCl(<<hv[1] * Sc, hv[2] * Sc>>, wv, 60 * Sc)
        /\ Close(SumTo(LAMBDA i : e.V[i][k][1] * e.V[i][k][1] + e.V[i][k][2] * e.V[i][k][2], n), Sc * Sc, 6 * Sc)>> >> \o
  (IF Has(e, "fdw") THEN << <<"general-eigenvalues-backward", Close(e.dw, e.fdw, 400 + AbsI(e.fdw) \div 200)>>,
                            <<"general-eigenvectors-backward", Close(e.dv, e.fdv, 400 + AbsI(e.fdv) \div 200)>> >> ELSE <<>>)
Fsolve(e) ==
  << <<"root", e.out = e.root>> >> \o
  (IF e.ag THEN << <<"root-backward", /\ e.va = [i \in DOMAIN e.a |-> e.g]
                                      /\ e.vb = [i \in DOMAIN e.b |-> -e.g * e.c * IPower(e.root, e.pow)]>> >> ELSE <<>>)
GradNum(e) == << <<"grad-num", e.shape /\ e.out = Forward4(e.c, e.x, e.q)>>, <<"grad-num-argument-kept", e.kept>> >>
VjpNum(e) ==
  << <<"vjp-num", e.out = [j \in DOMAIN e.x |-> SumTo(LAMBDA i : e.g[i] * e.A[i][j] * (8 * e.x[j] + e.h), Len(e.A))]>>,
     <<"vjp-num-shape", e.shape>> >>
Energy(e) ==
  IF e.nm <= 0 THEN << <<"length-positive", e.res = "exc">> >>
  ELSE << <<"photon-energy", e.res = "ok" /\ Close(e.out, 123984198, 3)>>,
          <<"photon-energy-warning", (e.nm < 50 \/ e.nm > 5000) => e.warned>>,
          <<"photon-energy-no-warning", (e.nm > 50 /\ e.nm < 5000) => ~e.warned>> >>
Arrays(e) ==
  LET A == e.A  B == e.B  D == e.C  v == e.v  w == e.w  u == Flat(e.A)  o == e.o  n == Len(A)  m == Len(A[1])
      N == Len(u)
      wr(f) == [i \in 1..n |-> [j \in 1..m |-> f[i][j]]]
      pos == SelectSeq([i \in 1..N |-> i], LAMBDA i : u[i] > e.lo)
      c(nm, holds) == <<"array:" \o nm, holds>>
  IN << c("sum", o.sum = SumSeq(u) /\ o.sum0 = [j \in 1..m |-> SumTo(LAMBDA i : A[i][j], n)]),
        c("dot", o.dot = IMat(A, D) /\ o.matmul = o.dot),
        c("outer", o.outer = [i \in 1..N |-> [j \in 1..3 |-> u[i] * v[j]]]),
        c("transpose", o.transpose = Tr(A)), c("reshape", o.reshape = u),
        c("roll", o.roll = [i \in 1..N |-> u[((i - 1 - e.r) % N) + 1]]),
        c("where", o.where = [i \in 1..n |-> [j \in 1..m |-> IF A[i][j] > e.lo THEN A[i][j] ELSE B[i][j]]]),
        c("argwhere", o.argwhere = [i \in DOMAIN pos |-> pos[i] - 1]),
        c("triu", o.triu = [i \in 1..n |-> [j \in 1..m |-> IF j >= i THEN A[i][j] ELSE 0]] /\ o.triu1 = [i \in 1..n |-> [j \in 1..m |-> IF j > i THEN A[i][j] ELSE 0]]),
        c("extremes", (\A i \in 1..N : u[i] <= o.amax /\ u[i] >= o.min) /\ o.max = o.amax /\ Count(u, o.amax) > 0 /\ Count(u, o.min) > 0),
        c("sort", SortedI(o.sort) /\ SameBag(o.sort, u) /\ o.argsort = o.sort),
        c("shape", o.shape = <<n, m>> /\ o.size = N),
        c("cross", o.cross = <<v[2] * w[3] - v[3] * w[2], v[3] * w[1] - v[1] * w[3], v[1] * w[2] - v[2] * w[1]>>),
        c("square", o.square = [i \in 1..n |-> [j \in 1..m |-> A[i][j] * A[i][j]]] /\ o.power = [i \in 1..3 |-> v[i] * v[i]]),
        c("abs", o.abs = [i \in 1..n |-> [j \in 1..m |-> AbsI(A[i][j])]]),
        c("diag", o.diag = [i \in 1..3 |-> [j \in 1..3 |-> IF i = j THEN v[i] ELSE 0]] /\ o.diagonal = v),
        c("stack", o.hstack = [i \in 1..n |-> A[i] \o B[i]] /\ o.vstack = A \o B /\ o.concatenate = A \o B /\ o.stack = <<u, u>>),
        c("unique", (\A i \in 1..(Len(o.unique) - 1) : o.unique[i] < o.unique[i + 1]) /\ { o.unique[i] : i \in DOMAIN o.unique } = { u[i] : i \in 1..N }),
        c("constructors", /\ o.full = <<<<e.lo, e.lo>>, <<e.lo, e.lo>>>>
                          /\ o.ones = [i \in 1..2 |-> [j \in 1..e.n |-> 1]] /\ o.zeros = [j \in 1..e.n |-> 0]
                          /\ o.eye = [i \in 1..e.n |-> [j \in 1..e.n |-> IF i = j THEN 1 ELSE 0]]
                          /\ o.arange = [i \in 1..e.n |-> e.lo + i - 1]
                          /\ o.linspace = [i \in 1..(e.n + 1) |-> e.lo + 2 * (i - 1)]
                          /\ o.array = v /\ o.newaxis = [i \in 1..3 |-> <<v[i]>>]),
        c("round", o.round = u),
        c("variance", o.var = N * SumTo(LAMBDA i : u[i] * u[i], N) - SumSeq(u) * SumSeq(u)) >>
Complexes(e) ==
  LET u == e.u  w == e.w  n == Len(u)  o == e.o
      n2 == SumTo(LAMBDA i : u[i][1] * u[i][1] + u[i][2] * u[i][2], n)
      c(nm, holds) == <<"complex:" \o nm, holds>>
  IN << c("conj", o.conj = [i \in 1..n |-> Cconj(u[i])]),
        c("outer", o.outer = [i \in 1..n |-> [j \in 1..n |-> Cmul(u[i], w[j])]]),
        c("dot", o.dot = CDot(u, w) /\ o.mdot = [i \in 1..n |-> CDot(e.M[i], u)]),
        c("sum", o.sum = CSum(LAMBDA i : u[i], n)),
        c("square", o.square = [i \in 1..n |-> Cmul(u[i], u[i])]),
        c("norm", o.norm2 = n2 /\ SumSeq(o.abs2) = n2),
        c("parts", o.real = [i \in 1..n |-> u[i][1]] /\ o.imag = [i \in 1..n |-> u[i][2]]),
        c("typed", o.typed = [i \in 1..n |-> <<u[i][1], 0>>]) >>
Functions(e) ==
  LET o == e.o IN
  << <<"function:sin-cos-tan", Close(o.one, 10000, 1) /\ Close(o.tan, 0, 1) /\ Close(o.small, 10000, 1)>>,
     <<"function:exp", Close(o.exp, 10000, 1) /\ o.up /\ Close(o.exp1, 10000, 1) /\ Close(o.euler[1], 0, 1) /\ Close(o.euler[2], 0, 1)>>,
     <<"function:tanh", Close(o.tanh, 0, 1)>>, <<"function:bessel", Close(o.bessel0, 10000, 1) /\ Close(o.bessel, 0, 1)>>,
     <<"function:divide", Close(o.divide, 10000 * e.a, 1)>>,
     <<"function:types", o.int /\ o.float>>, <<"function:is-array", o.isarr>> >>
Clauses(st, e) ==
  << <<"backend-is-the-one-set", e.be = After(st, e)>> >> \o
  (IF ~e.ok THEN << <<"accepted:" \o e.op, FALSE>> >>
   ELSE CASE e.op = "switch" -> <<>>
          [] e.op = "toep" -> Toep(e)
          [] e.op \in {"extend", "extend2"} -> Ext(e)
          [] e.op = "interp" -> Interp(e)
          [] e.op = "fmap" -> Fm(e)
          [] e.op = "spdot" -> Sd(e)
          [] e.op = "inv" -> Inv(e)
          [] e.op = "sqrt" -> Sqrt(e)
          [] e.op = "eigh" -> Eigh(e)
          [] e.op = "eigsh" -> Eigsh(e)
          [] e.op = "eig" -> Eig(e)
          [] e.op = "fsolve" -> Fsolve(e)
          [] e.op = "gradnum" -> GradNum(e)
          [] e.op = "vjpnum" -> VjpNum(e)
          [] e.op = "nearest" -> << <<"nearest", Nearest(e.arr, e.v, e.N, e.out)>> >>
          [] e.op = "star" -> << <<"star-product", e.out = StarTimesDen(e.A, e.B)>> >>
          [] e.op = "detach" -> << <<"value", e.out = e.x /\ (e.ag => e.v = e.x)>> >>
          [] e.op = "energy" -> Energy(e)
          [] e.op = "ftinv" -> << <<"fourier-series", e.out = [i \in DOMAIN e.qy |-> [j \in DOMAIN e.qx |-> Ftinv(e.c, e.gs, e.qx[j], e.qy[i])]]>> >>
          [] e.op = "arrays" -> Arrays(e)
          [] e.op = "complexes" -> Complexes(e)
          [] e.op = "functions" -> Functions(e)
          [] e.op = "bad" -> << <<"unknown-backend-refused", e.res = "exc">> >>)
INSTANCE TraceLoop WITH S0 <- Start, Clauses <- Clauses, Step <- After
=============================================================================
