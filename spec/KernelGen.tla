-------------------------------- MODULE KernelGen --------------------------------
(* Calls of the building blocks with integer data, under both backends.      *)
EXTENDS Kernel, TLC, Json
CONSTANTS LEN
VARIABLES h
Pick(S) == RandomElement(S)
R(a, b) == Pick(a..b)
Cv(n, m) == [i \in 1..n |-> <<R(-m, m), R(-m, m)>>]
Iv(n, m) == [i \in 1..n |-> R(-m, m)]
Im(a, b, m) == [i \in 1..a |-> Iv(b, m)]
Cm(a, b, m) == [i \in 1..a |-> Cv(b, m)]
(* a pair of first rows and columns from free entries u, w                   *)
Row(n, p, u) == [k \in 1..(n * p) |-> IF k = 1 THEN <<u[1][1], 0>> ELSE u[k]]
Col(n, p, u, w) == [k \in 1..(n * p) |-> IF k <= p THEN (IF k = 1 THEN <<u[1][1], 0>> ELSE Cconj(u[k]))
                                         ELSE IF In(p, k) = 0 THEN u[k] ELSE w[k]]
Herm(n, u) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN <<u[i][i][1], 0>> ELSE IF i < j THEN u[i][j] ELSE Cconj(u[j][i])]]
(* lower times upper unit triangular: the inverse is integer                 *)
Unimod(n, u) ==
  LET L == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN <<1, 0>> ELSE IF i > j THEN u[i][j] ELSE Z]]
      W == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN <<1, 0>> ELSE IF i < j THEN u[i][j] ELSE Z]]
  IN CMat(L, W)
RECURSIVE Up(_, _)
Up(s, k) == IF k = 0 THEN <<s>> ELSE LET r == Up(s, k - 1) IN Append(r, r[Len(r)] + Pick({1, 2, 4}))
Distinct(n, N) == LET f == Pick({ g \in [1..n -> 1..N] : \A i, j \in 1..n : i # j => g[i] # g[j] }) IN f
Kinds == <<"toep", "toep", "toep", "toep", "extend", "extend2", "interp", "interp", "fmap", "spdot", "inv", "inv", "sqrt", "sqrt",
           "eigh", "eigh", "eigh", "eigh", "eigsh", "eigsh", "eigsh", "eig", "eig", "eig", "fsolve", "fsolve", "gradnum", "vjpnum", "vjpnum", "nearest", "star",
           "detach", "energy", "ftinv", "ftinv", "arrays", "arrays", "arrays", "complexes", "functions", "bad">>
Call(kd) ==
  CASE kd = "toep" -> \E n \in {R(1, 4)} : \E p \in {R(1, 4)} : \E u \in {Cv(16, 5)} : \E w \in {Cv(16, 5)} : \E du \in {Cv(16, 3)} : \E dw \in {Cv(16, 3)} : \E re \in {R(1, 3)} :
         LET f(s) == IF re = 1 THEN [i \in DOMAIN s |-> <<s[i][1], 0>>] ELSE s IN
         h' = Append(h, [op |-> kd, n |-> n, p |-> p, re |-> re = 1, T1 |-> Row(n, p, f(u)), T2 |-> Col(n, p, f(u), f(w)), d1 |-> Row(n, p, f(du)), d2 |-> Col(n, p, f(du), f(dw)), g |-> Cm(n * p, n * p, 2)])
    [] kd = "extend" -> \E n \in {R(1, 4)} : h' = Append(h, [op |-> kd, N |-> 6, vals |-> Iv(n, 9), inds |-> Distinct(n, 6), g |-> Iv(6, 9)])
    [] kd = "extend2" -> \E n \in {R(1, 4)} : h' = Append(h, [op |-> kd, N |-> 6, vals |-> Iv(n, 9), inds |-> Distinct(n, 6), g |-> Iv(6, 9)])
    [] kd = "interp" -> \E n \in {R(2, 5)} : \E x0 \in {R(-3, 3)} : \E xs \in {Up(x0, n - 1)} : \E m \in {R(1, 4)} :
         h' = Append(h, [op |-> kd, xp |-> xs, yp |-> Iv(n, 9), q |-> [i \in 1..m |-> R(4 * x0 - 2, 4 * xs[n] + 2)], g |-> Iv(m, 5), d |-> Iv(n, 5)])
    [] kd = "fmap" -> \E n \in {R(1, 4)} : \E m \in {R(1, 3)} : h' = Append(h, [op |-> kd, A |-> Im(n, m, 5), x |-> Iv(m, 5), g |-> Iv(n, 5)])
    [] kd = "spdot" -> \E n \in {R(1, 4)} : \E m \in {R(1, 4)} : \E r \in {R(1, 3)} : h' = Append(h, [op |-> kd, S |-> Im(n, m, 2), D |-> Im(m, r, 9), g |-> Im(n, r, 5)])
    [] kd = "inv" -> \E n \in {R(1, 4)} : \E u \in {Cm(n, n, 1)} : h' = Append(h, [op |-> kd, M |-> Unimod(n, u), g |-> Cm(n, n, 3)])
    [] kd = "sqrt" -> \E n \in {R(1, 4)} : \E cx \in {R(1, 2)} :
         h' = Append(h, [op |-> kd, cx |-> cx = 1, s |-> [i \in 1..n |-> IF cx = 1 THEN Pick({ z \in (0..4) \X (-4..4) : z[1] > 0 \/ z[2] > 0 }) ELSE <<R(0, 9), 0>>], g |-> Iv(n, 9)])
    [] kd = "eigh" -> \E n \in {R(1, 4)} : \E re \in {R(1, 3)} : \E u \in {Cm(n, n, 4)} : \E d \in {Cm(n, n, 3)} :
         LET f(s) == IF re = 1 THEN [i \in 1..n |-> [j \in 1..n |-> <<s[i][j][1], 0>>]] ELSE s IN
         h' = Append(h, [op |-> kd, re |-> re = 1, H |-> Herm(n, f(u)), D |-> Herm(n, f(d)), g |-> [i \in 1..n |-> R(-1, 2)], c |-> Im(n, n, 2)])
    [] kd = "eig" -> \E n \in {R(1, 4)} : \E re \in {R(1, 3)} : \E u \in {Cm(n, n, 4)} : \E d \in {Cm(n, n, 3)} :
         LET f(a) == IF re = 1 THEN [i \in 1..n |-> [j \in 1..n |-> <<a[i][j][1], 0>>]] ELSE a IN
         h' = Append(h, [op |-> kd, re |-> re = 1, M |-> f(u), D |-> f(d), g |-> Cv(n, 2), c |-> Im(n, n, 2)])
    [] kd = "eigsh" -> \E n \in {R(4, 6)} : \E k \in {R(1, 2)} : \E u \in {Cm(n, n, Pick({1, 3}))} : \E d \in {Cm(n, n, 2)} : \E re \in {R(1, 3)} :
         LET f(s) == IF re = 1 THEN [i \in 1..n |-> [j \in 1..n |-> <<s[i][j][1], 0>>]] ELSE s IN
         h' = Append(h, [op |-> kd, re |-> re = 1, H |-> Herm(n, f(u)), D |-> Herm(n, f(d)), k |-> k, sig |-> R(-9, 9), g |-> [i \in 1..k |-> R(-1, 2)], c |-> (IF R(1, 3) = 1 THEN [i \in 1..n |-> [j \in 1..k |-> 2]] ELSE Im(n, k, 2))])
    [] kd = "fsolve" -> \E n \in {R(1, 3)} : \E b \in {[i \in 1..n |-> R(1, 4)]} : \E a \in {Iv(n, 4)} : \E s \in {Pick({1, 3})} :
         h' = Append(h, [op |-> kd, root |-> R(1, 5), c |-> R(1, 3), b |-> b, a |-> a, pow |-> s, g |-> R(-3, 3)])
    [] kd = "gradnum" -> \E n \in {R(1, 2)} : \E m \in {R(1, 3)} :
         h' = Append(h, [op |-> kd, rows |-> n, c |-> Iv(n * m, 9), x |-> Iv(n * m, 9), hk |-> Pick({"float", "int", "npfloat", "array"}), h |-> [i \in 1..(n * m) |-> Pick({1, 2, 4, 8})], h1 |-> Pick({1, 2}), intx |-> Pick({TRUE, FALSE})])
    [] kd = "vjpnum" -> \E n \in {R(1, 2)} : \E m \in {R(1, 3)} : \E o \in {R(1, 3)} :
         h' = Append(h, [op |-> kd, rows |-> n, A |-> Im(o, n * m, 5), x |-> Iv(n * m, 9), g |-> Iv(o, 5), h |-> Pick({1, 2, 4}), at |-> R(0, 1)])
    [] kd = "nearest" -> \E n \in {R(1, 6)} : h' = Append(h, [op |-> kd, arr |-> Iv(n, 9), v |-> R(-9, 9), N |-> R(1, 7)])
    [] kd = "star" -> h' = Append(h, [op |-> kd, A |-> Im(2, 2, 4), B |-> Im(2, 2, 4)])
    [] kd = "detach" -> h' = Append(h, [op |-> kd, x |-> Iv(3, 9)])
    [] kd = "energy" -> h' = Append(h, [op |-> kd, nm |-> Pick({-100, 0, 1, 20, 49, 50, 51, 100, 400, 1000, 4999, 5000, 5001, 20000})])
    [] kd = "ftinv" -> \E n \in {R(1, 5)} : \E a \in {R(1, 4)} : \E b \in {R(1, 4)} :
         h' = Append(h, [op |-> kd, un |-> Pick({1, 7, 300}), inv |-> Pick({TRUE, FALSE}), c |-> Cv(n, 5), gs |-> [i \in 1..n |-> <<R(-2, 2), R(-2, 2)>>], qx |-> Iv(a, 6), qy |-> Iv(b, 6)])
    [] kd = "arrays" -> \E n \in {R(1, 4)} : \E m \in {R(1, 4)} : h' = Append(h, [op |-> kd, A |-> Im(n, m, 9), B |-> Im(n, m, 9), C |-> Im(m, n, 9), r |-> R(-3, 3), v |-> Iv(3, 9), w |-> Iv(3, 9), lo |-> R(-3, 3), n |-> R(1, 4)])
    [] kd = "complexes" -> \E n \in {R(1, 4)} : h' = Append(h, [op |-> kd, u |-> Cv(n, 9), w |-> Cv(n, 9), M |-> Cm(n, n, 5)])
    [] kd = "functions" -> h' = Append(h, [op |-> kd, a |-> R(-7, 7), b |-> R(1, 9), c |-> Iv(2, 9)])
    [] kd = "bad" -> h' = Append(h, [op |-> kd, name |-> Pick({"", "Numpy", "torch", "autograd ", "None"})])
Step == \E s \in {R(1, 4)} : \E kd \in {Kinds[R(1, Len(Kinds))]} :
          IF s = 1 THEN h' = Append(h, [op |-> "switch", to |-> Pick({"numpy", "autograd"})]) ELSE Call(kd)
Init == h = <<>>
Next == \/ Len(h) < LEN /\ Step
        \/ Len(h) = LEN /\ PrintT("CASE " \o ToJson(h)) /\ h' = Append(h, [op |-> "end"])
Spec == Init /\ [][Next]_h
=============================================================================
