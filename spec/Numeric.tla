------------------------------- MODULE Numeric --------------------------------
(* Routines of matrices, logarithms and labels on which models and scores rest. *)
(* Matrices are sequences of rows of integers; the numbers are chosen so that    *)
(* the exact results are integers or quotients of them.  No state.               *)
EXTENDS Util, LnTab

AbsV(x) == IF x < 0 THEN -x ELSE x
Near(a, b, t) == AbsV(a - b) <= t
Dot(u, v) == SumSeq([k \in DOMAIN u |-> u[k] * v[k]])
Tr(A) == [j \in DOMAIN A[1] |-> [i \in DOMAIN A |-> A[i][j]]]
Mul(A, B) == LET T == Tr(B) IN [i \in DOMAIN A |-> [j \in DOMAIN T |-> Dot(A[i], T[j])]]
Scale(c, A) == [i \in DOMAIN A |-> [j \in DOMAIN A[i] |-> c * A[i][j]]]
Diag(d) == [i \in DOMAIN d |-> [j \in DOMAIN d |-> IF i = j THEN d[i] ELSE 0]]
Eye(n) == Diag([i \in 1..n |-> 1])
Same(A, B, t) == DOMAIN A = DOMAIN B /\ \A i \in DOMAIN A : DOMAIN A[i] = DOMAIN B[i] /\ \A j \in DOMAIN A[i] : Near(A[i][j], B[i][j], t)
Upper(A) == \A i, j \in DOMAIN A : i > j => A[i][j] = 0
P2(k) == 2 ^ k
\* 1000 times the log of 2^k
L2(k) == IF k < 0 THEN -(((-k) * 693) + (((-k) * 147) \div 1000)) ELSE (k * 693) + ((k * 147) \div 1000)

(*---------------------------------- packing ----------------------------------*)
\* places of the triangle by rows
Places(n, lower) == FlatSeq([i \in 1..n |-> IF lower THEN [j \in 1..i |-> <<i, j>>] ELSE [j \in 1..(n - i + 1) |-> <<i, i + j - 1>>]])
\* diagonal times f / 2
Pack(A, lower, f) == LET p == Places(Len(A), lower) IN [k \in DOMAIN p |-> IF p[k][1] = p[k][2] THEN (A[p[k][1]][p[k][2]] * f) \div 2 ELSE A[p[k][1]][p[k][2]]]
Index(p, i, j) == CHOOSE k \in DOMAIN p : p[k] = <<i, j>>
Unpack(v, n, lower, sym, f) == LET p == Places(n, lower)
                               IN [i \in 1..n |-> [j \in 1..n |->
                                     LET x == IF <<i, j>> \in Rng(p) THEN v[Index(p, i, j)] ELSE IF sym THEN v[Index(p, j, i)] ELSE 0
                                     IN IF i = j THEN (x * f) \div 2 ELSE x]]
(*------------------------------- variance floor -------------------------------*)
\* 100 times C' Q diag(d / 4) Q' C, with C upper triangular and q = 5 Q, Q orthogonal
Cov(c, q, d) == Mul(Tr(c), Mul(Mul(Mul(q, Diag(d)), Tr(q)), c))
Floor(c, q, d) == Cov(c, q, [i \in DOMAIN d |-> Max2(d[i], 4)])
\* the floor itself
Least(c, q) == Cov(c, q, [i \in DOMAIN c |-> 4])
(*--------------------------------- logarithms ---------------------------------*)
Total(ks) == SumSeq([i \in DOMAIN ks |-> P2(ks[i])])
Ln(n) == Ln1000[n]

(*------------------------------------ lists ------------------------------------*)
First(b, x) == MinS({i \in DOMAIN b : b[i] = x}) - 1
At(a, loc) == [i \in DOMAIN loc |-> a[loc[i] + 1]]
\* part k of n things in P parts
Part(n, k, P) == ((((k - 1) * n) \div P) + 1)..((k * n) \div P)
\* places of the elements of part k, in order of keys and places
KeyPart(a, ks, k, P) == LET u == SetToSortSeq2(Rng(ks))
                            p == SetToSortSeq2(Part(Len(u), k, P))
                        IN FlatSeq([j \in DOMAIN p |-> SetToSortSeq2({i - 1 : i \in {m \in DOMAIN ks : ks[m] = u[p[j]]}})])
PlainPart(a, k, P) == SetToSortSeq2({i - 1 : i \in Part(Len(a), k, P)})
ListJudge(s, e) ==
  CASE e.what = "in" ->
       IF Len(e.f) # Len(e.a) \/ \E i \in DOMAIN e.a : e.f[i] # (e.a[i] \in Rng(e.b)) \/ (e.f[i] /\ e.loc[i] # First(e.b, e.a[i])) THEN Bad(s, "membership") ELSE Good(s)
    [] e.what = "sort" ->
       IF ~SameBag(e.obs, e.a) \/ \E i \in 1..(Len(e.obs) - 1) : IF e.rev THEN e.obs[i] < e.obs[i + 1] ELSE e.obs[i] > e.obs[i + 1] THEN Bad(s, "order")
       ELSE IF e.ix /\ (~IsPerm0(e.loc, Len(e.a)) \/ At(e.a, e.loc) # e.obs) THEN Bad(s, "places of the sorted elements") ELSE Good(s)
    [] e.what = "cap" ->
       IF e.obs # SetToSortSeq2(Rng(e.a) \cap Rng(e.b)) THEN Bad(s, "intersection")
       ELSE IF e.ix /\ (Len(e.loc) # Len(e.obs) \/ Len(e.loc2) # Len(e.obs) \/ \E i \in DOMAIN e.obs : e.loc[i] # First(e.a, e.obs[i]) \/ e.loc2[i] # First(e.b, e.obs[i])) THEN Bad(s, "places of the common elements") ELSE Good(s)
    [] OTHER ->
       IF \E k \in DOMAIN e.obs : e.obs[k][2] # (IF e.what = "parts" THEN PlainPart(e.a, k, Len(e.obs)) ELSE KeyPart(e.a, e.b, k, Len(e.obs))) \/ e.obs[k][1] # At(e.a, e.obs[k][2]) THEN Bad(s, "parts of a list") ELSE Good(s)

InitSt(i) == <<>>
Judge(s, e) ==
  IF e.exc # "" THEN Bad(s, "the routine failed")
  ELSE IF ~e.kept THEN Bad(s, "arguments changed")
  ELSE CASE e.op = "pd" ->
       \* A = R' R with R upper triangular and 2^k in its diagonal; e.sol in 1/1000, e.inv times the determinant
       LET n == Len(e.A)
           det == P2(2 * SumSeq(e.k))
           want == Scale(1000, e.x)
       IN IF ~Same(e.sol, want, 1) THEN Bad(s, "solution of the system")
          ELSE IF e.R # <<>> /\ (~Upper(e.R) \/ Mul(Tr(e.R), e.R) # e.A \/ \E i \in 1..n : e.R[i][i] <= 0) THEN Bad(s, "factor of Cholesky")
          ELSE IF e.ld # <<>> /\ ~Near(e.ld[1], L2(2 * SumSeq(e.k)), 1) THEN Bad(s, "log of the determinant")
          ELSE IF e.inv # <<>> /\ Mul(e.A, e.inv) # Scale(det, Eye(n)) THEN Bad(s, "inverse")
          ELSE Good(s)
    [] e.op = "tri" ->
       LET n == Len(e.A)
           det == P2(SumSeq(e.k))
           want == Scale(1000, e.x)
       IN IF ~Same(e.sol, want, 1) THEN Bad(s, "solution of the triangular system")
          ELSE IF e.ld # <<>> /\ ~Near(e.ld[1], L2(SumSeq(e.k)), 1) THEN Bad(s, "log of the determinant of a triangular matrix")
          ELSE IF e.inv # <<>> /\ Mul(e.A, e.inv) # Scale(det, Eye(n)) THEN Bad(s, "inverse of a triangular matrix")
          ELSE Good(s)
    [] e.op = "soft" ->
       \* rows of numbers (k ln 2 + off), e.p and e.lse in 1/1000, e.lse without off
       IF \E i \in DOMAIN e.k : \E j \in DOMAIN e.k[i] : ~Near(e.p[i][j], (1000 * P2(e.k[i][j])) \div Total(e.k[i]), 1) THEN Bad(s, "softmax")
       ELSE IF \E i \in DOMAIN e.k : ~Near(e.lse[i], Ln(Total(e.k[i])), 2) THEN Bad(s, "log of the sum of exponentials")
       ELSE Good(s)
    [] e.op = "sig" ->
       \* numbers k ln 2 (k of either sign), and e.big, numbers far from zero
       IF \E i \in DOMAIN e.k : LET k == e.k[i]
                                    a == IF k > 0 THEN P2(k) ELSE 1
                                    b == IF k < 0 THEN P2(-k) ELSE 1
                                IN ~Near(e.p[i], (1000 * a) \div (a + b), 1) \/ ~Near(e.l[i], Ln(a) - Ln(a + b), 2) \/ ~Near(e.nl[i], Ln(a + b) - Ln(a), 2) THEN Bad(s, "sigmoid")
       ELSE IF \E i \in DOMAIN e.big : LET x == e.big[i]
                                           m == IF x < 0 THEN 1000 * x ELSE 0
                                       IN ~Near(e.bp[i], IF x < 0 THEN 0 ELSE 1000, 0) \/ ~Near(e.bl[i], m, 1) \/ ~Near(e.bnl[i], -m, 1) THEN Bad(s, "sigmoid far from zero")
       ELSE Good(s)
    [] e.op = "pack" ->
       LET v == Pack(e.A, e.lower, e.f)
       IN IF e.v # v THEN Bad(s, "packed matrix")
          ELSE IF e.back # Unpack(v, Len(e.A), e.lower, e.sym, e.g) THEN Bad(s, "matrix from its packed form")
          ELSE Good(s)
    [] e.op = "floor" ->
       IF ~Same(e.obs, Floor(e.c, e.q, e.d), 1) THEN Bad(s, "floored covariance")
       ELSE IF ~e.tri THEN Bad(s, "the factor is not triangular")
       ELSE Good(s)
    [] e.op = "hot" ->
       LET n == IF e.n = 0 THEN MaxS(Rng(e.ids)) + 1 ELSE e.n
       IN IF e.obs # [i \in DOMAIN e.ids |-> [j \in 1..n |-> IF j = e.ids[i] + 1 THEN 1 ELSE 0]] THEN Bad(s, "one-hot labels")
          ELSE Good(s)
    [] e.op = "list" -> ListJudge(s, e)
    [] OTHER ->
       \* Fisher ratio: difference of means (A + B) x, e.obs in 1/1000
       LET n == Len(e.A)
           S == [i \in 1..n |-> [j \in 1..n |-> e.A[i][j] + e.B[i][j]]]
           d == [i \in 1..n |-> Dot(S[i], e.x)]
       IN IF ~Near(e.obs, 1000 * Dot(d, e.x), 5) THEN Bad(s, "Fisher ratio")
          ELSE Good(s)
=============================================================================
