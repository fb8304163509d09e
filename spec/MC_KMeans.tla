------------------------------ MODULE MC_KMeans ------------------------------
(* Every set of N points on a grid, every tie: the loss never rises and the   *)
(* training ends at a partition that another epoch leaves as it is.           *)
EXTENDS KMeans, Json
CONSTANTS N, V, DIM, K, EVERY
VARIABLES x, mu, a, prev, n
vars == <<x, mu, a, prev, n>>
Pt == [1..DIM -> 0..V]
Init == /\ x \in [1..N -> Pt]
        /\ \E z \in Seeds(x, K) : mu = Points(x, z)
        /\ a = First(x, mu) /\ prev = <<>> /\ n = 0
Next == /\ Full(a, K)
        /\ LET m == Centroids(x, a, K) IN
           /\ \E k \in 1..K : \E d \in 1..DIM : m[k][1][d] * mu[k][2] # mu[k][1][d] * m[k][2]
           /\ mu' = m
           /\ a' = First(x, m)
        /\ prev' = <<mu, a>>
        /\ n' = n + 1 /\ UNCHANGED x
Spec == Init /\ [][Next]_vars
Loss(m, b, l) == LossN(x, b, m, l)
Falls == prev # <<>> => LET l == LcmSeq([k \in 1..(2 * K) |-> IF k <= K THEN mu[k][2] ELSE prev[1][k - K][2]]) IN Loss(mu, a, l) <= Loss(prev[1], prev[2], l)
\* strictly, unless the assignment moved only between equals
Ends2 == n <= N * N
SeedsApart == \A z \in Seeds(x, K) : Cardinality({x[i] : i \in 1..N}) >= 2 => x[z[1]] # x[z[2]]
Emit == (n = 0 /\ (SumQ([i \in 1..N |-> i * SumQ(x[i])]) + (7 * x[N][1])) % EVERY = 0) => PrintT("@@BEH " \o ToJson([x |-> x]))
=============================================================================
