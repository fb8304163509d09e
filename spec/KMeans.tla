------------------------------- MODULE KMeans -------------------------------
(* hyperion/clustering/kmeans.py on points with integer coordinates.  A       *)
(* centroid is <<sum vector, count>>; squared distances are over count^2.     *)
(* State of a fit: the centroids and the assignment of the points to them.    *)
EXTENDS Util

Sq(x) == x * x
SumQ(q) == LET RECURSIVE G(_)
               G(i) == IF i = 0 THEN 0 ELSE q[i] + G(i - 1)
           IN G(Len(q))
\* numerator of the squared distance of point p to centroid m, over m[2]^2
D(p, m) == SumQ([i \in DOMAIN p |-> Sq((m[2] * p[i]) - m[1][i])])
Nearer(p, a, b) == D(p, a) * Sq(b[2]) < D(p, b) * Sq(a[2])
Nearest(p, mu) == {k \in DOMAIN mu : \A j \in DOMAIN mu : ~Nearer(p, mu[j], mu[k])}
\* all assignments to nearest centroids; one when there are no ties
Assigns(x, mu) == {f \in [DOMAIN x -> DOMAIN mu] : \A i \in DOMAIN x : f[i] \in Nearest(x[i], mu)}
First(x, mu) == [i \in DOMAIN x |-> CHOOSE k \in Nearest(x[i], mu) : \A j \in Nearest(x[i], mu) : k <= j]
Centroid(x, a, k) == LET S == {i \in DOMAIN x : a[i] = k}
                         q == SetToSortSeq2(S)
                     IN <<[d \in DOMAIN x[1] |-> SumQ([i \in 1..Len(q) |-> x[q[i]][d]])], Len(q)>>
Full(a, K) == \A k \in 1..K : \E i \in DOMAIN a : a[i] = k
Centroids(x, a, K) == [k \in 1..K |-> Centroid(x, a, k)]
\* loss summed over points, over L^2 with L a multiple of all counts
LossN(x, a, mu, L) == SumQ([i \in DOMAIN x |-> D(x[i], mu[a[i]]) * Sq(L \div mu[a[i]][2])])
\* seeds: the first point, then always a point whose squared distances to the earlier ones add up to most
RECURSIVE Seeds(_, _)
Seeds(x, K) ==
  IF K = 1 THEN {<<1>>}
  ELSE UNION {LET far(i) == SumQ([j \in DOMAIN s |-> D(x[i], <<x[s[j]], 1>>)])
              IN {Append(s, i) : i \in {i \in DOMAIN x : \A j \in DOMAIN x : far(j) <= far(i)}} : s \in Seeds(x, K - 1)}
Points(x, s) == [k \in DOMAIN s |-> <<x[s[k]], 1>>]

(*------------------------------- judging events -----------------------------*)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
RECURSIVE LcmSeq(_)
LcmSeq(q) == IF q = <<>> THEN 1 ELSE LET l == LcmSeq(Tail(q)) IN (l \div Gcd(l, Head(q))) * Head(q)
Lcm(mu) == LcmSeq([k \in DOMAIN mu |-> mu[k][2]])
Near(obs, n, d) == LET q == (obs * d) - (n * 1000) IN q <= d /\ q >= -d
\* mu in thousandths
SameMu(obs, mu) == \A k \in DOMAIN mu : \A d \in DOMAIN mu[k][1] : Near(obs[k][d], mu[k][1][d], mu[k][2])
\* losses are means in ten-thousandths: fit's own history follows the run from centroids mu0 assigned by a
RECURSIVE Runs(_, _, _, _)
Runs(x, mus, left, K) ==
  IF left = 0 THEN {[mu |-> m, a |-> First(x, m)] : m \in mus}
  ELSE LET nx == {Centroids(x, First(x, m), K) : m \in {m \in mus : Full(First(x, m), K)}} IN Runs(x, nx, left - 1, K)
Ends(x, K, epochs) == Runs(x, {Points(x, s) : s \in Seeds(x, K)}, epochs, K)
\* some point is as near to two centroids as rounding may tell apart, or a cluster went empty
Risky(x, m) == (\E i \in DOMAIN x : Cardinality(Nearest(x[i], m)) > 1) \/ ~Full(First(x, m), Len(m))
RECURSIVE Judged(_, _, _, _)
Judged(x, mus, left, K) == (\A m \in mus : ~Risky(x, m)) /\ (left = 0 \/ Judged(x, {Centroids(x, First(x, m), K) : m \in mus}, left - 1, K))

Nonincreasing(q) == \A i \in 2..Len(q) : q[i] <= q[i - 1] + 1
\* relative change, from losses in ten-thousandths, with room for their rounding
Stops(p, c, rt) == (p - c) * rt <= p + (2 * rt)
Goes(p, c, rt) == (p - c) * rt >= p - (2 * rt)
InitSt(x) == [x |-> <<>>]
Judge(s, e) ==
  IF e.exc # "" THEN Bad(s, e.op \o " raised " \o e.exc)
  ELSE CASE e.op = "fit" ->
         LET E == Len(e.loss)
             all == {Points(e.x, z) : z \in Seeds(e.x, e.k)}
         IN IF E > e.epochs \/ E < 1 THEN Bad(s, "more epochs than asked for")
            ELSE IF Len(e.a) # Len(e.x) \/ \E i \in DOMAIN e.a : e.a[i] \notin 1..e.k THEN Bad(s, "each point has one of the clusters")
            ELSE IF ~Nonincreasing(e.loss) THEN Bad(s, "the loss rises")
            ELSE IF E < e.epochs /\ (E = 1 \/ ~Stops(e.loss[E - 1], e.loss[E], e.rt)) THEN Bad(s, "training stopped early")
            ELSE IF \E i \in 2..(E - 1) : e.loss[i - 1] > 4 /\ ~Goes(e.loss[i - 1], e.loss[i], e.rt) THEN Bad(s, "training did not stop")
            ELSE IF ~Judged(e.x, all, E, e.k) THEN Good(s)
            ELSE IF ~\E r \in Ends(e.x, e.k, E) : /\ SameMu(e.mu, r.mu) /\ e.a = r.a
                                                   /\ LET l == Lcm(r.mu) IN Near(e.tot, LossN(e.x, r.a, r.mu, l), l * l)
              THEN Bad(s, "after " \o ToString(E) \o " epochs the clusters are " \o ToString(Ends(e.x, e.k, E)))
            ELSE Good(s)
    [] e.op = "predict" -> \* against the centroids given, exact
         LET mu == [k \in DOMAIN e.c |-> <<e.c[k], 1>>] IN
         IF \E i \in DOMAIN e.x : e.a[i] \notin Nearest(e.x[i], mu) THEN Bad(s, "a point is not given to its nearest centroid")
         ELSE IF \E i \in DOMAIN e.x : e.err[i] # D(e.x[i], mu[e.a[i]]) THEN Bad(s, "the error is not the squared distance")
         ELSE Good(s)
    [] OTHER -> Bad(s, "unknown event " \o e.op)
=============================================================================
