--------------------------------- MODULE Ahc --------------------------------
(* hyperion/clustering/ahc.py: agglomerative clustering.  A similarity is a   *)
(* pair <<masked, s>>: how many of its pairs must not be joined, and the sum  *)
(* of the others, over a count q, as <<masked, s, q>>; distances are negated. *)
(* State: clusters as sets with the similarity of each two of them, the merges *)
(* made, and the partitions and heights of the last clustering.               *)
EXTENDS Util

\* similarity order
Lt(a, b) == IF a[1] * b[3] # b[1] * a[3] THEN a[1] * b[3] > b[1] * a[3] ELSE a[2] * b[3] < b[2] * a[3]
Avg(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
\* similarity of a third cluster to the union of two
Joined(method, a, b) == CASE method = "single" -> IF Lt(a, b) THEN b ELSE a
                          [] method = "complete" -> IF Lt(a, b) THEN a ELSE b
                          [] method = "average" -> Avg(a, b)
                          [] method = "weighted" -> <<(a[1] * b[3]) + (b[1] * a[3]), (a[2] * b[3]) + (b[2] * a[3]), 2 * a[3] * b[3]>>
\* the denominators of weighted linkage are powers of two
RECURSIVE Norm(_)
Norm(a) == IF a[1] % 2 = 0 /\ a[2] % 2 = 0 /\ a[3] % 2 = 0 THEN Norm(<<a[1] \div 2, a[2] \div 2, a[3] \div 2>>) ELSE a
\* clusters are named by their smallest element; sim[i][j] for names i, j
Start(n, s, mask) == [alive |-> 1..n, sim |-> [i \in 1..n |-> [j \in 1..n |-> IF mask[i][j] THEN <<0, s[i][j], 1>> ELSE <<1, 0, 1>>]], of |-> [i \in 1..n |-> i]]
Pairs(c) == {<<i, j>> \in c.alive \X c.alive : i < j}
Best(c) == {p \in Pairs(c) : \A q \in Pairs(c) : ~Lt(c.sim[p[1]][p[2]], c.sim[q[1]][q[2]])}
Merge(c, method, p) ==
  LET i == p[1]
      j == p[2]
      new(k) == IF method = "weighted" THEN Norm(Joined(method, c.sim[i][k], c.sim[j][k])) ELSE Joined(method, c.sim[i][k], c.sim[j][k])
  IN [alive |-> c.alive \ {j},
      sim |-> [a \in DOMAIN c.sim |-> [b \in DOMAIN c.sim |-> IF a = i /\ b \in c.alive \ {i, j} THEN new(b) ELSE IF b = i /\ a \in c.alive \ {i, j} THEN new(a) ELSE c.sim[a][b]]],
      of |-> [x \in DOMAIN c.of |-> IF c.of[x] = j THEN i ELSE c.of[x]]]
\* labels that stand for the clusters, numbered from 0 without gaps
SamePart(of, lab) == Len(lab) = Len(of) /\ \A x, y \in DOMAIN of : (of[x] = of[y]) = (lab[x] = lab[y])
Numbered(lab) == Rng(lab) = 0..(Cardinality(Rng(lab)) - 1)

(* merges read off the cuts: cuts[m + 1] is the labelling after m merges       *)
RECURSIVE Follow(_, _, _, _, _)
Follow(c, method, cuts, m, acc) ==
  IF m = Len(c.of) - 1 THEN acc
  ELSE LET N == {p \in Best(c) : SamePart(Merge(c, method, p).of, cuts[m + 2])} IN
       IF N = {} THEN Append(acc, [of |-> <<>>, h |-> <<>>])
       ELSE LET p == CHOOSE p \in N : TRUE
                d == Merge(c, method, p)
            IN Follow(d, method, cuts, m + 1, Append(acc, [of |-> d.of, h |-> c.sim[p[1]][p[2]]]))
\* a merge at similarity h happens at threshold t = <<num, den>>
Reaches(h, t) == IF h[1] > 0 THEN FALSE ELSE h[2] * t[2] >= t[1] * h[3]

(*------------------------------ n ln n, in 1e-4 -----------------------------*)
XLX == <<0, 13863, 32958, 55452, 80472, 107506, 136214, 166355, 197750, 230259, 263769, 298189, 333443>>
X(n) == IF n = 0 THEN 0 ELSE XLX[n]
SumF(S, f(_)) == LET RECURSIVE G(_)
                     G(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN f(x) + G(T \ {x})
                 IN G(S)
\* part of the entropy of a that b leaves: <<numerator, denominator>>
Left(a, b) == LET n == Len(a)
                  joint == SumF({<<a[i], b[i]>> : i \in 1..n}, LAMBDA p : X(Cardinality({i \in 1..n : a[i] = p[1] /\ b[i] = p[2]})))
                  one(z) == SumF(Rng(z), LAMBDA v : X(Count(z, v)))
              IN <<one(b) - joint, X(n) - one(a)>>
\* observed in thousandths
NearT(obs, q) == IF q[2] = 0 THEN obs = 0 ELSE LET d == (obs * q[2]) - (q[1] * 1000) IN d <= 2 * q[2] /\ d >= -2 * q[2]

(*------------------------------- judging events -----------------------------*)
InitSt(x) == [n |-> 0, lv |-> <<>>]
Lev(s, m) == IF m = 0 THEN [i \in 1..s.n |-> i] ELSE s.lv[m].of
Judge(s, e) ==
  IF e.exc # "" THEN Bad(s, e.op \o " raised " \o e.exc)
  ELSE CASE e.op = "fit" ->
         IF ~e.same THEN Bad(s, "clustering changed its input")
         ELSE IF \E m \in 1..e.n : ~Numbered(e.cuts[m]) \/ Cardinality(Rng(e.cuts[m])) # e.n + 1 - m \/ Len(e.cuts[m]) # e.n THEN Bad(s, "a cut has not the number of clusters asked for")
         ELSE LET L == Follow(Start(e.n, e.s, e.mask), e.method, e.cuts, 0, <<>>) IN
              IF Len(L) # e.n - 1 \/ (L # <<>> /\ L[Len(L)].of = <<>>) THEN Bad(s, "after " \o ToString(Len(L) - 1) \o " merges the clusters merged are not the two most similar")
              ELSE Good([n |-> e.n, lv |-> L])
    [] e.op = "num" -> LET k == Min2(s.n, e.k) IN
         IF SamePart(Lev(s, s.n - k), e.lab) /\ Numbered(e.lab) THEN Good(s) ELSE Bad(s, "the cut into " \o ToString(k) \o " clusters is " \o ToString(Lev(s, s.n - k)))
    [] e.op = "thr" -> LET m == Cardinality({i \in 1..(s.n - 1) : Reaches(s.lv[i].h, e.t)}) IN
         IF SamePart(Lev(s, m), e.lab) /\ Numbered(e.lab) THEN Good(s) ELSE Bad(s, "the cut at the threshold is " \o ToString(Lev(s, m)))
    [] e.op = "det" ->
         IF Len(e.h) # s.n \/ Len(e.c) # s.n THEN Bad(s, "one point per number of clusters is due")
         ELSE IF \E m \in 1..s.n : ~NearT(e.h[m], Left(e.labels, Lev(s, m - 1))) THEN Bad(s, "cluster impurity is not that of the cuts")
         ELSE IF \E m \in 1..s.n : ~NearT(e.c[m], Left(Lev(s, m - 1), e.labels)) THEN Bad(s, "class impurity is not that of the cuts")
         ELSE Good(s)
    [] OTHER -> Bad(s, "unknown event " \o e.op)
=============================================================================
