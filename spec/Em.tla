---------------------------------- MODULE Em ----------------------------------
(* hyperion/pdfs/core, hyperion/pdfs/mixtures: Gaussians and mixtures trained  *)
(* by expectation-maximisation.                                                *)
(* Exact part: components lie in far apart clusters, and those of one cluster  *)
(* share mean and covariance, so that the posterior of component k for a       *)
(* sample of its cluster is p[k] over the sum of the cluster's p.  Positions   *)
(* are offsets to the cluster's centre; parameters are in units of 1/10000,    *)
(* statistics in 1/60.                                                         *)
(* model: [kind, dim, cl, p, pi, mu, V (diagonals: <<v1,..>>; full: rows),     *)
(*         um, ul, up (what is updated), fl (floor, fraction), mn (tenths)]    *)
EXTENDS Util
U == 10000
L == 60
Full(m) == m.kind \in {"gmm", "normal"}
Single(m) == m.kind \in {"normal", "normaldiag"}
K(m) == Len(m.cl)
Dims(m) == 1..m.dim
SumS(S, F(_)) == LET RECURSIVE G(_)
                     G(T) == IF T = {} THEN 0 ELSE LET t == MinS(T) IN F(t) + G(T \ {t})
                 IN G(S)
Pc(m, c) == SumS({k \in 1..K(m) : m.cl[k] = c}, LAMBDA k : m.p[k])
\* posterior of component k for a sample of cluster c, in 1/L
Z(m, k, c) == IF m.cl[k] # c \/ m.p[k] = 0 THEN 0 ELSE (L * m.p[k]) \div Pc(m, c)
\* statistics of component k over the samples I, with weights w: N, F, S (in 1/L)
N0(m, x, w, I, k) == SumS(I, LAMBDA i : w[i] * Z(m, k, x[i].c))
F0(m, x, w, I, k, d) == SumS(I, LAMBDA i : w[i] * Z(m, k, x[i].c) * x[i].d[d])
S0(m, x, w, I, k, d, e) == SumS(I, LAMBDA i : w[i] * Z(m, k, x[i].c) * x[i].d[d] * x[i].d[e])
Ord2(m) == IF Full(m) THEN <<<<1, 1>>>> \o (IF m.dim = 2 THEN <<<<1, 2>>, <<2, 2>>>> ELSE <<>>) ELSE [d \in Dims(m) |-> <<d, d>>]
Stats(m, x, w, I) == [k \in 1..K(m) |-> [n |-> N0(m, x, w, I, k), f |-> [d \in Dims(m) |-> F0(m, x, w, I, k, d)],
                                         s |-> [q \in DOMAIN Ord2(m) |-> S0(m, x, w, I, k, Ord2(m)[q][1], Ord2(m)[q][2])]]]
\* one round of maximisation.  W, D1, D2: weight and moments of the samples of a cluster
W(x, w, c) == SumS({i \in DOMAIN x : x[i].c = c}, LAMBDA i : w[i])
D1(x, w, c, d) == SumS({i \in DOMAIN x : x[i].c = c}, LAMBDA i : w[i] * x[i].d[d])
D2(x, w, c, d, e) == SumS({i \in DOMAIN x : x[i].c = c}, LAMBDA i : w[i] * x[i].d[d] * x[i].d[e])
Few(m, x, w, k) == m.mn > 0 /\ 10 * N0(m, x, w, DOMAIN x, k) < m.mn * L
Center(c) == <<-200, 200, 400>>[c]
\* second moment of cluster c about the (new) mean mu, in 1/U
Mom(x, w, c, mu, d, e) == LET n == W(x, w, c)
                              a == D1(x, w, c, d)
                              b == D1(x, w, c, e)
                          IN ((U * D2(x, w, c, d, e)) \div n) - ((mu[d] * b) \div n) - ((mu[e] * a) \div n) + ((mu[d] * mu[e]) \div U)
MaxV(a, b) == Max2(a, b)
Step(m, x, w) ==
  LET n == [k \in 1..K(m) |-> N0(m, x, w, DOMAIN x, k)]
      few == {k \in 1..K(m) : Few(m, x, w, k)}
      keep == (1..K(m)) \ few
      mu == [k \in 1..K(m) |-> IF ~m.um THEN m.mu[k] ELSE IF k \in few THEN [d \in Dims(m) |-> -U * Center(m.cl[k])]
                               ELSE [d \in Dims(m) |-> (U * D1(x, w, m.cl[k], d)) \div W(x, w, m.cl[k])]]
      raw == [k \in keep |-> [q \in DOMAIN Ord2(m) |-> Mom(x, w, m.cl[k], mu[k], Ord2(m)[q][1], Ord2(m)[q][2])]]
      floor == IF m.kind = "normaldiag" THEN [q \in DOMAIN Ord2(m) |-> (U * m.fl[1]) \div m.fl[2]]
               ELSE IF m.kind = "normal" THEN [q \in DOMAIN Ord2(m) |-> 0]
               ELSE [q \in DOMAIN Ord2(m) |-> ((SumS(keep, LAMBDA k : raw[k][q]) * m.fl[1]) \div Cardinality(keep)) \div m.fl[2]]
      flo == IF Full(m) /\ m.dim = 2 THEN raw ELSE [k \in keep |-> [q \in DOMAIN Ord2(m) |-> MaxV(raw[k][q], floor[q])]]
      tot == SumS(keep, LAMBDA k : n[k])
      pool == [q \in DOMAIN Ord2(m) |-> SumS(keep, LAMBDA k : (n[k] * (flo[k][q] \div 4)) \div tot) * 4]
      one == [q \in DOMAIN Ord2(m) |-> IF Ord2(m)[q][1] = Ord2(m)[q][2] THEN U ELSE 0]
      V == [k \in 1..K(m) |-> IF ~m.ul THEN m.V[k] ELSE IF m.kind = "tied" THEN pool ELSE IF k \in few THEN one ELSE flo[k]]
  IN [m EXCEPT !.mu = mu, !.V = V,
               !.p = IF m.up THEN [k \in 1..K(m) |-> IF k \in few THEN 0 ELSE m.p[k]] ELSE m.p,
               !.pi = IF m.up /\ ~Single(m) THEN [k \in 1..K(m) |-> IF k \in few THEN 0 ELSE (U * n[k]) \div tot] ELSE m.pi]
RECURSIVE Train(_, _, _, _)
Train(m, x, w, e) == IF e = 0 THEN m ELSE Train(Step(m, x, w), x, w, e - 1)
\* flooring or dropping components may cost likelihood
Plain(m, x, w) ==
  LET s == Step([m EXCEPT !.kind = IF m.kind = "tied" THEN "diag" ELSE @], x, w)
  IN /\ \A k \in 1..K(m) : ~Few(m, x, w, k)
     /\ ~m.ul \/ (Full(m) /\ m.dim = 2) \/ \A k \in 1..K(m), q \in DOMAIN Ord2(m) : s.V[k][q] <= Mom(x, w, m.cl[k], s.mu[k], Ord2(m)[q][1], Ord2(m)[q][2])
AbsV(a) == IF a < 0 THEN -a ELSE a
Near(a, b, t) == a - b <= t /\ b - a <= t
NearAll(a, b, t) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Near(a[i], b[i], t)
Same(m, o) == /\ Single(m) \/ NearAll(o.pi, m.pi, 3)
              /\ \A k \in 1..K(m) : NearAll(o.mu[k], m.mu[k], 4) /\ \A q \in DOMAIN m.V[k] : Near(o.V[k][q], m.V[k][q], 25 + (AbsV(m.V[k][q]) \div 500))
Why(m, o) == IF ~Single(m) /\ ~NearAll(o.pi, m.pi, 3) THEN "weights" ELSE IF \E k \in 1..K(m) : ~NearAll(o.mu[k], m.mu[k], 4) THEN "means" ELSE "variances"
\* log-density differences of samples of a cluster (diagonal kinds), in 1/1000
Mah(m, k, d) == SumS(Dims(m), LAMBDA q : LET a == d[q] * 100 - (m.mu[k][q] \div 100) IN (a * a * 1000) \div m.V[k][q])    \* 1000 (d - mu)^2 / V
DensOk(m, x, lp) == Full(m) \/ \A i, j \in DOMAIN x :
                      x[i].c = x[j].c /\ i < j => \A k \in {k \in 1..K(m) : m.cl[k] = x[i].c /\ m.p[k] > 0 /\ \A q \in Dims(m) : m.V[k][q] >= 1000} :
                         LET a == Mah(m, k, x[i].d)
                             b == Mah(m, k, x[j].d)
                         IN Near(2 * (lp[i] - lp[j]), b - a, 20 + ((a + b) \div 50))
\* entropy of the posteriors of a sample of cluster c, in 1/1000.  The objective of
\* a mixture is the expected log-likelihood of samples with their components
Ln == <<0, 693, 1099, 1386, 1609, 1792>>
Ent(m, c) == LET P == Pc(m, c)
             IN IF P = 0 THEN 0 ELSE Ln[P] - (SumS({k \in 1..K(m) : m.cl[k] = c /\ m.p[k] > 0}, LAMBDA k : m.p[k] * Ln[m.p[k]]) \div P)
Obj(m, x, w, lp) == SumSeq([i \in DOMAIN x |-> w[i] * (lp[i] - Ent(m, x[i].c))])
WSum(w, v) == SumSeq([i \in DOMAIN v |-> w[i] * v[i]])
Has(m, c) == Pc(m, c) > 0
\* windows of the statistics
Wins(e, n) == IF e.mode = "segments" THEN [s \in DOMAIN e.segs |-> {i \in 1..n : i - 1 >= e.segs[s][1] /\ i - 1 <= e.segs[s][2]}]
              ELSE IF e.mode = "sorttime" THEN [s \in 1..(((n - e.len) \div e.shift) + 1) |-> (((s - 1) * e.shift) + 1)..(((s - 1) * e.shift) + e.len)]
              ELSE <<1..n>>
\* a normalised first-order statistic squared (full covariances: v Lambda v), and second-order ones, in units of L: only with the first precisions
NormV(m, st, k) == [d \in Dims(m) |-> st[k].f[d] - ((st[k].n * m.mu[k][d]) \div U)]
Lam(m, k, d, e) == m.Lam[k][d][e]
Quad(m, v, k) == SumS(Dims(m), LAMBDA d : SumS(Dims(m), LAMBDA e : v[d] * v[e] * Lam(m, k, d, e)))

(*------------------------------- judging events -----------------------------*)
InitSt(x) == [m |-> [kind |-> ""]]
Judge(s, e) ==
  CASE e.op = "new" -> IF e.exc # "" THEN Bad(s, e.m.kind \o " raised " \o e.exc) ELSE Good([m |-> e.m])
    [] e.op = "stats" ->
       LET m == s.m
           wins == Wins(e, Len(e.x))
           want == IF e.mode = "prob" THEN [q \in 1..Len(e.prob[1]) |-> Stats(m, e.x, [i \in DOMAIN e.x |-> e.w[i] * e.prob[i][q]], DOMAIN e.x)]
                   ELSE [q \in DOMAIN wins |-> Stats(m, e.x, e.w, wins[q])]
       IN IF e.exc # "" THEN Bad(s, "statistics (" \o e.mode \o ") raised " \o e.exc)
          ELSE IF ~e.same THEN Bad(s, "statistics (" \o e.mode \o ") changed their inputs")
          ELSE IF Len(e.st) # Len(want) THEN Bad(s, "statistics (" \o e.mode \o "): number of segments")
          ELSE IF e.st # want THEN Bad(s, "statistics (" \o e.mode \o ") of " \o m.kind) ELSE Good(s)
    [] e.op = "norm" ->
       LET m == s.m
           st == Stats(m, e.x, e.w, DOMAIN e.x)
           v(k) == NormV(m, st, k)
       IN IF e.exc # "" THEN Bad(s, "normalised statistics raised " \o e.exc)
          ELSE IF ~e.same THEN Bad(s, "normalised statistics changed their inputs")
          ELSE IF \E k \in 1..K(m) : e.f2[k] # Quad(m, v(k), k) THEN Bad(s, "normalised first order statistics of " \o m.kind)
          ELSE IF \E k \in 1..K(m) : e.tr[k] # SumS(Dims(m), LAMBDA d : SumS(Dims(m), LAMBDA g : Lam(m, k, d, g) *
                    (S0(m, e.x, e.w, DOMAIN e.x, k, d, g) - ((m.mu[k][d] \div U) * st[k].f[g]) - ((m.mu[k][g] \div U) * st[k].f[d]) + (st[k].n * (m.mu[k][d] \div U) * (m.mu[k][g] \div U)))))
               THEN Bad(s, "normalised second order statistics of " \o m.kind) ELSE Good(s)
    [] e.op = "fit" ->
       LET m == s.m
           t == Train(m, e.x, e.w, e.epochs)
       IN IF e.exc # "" THEN Bad(s, "fit raised " \o e.exc)
          ELSE IF ~e.same THEN Bad(s, "fit changed its inputs")
          ELSE IF ~Same(t, e) THEN Bad(s, Why(t, e) \o " of " \o m.kind \o " after training")
          ELSE IF Len(e.elbo) # (IF Single(m) THEN 1 ELSE e.epochs) THEN Bad(s, "number of objectives")
          ELSE IF ~Near(e.elbo[1], IF Single(m) THEN WSum(e.w, e.after) ELSE Obj(m, e.x, e.w, e.before), 20 + (2 * SumSeq(e.w))) THEN Bad(s, "objective of the first epoch")
          ELSE IF Plain(m, e.x, e.w) /\ WSum(e.w, e.after) < WSum(e.w, e.before) - 20 - Len(e.x) THEN Bad(s, "training made " \o m.kind \o " worse")
          ELSE IF ~NearAll(e.avg, [i \in DOMAIN e.elbo |-> e.elbo[i] \div (IF Single(m) THEN SumSeq(e.w) ELSE Len(e.x))], 3) THEN Bad(s, "objectives per sample")
          ELSE IF e.val # <<>> /\ ~Near(e.val[1], Obj(t, e.vx, [i \in DOMAIN e.vx |-> 1], e.vlp), 20 + (2 * Len(e.vlp))) THEN Bad(s, "objective of validation data")
          ELSE IF e.val # <<>> /\ ~Near(e.val[2], e.val[1] \div Len(e.vlp), 3) THEN Bad(s, "objective per validation sample")
          ELSE Good([m |-> t])
    [] e.op = "prob" ->
       LET m == s.m
       IN IF e.exc # "" THEN Bad(s, "log-likelihoods raised " \o e.exc)
          ELSE IF ~e.same THEN Bad(s, "log-likelihoods changed their inputs")
          ELSE IF ~NearAll(e.nat, e.std, 3) THEN Bad(s, "log-likelihoods of natural and standard parameters differ for " \o m.kind)
          ELSE IF ~DensOk(m, e.x, e.nat) THEN Bad(s, "log-likelihoods of " \o m.kind)
          ELSE IF ~Near(e.elbo, Obj(m, e.x, e.w, e.nat), 20 + (2 * SumSeq(e.w))) THEN Bad(s, "objective of " \o m.kind)
          ELSE IF ~Single(m) /\ \E i \in DOMAIN e.x, k \in 1..K(m) : ~Near(e.pz[i][k], (U * Z(m, k, e.x[i].c)) \div L, 2) THEN Bad(s, "posteriors of " \o m.kind)
          ELSE IF ~Single(m) /\ \E i \in DOMAIN e.x : ~Near(e.best[i], MaxS({(U * Z(m, k, e.x[i].c)) \div L : k \in 1..K(m)}), 3) THEN Bad(s, "log-likelihood of the best component")
          ELSE IF ~Single(m) /\ \E i \in DOMAIN e.x : ~Near(e.one[i], (U * Z(m, e.which, e.x[i].c)) \div L, 3) THEN Bad(s, "log-likelihood of the given component")
          ELSE Good(s)
    [] e.op = "split" ->
       LET m == s.m
       IN IF e.exc # "" THEN Bad(s, "split raised " \o e.exc)
          ELSE IF Len(e.pi) # 2 * K(m) \/ \E k \in 1..K(m) : ~Near(e.pi[2 * k] + e.pi[(2 * k) - 1], m.pi[k], 4) \/ ~Near(e.pi[2 * k], e.pi[(2 * k) - 1], 2) THEN Bad(s, "weights after splitting")
          ELSE IF \E k \in 1..K(m), d \in Dims(m) : ~Near((e.mu[2 * k][d] + e.mu[(2 * k) - 1][d]) \div 2, m.mu[k][d], 5) THEN Bad(s, "means after splitting")
          ELSE IF ~Full(m) /\ \E k \in 1..K(m), d \in Dims(m) : LET a == (e.mu[2 * k][d] - e.mu[(2 * k) - 1][d]) \div 2 IN ~Near((((a \div 4) * (a \div 4)) \div 625), m.V[k][d], 60 + (m.V[k][d] \div 100)) THEN Bad(s, "means after splitting")
          ELSE IF \E k \in 1..K(m) : \E q \in DOMAIN m.V[k], j \in {2 * k, (2 * k) - 1} : ~Near(e.V[j][q], IF m.kind = "tied" THEN m.V[k][q] ELSE m.V[k][q] \div 4, 25 + (AbsV(m.V[k][q]) \div 500)) THEN Bad(s, "variances after splitting")
          ELSE IF e.flags # <<m.um, m.ul, m.up, m.mn>> THEN Bad(s, "settings after splitting")
          ELSE Good(s)
    [] OTHER -> \* soft: any data and initialisation; totals in 1/1000
       IF e.exc # "" THEN Bad(s, "training of " \o e.kind \o " raised " \o e.exc)
       ELSE IF ~e.same THEN Bad(s, "training of " \o e.kind \o " changed its inputs")
       ELSE IF \E i \in 2..Len(e.lls) : e.lls[i] < e.lls[i - 1] - 5 - (AbsV(e.lls[i]) \div 20000) THEN Bad(s, "an epoch made " \o e.kind \o " worse")
       ELSE IF ~NearAll(e.elbo, e.obj, 20) THEN Bad(s, "objective of " \o e.kind)
       ELSE IF ~NearAll(e.tot, e.got, 20) THEN Bad(s, "totals of the statistics of " \o e.kind)
       ELSE IF ~NearAll(e.batched, e.whole, 20) THEN Bad(s, "statistics of " \o e.kind \o " depend on the batches")
       ELSE IF \E i \in DOMAIN e.pz : (\E k \in DOMAIN e.pz[i] : e.pz[i][k] < 0) \/ ~Near(SumSeq(e.pz[i]), U, 5) THEN Bad(s, "posteriors of " \o e.kind)
       ELSE IF ~NearAll(e.moment, e.model, 30) THEN Bad(s, "moments of trained " \o e.kind)
       ELSE IF ~NearAll(e.nat, e.std, 5) THEN Bad(s, "log-likelihoods of natural and standard parameters differ for " \o e.kind)
       ELSE Good(s)
=============================================================================
