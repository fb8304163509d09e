------------------------------ MODULE Classif -------------------------------
(* Classifiers of vectors: Gaussian back-ends learned by counting and adapted   *)
(* to a prior, their scores, and the conditions that a logistic regression      *)
(* meets once it is learned.                                                    *)
(* State: the Gaussian back-ends made so far                                    *)
(*   [mu, S, beta, nu, has]: means and covariance in 1/1000, counts in 1/100.   *)
(* Weights of the samples are given in quarters.                                *)
EXTENDS Util

AbsV(x) == IF x < 0 THEN -x ELSE x
Near(a, b, t) == AbsV(a - b) <= t
\* (x * y) \div z of signed numbers, rounded towards zero
Quot(x, z) == IF x < 0 THEN -((-x) \div z) ELSE x \div z

(*-------------------------- sufficient statistics --------------------------*)
N(e, k) == SumSeq([i \in DOMAIN e.x |-> e.w[i][k]])
F(e, k, a) == SumSeq([i \in DOMAIN e.x |-> e.w[i][k] * e.x[i][a]])
SS(e, k, a, b) == SumSeq([i \in DOMAIN e.x |-> e.w[i][k] * e.x[i][a] * e.x[i][b]])
K(e) == Len(e.w[1])
D(e) == Len(e.x[1])
\* the prior that counts: relevance factors given with the classifier replace those of the prior
B0(e, p, k) == IF e.pb >= 0 THEN 100 * e.pb ELSE p.beta[k]
N0(e, p) == IF e.pn >= 0 THEN 100 * K(e) * e.pn ELSE p.nu
\* means, in 1/1000
Mu(e, p, old, k, a) ==
  IF ~e.upmu THEN old.mu[k][a]
  ELSE IF e.pr = 0 THEN Quot(1000 * F(e, k, a), N(e, k))
  ELSE Quot((25000 * F(e, k, a)) + (B0(e, p, k) * p.mu[k][a]), (25 * N(e, k)) + B0(e, p, k))
\* scatter of the samples of a class for each sample, in 1/1000
Scatter(e, old, k, a, b) ==
  LET n == N(e, k)
  IN IF n = 0 THEN 0
     ELSE IF e.upmu THEN Quot(1000 * ((n * SS(e, k, a, b)) - (F(e, k, a) * F(e, k, b))), n * n)
     ELSE Quot(1000 * SS(e, k, a, b), n) - Quot(F(e, k, a) * old.mu[k][b], n) - Quot(F(e, k, b) * old.mu[k][a], n) + Quot(old.mu[k][a] * old.mu[k][b], 1000)
\* what the distance between the means of the data and of the prior adds
Shift(e, p, k, a, b) ==
  LET n == N(e, k)
      d(c) == Quot(1000 * F(e, k, c), n) - p.mu[k][c]
  IN IF e.pr = 0 \/ ~e.upmu \/ n = 0 THEN 0
     ELSE Quot(Quot(d(a) * d(b), 1000) * B0(e, p, k), (25 * n) + B0(e, p, k))
Cov(e, p, old, a, b) ==
  LET n0 == IF e.pr = 0 THEN 0 ELSE N0(e, p)
      S0 == IF e.pr = 0 THEN 0 ELSE p.S[a][b]
      T(k) == Scatter(e, old, k, a, b) + Shift(e, p, k, a, b)
      M(k) == 25 * N(e, k)
      m0 == n0 \div K(e)
  IN IF e.bal THEN Quot(SumSeq([k \in 1..K(e) |-> Quot((M(k) * T(k)) + (m0 * S0), M(k) + m0)]), K(e))
     ELSE Quot((n0 * S0) + SumSeq([k \in 1..K(e) |-> M(k) * T(k)]), n0 + SumSeq([k \in 1..K(e) |-> M(k)]))

(*--------------------------------- scores ----------------------------------*)
Quad(W, u, v) == SumSeq([a \in DOMAIN u |-> u[a] * SumSeq([b \in DOMAIN v |-> W[a][b] * v[b]])])
Minus(u, v) == [a \in DOMAIN u |-> u[a] - v[a]]
Dist(e, i, k) == Quad(e.W, Minus(e.x[i], e.mu[k]), Minus(e.x[i], e.mu[k]))
\* twice the linear score
Lin2(e, i, k) == (2 * Quad(e.W, e.x[i], e.mu[k])) - Quad(e.W, e.mu[k], e.mu[k])
\* (q + q2)^2 / (L + M - 1) - q^2 / L - q2^2 / M in 1/1000, q = L mu and q2 = M x
QTerm(L, M, m, x) == Quot(1000 * ((L * m) + (M * x)) * ((L * m) + (M * x)), (L + M) - 1) - (1000 * L * m * m) - (1000 * M * x * x)
\* posteriors in 1/10000
Posterior(p) == /\ \A k \in DOMAIN p : p[k] \in -2..10002
                /\ Near(SumSeq(p), 10000, 3 + Len(p))

InitSt(i) == <<>>
NewReg(e) == [mu |-> e.obs.mu, S |-> e.obs.S, beta |-> e.obs.beta, nu |-> e.obs.nu]
NoPrior == [mu |-> <<>>, S |-> <<>>, beta |-> <<>>, nu |-> 0]

JudgeFit(s, e) ==
  LET p == IF e.pr = 0 THEN NoPrior ELSE s[e.pr]
      old == IF e.r = 0 THEN NoPrior ELSE s[e.r]
      KK == K(e)
      DD == D(e)
      o == e.obs
      n100(k) == 25 * N(e, k)
  IN IF Len(o.mu) # KK \/ (\E k \in 1..KK : Len(o.mu[k]) # DD) \/ Len(o.S) # DD \/ Len(o.beta) # KK THEN Bad(s, "shape of the learned parameters")
     ELSE IF \E k \in 1..KK, a \in 1..DD : ~Near(o.mu[k][a], Mu(e, p, old, k, a), 4) THEN Bad(s, "means of the classes")
     ELSE IF \E a, b \in 1..DD : IF e.upW THEN ~Near(o.S[a][b], Cov(e, p, old, a, b), 25 + (AbsV(o.S[a][a]) \div 300) + (AbsV(o.S[b][b]) \div 300))
                                 ELSE ~Near(o.S[a][b], old.S[a][b], 6 + (AbsV(old.S[a][b]) \div 1000)) THEN Bad(s, "covariance within the classes")
     ELSE IF \E k \in 1..KK : ~Near(o.beta[k], IF e.qb >= 0 THEN 100 * e.qb ELSE IF ~e.upmu THEN old.beta[k] ELSE IF e.pr = 0 THEN n100(k) ELSE n100(k) + B0(e, p, k), 2) THEN Bad(s, "counts of the means")
     ELSE IF ~Near(o.nu, IF e.qn >= 0 THEN 100 * KK * e.qn ELSE IF ~e.upW THEN old.nu ELSE SumSeq([k \in 1..KK |-> n100(k)]) + (IF e.pr = 0 THEN 0 ELSE N0(e, p)), 2) THEN Bad(s, "count of the covariance")
     ELSE IF e.pred # e.want THEN Bad(s, "scores are not those of what was learned")
     ELSE Good(Append(s, NewReg(e)))

Judge(s, e) ==
  IF e.exc # "" THEN Bad(s, "unexpected exception")
  ELSE IF ~e.same THEN Bad(s, "data of the caller were changed")
  ELSE CASE e.op = "given" -> Good(Append(s, [mu |-> [k \in DOMAIN e.mu |-> [a \in DOMAIN e.mu[k] |-> 1000 * e.mu[k][a]]],
                                              S |-> [a \in DOMAIN e.S |-> [b \in DOMAIN e.S[a] |-> 1000 * e.S[a][b]]],
                                              beta |-> [k \in DOMAIN e.beta |-> 100 * e.beta[k]], nu |-> 100 * e.nu]))
    [] e.op = "fit" -> JudgeFit(s, e)
    [] e.op = "eval" ->
       IF Len(e.y) # Len(e.x) \/ (\E i \in DOMAIN e.y : Len(e.y[i]) # Len(e.mu)) THEN Bad(s, "shape of the scores")
       ELSE IF \E i \in DOMAIN e.x : \E k \in DOMAIN e.mu :
                 CASE e.how = "linear" -> ~Near(e.y[i][k], 500 * Lin2(e, i, k), 2 + (AbsV(e.y[i][k]) \div 20000))
                   \* -2 times the log-likelihood, without the terms of the size and of the volume
                   [] e.how = "llk" -> ~Near(e.y[i][k], 1000 * Dist(e, i, k), 5 + (AbsV(e.y[i][k]) \div 10000))
                   \* (1 + beta distance / (nu (beta + 1))) nu (beta + 1)
                   [] OTHER -> ~Near(e.y[i][k], 100 * ((e.nu * (e.beta[k] + 1)) + (e.beta[k] * Dist(e, i, k))), 5 + (AbsV(e.y[i][k]) \div 2000))
            THEN Bad(s, "scores of the Gaussian back-end: " \o e.how)
       ELSE IF e.nrm # <<>> /\ (\E i \in DOMAIN e.x : ~Posterior(e.post[i]) \/ \E k, j \in DOMAIN e.mu : ~Near(e.nrm[i][k] - e.nrm[i][j], e.raw[i][k] - e.raw[i][j], 4)) THEN Bad(s, "normalised scores")
       ELSE Good(s)
    [] e.op = "up" ->
       \* every vector with its own covariance S + U: (S + U) is diagonal, in units
       IF Len(e.y) # Len(e.x) \/ (\E i \in DOMAIN e.y : Len(e.y[i]) # Len(e.mu)) THEN Bad(s, "shape of the scores")
       ELSE IF \E i \in DOMAIN e.x : \E k \in DOMAIN e.mu :
                 LET v == SumSeq([a \in DOMAIN e.S |-> Quot(500 * ((2 * e.x[i][a] * e.mu[k][a]) - (e.mu[k][a] * e.mu[k][a])), e.S[a] + e.u[i][a])])
                 IN ~Near(e.y[i][k], v, 3 + Len(e.S) + (AbsV(e.y[i][k]) \div 10000)) THEN Bad(s, "scores of the Gaussian back-end with uncertainty")
       ELSE Good(s)
    [] e.op = "upfit" ->
       \* the part of the covariance that the uncertainty of the vectors does not explain
       LET q == [e EXCEPT !.op = "fit"]
           p == IF e.pr = 0 THEN NoPrior ELSE e.prm
           old == IF e.r = 0 THEN NoPrior ELSE e.old
           u(a) == Quot(1000 * SumSeq([i \in DOMAIN e.u |-> e.u[i][a]]), Len(e.u))
           n100(k) == 25 * N(e, k)
           KK == K(e)
           o == e.obs
       IN IF \E k \in 1..KK, a \in 1..D(e) : ~Near(o.mu[k][a], Mu(q, p, old, k, a), 4) THEN Bad(s, "means of the classes")
          ELSE IF \E a \in 1..D(e) : IF ~e.upW THEN ~Near(o.S[a][a], old.S[a][a], 6)
                                     ELSE LET c == Cov(q, p, old, a, a)
                                              f == Quot(121 * u(a), 100)
                                          IN ~Near(o.S[a][a], (IF c > f THEN c ELSE f) - u(a), 25 + (c \div 100)) THEN Bad(s, "covariance without the uncertainty")
          ELSE IF \E k \in 1..KK : ~Near(o.beta[k], IF e.qb >= 0 THEN 100 * e.qb ELSE IF ~e.upmu THEN old.beta[k] ELSE IF e.pr = 0 THEN n100(k) ELSE n100(k) + B0(e, p, k), 2) THEN Bad(s, "counts of the means")
          ELSE IF ~Near(o.nu, IF e.qn >= 0 THEN 100 * KK * e.qn ELSE IF ~e.upW THEN old.nu ELSE SumSeq([k \in 1..KK |-> n100(k)]) + (IF e.pr = 0 THEN 0 ELSE N0(e, p)), 2) THEN Bad(s, "count of the covariance")
          ELSE Good(s)
    [] e.op = "q" ->
       LET n(k) == N(e, k)
           p0 == e.pr # <<>>
           pm == IF p0 THEN e.pr ELSE [mu |-> <<>>, W |-> <<>>, N |-> <<>>]
           KK == K(e)
           DD == D(e)
           \* in 1/1000
           sumN == SumSeq(pm.N)
           W0(a) == IF ~p0 THEN 1000 ELSE IF e.pn >= 0 THEN 1000 + Quot(1000 * e.pn * KK * (pm.W[a] - 1), sumN) ELSE 1000 * pm.W[a]
           n0(k) == IF ~p0 THEN 0 ELSE IF e.pn >= 0 THEN e.pn ELSE pm.N[k]
           eta(k, a) == (250 * SumSeq([i \in DOMAIN e.x |-> e.w[i][k] * e.p[i][a] * e.x[i][a]])) + (IF p0 THEN W0(a) * pm.mu[k][a] ELSE 0)
           prec(k, a) == W0(a) + (250 * SumSeq([i \in DOMAIN e.x |-> e.w[i][k] * (e.p[i][a] - 1)]))
           mean(a) == Quot(SumSeq([k \in 1..KK |-> prec(k, a)]), KK)
           nn(k) == (25 * n(k)) + (100 * n0(k))
           tot == SumSeq([k \in 1..KK |-> nn(k)])
           W(a) == IF e.qn >= 0 THEN 1000 + Quot((mean(a) - 1000) * (e.qn * KK), tot) * 100 ELSE mean(a)
           \* the same with the rest of the division
           W2(a) == IF e.qn >= 0 THEN W(a) + Quot((((mean(a) - 1000) * (e.qn * KK)) % tot) * 100, tot) ELSE W(a)
       IN IF Len(e.obs.mu) # KK \/ (\E k \in 1..KK : Len(e.obs.mu[k]) # DD) \/ Len(e.obs.W) # DD \/ Len(e.obs.N) # KK THEN Bad(s, "shape of the learned parameters")
          ELSE IF \E k \in 1..KK, a \in 1..DD : ~Near(e.obs.mu[k][a], Quot(1000 * eta(k, a), prec(k, a)), IF e.pn >= 0 THEN 10 ELSE 3) THEN Bad(s, "means of the classes, weighted by precision")
          ELSE IF \E a \in 1..DD : ~Near(e.obs.W[a], W2(a), 5 + (W2(a) \div 1000)) THEN Bad(s, "precision of the means")
          ELSE IF \E k \in 1..KK : ~Near(e.obs.N[k], IF e.qn >= 0 THEN 100 * e.qn ELSE nn(k), 2) THEN Bad(s, "counts of the classes")
          ELSE Good(s)
    [] e.op = "qeval" ->
       IF Len(e.y) # Len(e.x) \/ (\E i \in DOMAIN e.y : Len(e.y[i]) # Len(e.mu)) THEN Bad(s, "shape of the scores")
       ELSE IF \E i \in DOMAIN e.x : \E k \in DOMAIN e.mu :
                 LET v == SumSeq([a \in DOMAIN e.W |-> QTerm(e.W[a], e.p[i][a], e.mu[k][a], e.x[i][a])])
                 IN ~Near(e.y[i][k], v, 4 + Len(e.W) + (AbsV(v) \div 5000)) THEN Bad(s, "scores of the Q-scoring back-end")
       ELSE IF e.nrm # <<>> /\ (\E i \in DOMAIN e.x : ~Posterior(e.post[i]) \/ \E k, j \in DOMAIN e.mu : ~Near(2 * (e.nrm[i][k] - e.nrm[i][j]), e.y[i][k] - e.y[i][j], 6 + ((AbsV(e.y[i][k]) + AbsV(e.y[i][j])) \div 5000))) THEN Bad(s, "normalised scores")
       ELSE Good(s)
    [] e.op = "lr" ->
       \* e.pi: priors in 1/e.pd, e.v: weights of the samples, e.p: posteriors with the priors in 1/10000, e.A: weights in 1/1000, e.lam: 1/regularisation
       LET KK == Len(e.pi)
           m(k) == {i \in DOMAIN e.x : e.cls[i] = k}
           cnt(k) == Cardinality(m(k))
           \* weighted difference of posteriors and labels, in 1/1000000
           g(i, k) == Quot(100 * e.pi[e.cls[i]] * e.v[i] * (e.p[i][k] - (IF e.cls[i] = k THEN 10000 ELSE 0)), e.pd * cnt(e.cls[i]))
           cs == IF e.bin THEN {2} ELSE 1..KK
           col(k) == IF e.bin THEN 1 ELSE k
       IN IF e.nb # (IF e.bin THEN 1 ELSE KK) THEN Bad(s, "one score for each class")
          ELSE IF e.how # "ovr" /\ (\E i \in DOMAIN e.x : ~Posterior(e.p[i])) THEN Bad(s, "posteriors")
          ELSE IF e.bias /\ (\E k \in cs : ~Near(SumSeq([i \in DOMAIN e.x |-> g(i, k)]) + (e.rb[col(k)] * e.lb), 0, 600)) THEN Bad(s, "posteriors of the training data do not add up to the priors")
          ELSE IF \E k \in cs, a \in 1..D(e) : ~Near(SumSeq([i \in DOMAIN e.x |-> g(i, k) * e.x[i][a]]) + Quot(1000 * e.A[col(k)][a] * e.sh, e.lam), 0, 1500) THEN Bad(s, "gradient of the regularised objective is not zero")
          ELSE IF e.pred # e.want THEN Bad(s, "scores and posteriors do not agree")
          ELSE Good(s)
    [] e.op = "svm" ->
       IF Len(e.y) # Len(e.ref) \/ (\E i \in DOMAIN e.y : Len(e.y[i]) # Len(e.ref[i])) THEN Bad(s, "shape of the scores")
       ELSE IF \E i \in DOMAIN e.y : \E k \in DOMAIN e.y[i] : ~Near(e.y[i][k], e.ref[i][k], 3 + (AbsV(e.ref[i][k]) \div 5000)) THEN Bad(s, "scores of the support vector machine")
       ELSE Good(s)
    [] e.op = "cal" ->
       \* one score for each sample: means of targets (1) and nontargets (0), common variance, prior
       LET I(c) == {i \in DOMAIN e.x : e.y[i] = c}
           S1(c) == SumSeq([i \in DOMAIN e.x |-> IF e.y[i] = c THEN e.v[i] ELSE 0])
           S2(c) == SumSeq([i \in DOMAIN e.x |-> IF e.y[i] = c THEN e.v[i] * e.x[i] ELSE 0])
           S3(c) == SumSeq([i \in DOMAIN e.x |-> IF e.y[i] = c THEN e.v[i] * e.x[i] * e.x[i] ELSE 0])
           part(c) == Quot(100 * ((S1(c) * S3(c)) - (S2(c) * S2(c))), S1(c))
       IN IF ~Near(e.obs[1], Quot(1000 * S2(1), S1(1)), 2) \/ ~Near(e.obs[2], Quot(1000 * S2(0), S1(0)), 2) THEN Bad(s, "means of targets and nontargets")
          ELSE IF ~Near(e.obs[3], Quot(10 * (part(0) + part(1)), S1(0) + S1(1)), 12) THEN Bad(s, "common variance of targets and nontargets")
          ELSE IF ~Near(e.obs[4], Quot(1000 * S1(1), S1(0) + S1(1)), 2) THEN Bad(s, "prior of the targets")
          ELSE IF e.pred # e.want THEN Bad(s, "scores are not those of what was learned")
          ELSE Good(s)
    [] e.op = "caleval" ->
       IF Len(e.y) # Len(e.x) THEN Bad(s, "shape of the scores")
       ELSE IF \E i \in DOMAIN e.x : ~Near(2 * e.s2 * e.y[i], 1000 * ((2 * (e.m1 - e.m2) * e.x[i]) + (e.m2 * e.m2) - (e.m1 * e.m1)), 3 * e.s2) THEN Bad(s, "calibrated scores")
       ELSE Good(s)
    [] OTHER -> Bad(s, "unknown event")
=============================================================================
