--------------------------------- MODULE Plda ---------------------------------
(* hyperion/pdfs/plda: probabilistic linear discriminant analysis.             *)
(* A sample of a class is x = mu + A (y + e), with y shared by the class; in   *)
(* the coordinates z = A^-1 (x - mu), |det A| = 1, dimensions are independent: *)
(* the variances of y are bn[i]/q, and those of e sn[i]/q.  All the models     *)
(* (full rank, simplified, full) are parameterisations of this.                *)
(* A class with samples of weight 1/h: n (their number) and f (sum of z).      *)
EXTENDS Util, LnTab
U == 10000
SumS(S, F(_)) == LET RECURSIVE G(_)
                     G(T) == IF T = {} THEN 0 ELSE LET t == MinS(T) IN F(t) + G(T \ {t})
                 IN G(S)
Near(a, b, t) == a - b <= t /\ b - a <= t
NearAll(a, b, t) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Near(a[i], b[i], t)
AbsV(a) == IF a < 0 THEN -a ELSE a
Dims(m) == DOMAIN m.bn
(*------------------------------ likelihood ratios ---------------------------*)
\* f/k: sum of the samples, n/h: their number; in 1/1000
Quad(m, i, n, f, k, h) == (((f * f * m.q * m.bn[i]) * 1000) \div (k * k)) \div (h * m.sn[i] * ((h * m.sn[i]) + (n * m.bn[i])))
LnDet(m, i, n, h) == Ln1000[(h * m.sn[i]) + (n * m.bn[i])]
Llr(m, n1, f1, k1, n2, f2, k2, h) ==
  SumS(Dims(m), LAMBDA i :
    (Quad(m, i, n1 + n2, (f1[i] * k2) + (f2[i] * k1), k1 * k2, h) - Quad(m, i, n1, f1[i], k1, h) - Quad(m, i, n2, f2[i], k2, h)
     + LnDet(m, i, n1, h) + LnDet(m, i, n2, h) - LnDet(m, i, n1 + n2, h) - LnDet(m, i, 0, h))) \div 2
Sum(m, c) == [i \in Dims(m) |-> SumSeq([j \in DOMAIN c |-> c[j][i]])]
\* classes c1, c2: sequences of samples
Book(m, c1, c2, h) == Llr(m, Len(c1), Sum(m, c1), 1, Len(c2), Sum(m, c2), 1, h)
Vavg(m, c1, c2) == Llr(m, 1, Sum(m, c1), Len(c1), 1, Sum(m, c2), Len(c2), 1)
One(m, a, b) == Llr(m, 1, a, 1, 1, b, 1, 1)
Savg(m, c1, c2) == SumSeq([j \in DOMAIN c1 |-> SumSeq([k \in DOMAIN c2 |-> One(m, c1[j], c2[k])])]) \div (Len(c1) * Len(c2))
Score(m, method, c1, c2, h) == CASE method \in {"book", "1vs1"} -> Book(m, c1, c2, h) [] method = "vavg" -> Vavg(m, c1, c2) [] OTHER -> Savg(m, c1, c2)
(*--------------------------- posteriors and evidence ------------------------*)
PostMeanH(m, n, f, i, h) == (U * m.bn[i] * f[i]) \div ((h * m.sn[i]) + (n * m.bn[i]))
PostVarH(m, n, i, h) == ((U * m.bn[i] * h * m.sn[i]) \div m.q) \div ((h * m.sn[i]) + (n * m.bn[i]))
PostMean(m, n, f, i) == PostMeanH(m, n, f, i, 1)
PostVar(m, n, i) == PostVarH(m, n, i, 1)
Ln2Pi == 1838
\* log-likelihood of a class whose samples have weights w/h, in 1/1000
EvidH(m, c, w, h) ==
  LET n == SumSeq(w)
      f == [i \in Dims(m) |-> SumSeq([j \in DOMAIN c |-> w[j] * c[j][i]])]
      s == [i \in Dims(m) |-> SumSeq([j \in DOMAIN c |-> w[j] * c[j][i] * c[j][i]])]
  IN SumS(Dims(m), LAMBDA i : -((((n * (Ln2Pi + Ln1000[m.sn[i]] - Ln1000[m.q])) \div h) + LnDet(m, i, n, h) - Ln1000[h * m.sn[i]] + ((1000 * s[i] * m.q) \div (h * m.sn[i])) - Quad(m, i, n, f[i], 1, h)) \div 2))
Evid(m, c, w) == EvidH(m, c, w, 1)
(*------------------------- a round of training (diagonal) -------------------*)
\* full-rank model: new mean, and variances of y and e, in 1/U
EmStep(m, cs, flags) ==
  LET M == Len(cs)
      n(c) == Len(cs[c])
      f(c) == Sum(m, cs[c])
      p(c, i) == PostMean(m, n(c), f(c), i)
      v(c, i) == PostVar(m, n(c), i)
      N == SumSeq([c \in 1..M |-> n(c)])
      mean(i) == SumSeq([c \in 1..M |-> p(c, i)]) \div M
      p2(c, i) == (p(c, i) * (p(c, i) \div 10)) \div (U \div 10)
      s(i) == SumSeq([c \in 1..M |-> SumSeq([j \in DOMAIN cs[c] |-> cs[c][j][i] * cs[c][j][i]])])
  IN [mu |-> [i \in Dims(m) |-> IF flags[1] THEN mean(i) ELSE 0],
      b |-> [i \in Dims(m) |-> IF ~flags[2] THEN (U * m.bn[i]) \div m.q
                               ELSE (SumSeq([c \in 1..M |-> v(c, i) + p2(c, i)]) \div M) - (IF flags[1] THEN (mean(i) * (mean(i) \div 10)) \div (U \div 10) ELSE 0)],
      s |-> [i \in Dims(m) |-> IF ~flags[3] THEN (U * m.sn[i]) \div m.q
                               ELSE ((U * s(i)) - (2 * SumSeq([c \in 1..M |-> f(c)[i] * p(c, i)])) + SumSeq([c \in 1..M |-> n(c) * (p2(c, i) + v(c, i))])) \div N]]
(*------------------------------ averages of models --------------------------*)
\* weights in halves; a weight of zero keeps the covariance
Mix(m, o, wb, ww) == [m EXCEPT !.q = 2 * @, !.bn = [i \in Dims(m) |-> (wb * o.bn[i]) + ((2 - wb) * m.bn[i])], !.sn = [i \in Dims(m) |-> (ww * o.sn[i]) + ((2 - ww) * m.sn[i])]]
Root(v) == CHOOSE a \in 0..30 : a * a = v
\* what is trained unless told otherwise
Options(k) == CASE k = "frplda" -> {"mu", "B", "W", "fullcov"} [] k = "splda" -> {"mu", "V", "W", "fullcov"} [] OTHER -> {"mu", "V", "U", "D"}
(*------------------------------- judging events -----------------------------*)
InitSt(x) == [m |-> [kind |-> ""]]
Tol(v) == 12 + (AbsV(v) \div 300)
RawF(e, c, d) == SumSeq([j \in DOMAIN e.x |-> IF e.p[j][c] = 0 THEN 0 ELSE e.p[j][c] * e.w[j] * e.x[j][d]])
RawN(e, c) == SumSeq([j \in DOMAIN e.x |-> e.p[j][c] * e.w[j]])
RawS(e, a, b) == SumSeq([j \in DOMAIN e.x |-> SumSeq(e.p[j]) * e.w[j] * e.x[j][a] * e.x[j][b]])
Judge(s, e) ==
  IF e.exc # "" THEN Bad(s, e.op \o (IF e.op = "llr" THEN " (" \o e.method \o ")" ELSE "") \o " raised " \o e.exc)
  ELSE IF e.op # "new" /\ ~e.same THEN Bad(s, e.op \o " changed its inputs")
  ELSE
  CASE e.op = "new" -> Good([m |-> e.m])
    [] e.op = "stats" ->
       LET M == Len(e.p[1])
           D == Len(e.x[1])
           n == [c \in 1..M |-> RawN(e, c)]
           f == [c \in 1..M |-> [d \in 1..D |-> RawF(e, c, d)]]
           S == [a \in 1..D |-> [b \in 1..D |-> RawS(e, a, b)]]
           tot == [d \in 1..D |-> SumSeq([c \in 1..M |-> f[c][d]])]
       IN IF e.n # n \/ e.f # f \/ e.s # S THEN Bad(s, "statistics")
          ELSE IF e.cn # n \/ e.cf # [c \in 1..M |-> [d \in 1..D |-> f[c][d] - (n[c] * e.mu[d])]]
                  \/ e.cs # [a \in 1..D |-> [b \in 1..D |-> S[a][b] - (tot[a] * e.mu[b]) - (tot[b] * e.mu[a]) + (SumSeq(n) * e.mu[a] * e.mu[b])]] THEN Bad(s, "centred statistics")
          ELSE Good(s)
    [] e.op = "llr" ->
       IF Len(e.got) # Len(e.c1) \/ \E a \in DOMAIN e.got : Len(e.got[a]) # Len(e.c2) THEN Bad(s, "shape of the scores (" \o e.method \o ")")
       ELSE IF e.method = "vavg-lnorm" THEN IF \A a \in DOMAIN e.got : NearAll(e.got[a], e.ref[a], 3) THEN Good(s) ELSE Bad(s, "scores of length normalized averages")
       ELSE IF \E a \in DOMAIN e.c1, b \in DOMAIN e.c2 : LET v == Score(s.m, e.method, e.c1[a], e.c2[b], e.h) IN ~Near(e.got[a][b], v, Tol(v)) THEN Bad(s, "scores (" \o e.method \o ") of " \o s.m.kind)
       ELSE Good(s)
    [] e.op = "post" ->
       IF \E c \in DOMAIN e.c1, i \in Dims(s.m) : ~Near(e.y[c][i], PostMeanH(s.m, Len(e.c1[c]), Sum(s.m, e.c1[c]), i, e.h), 5) THEN Bad(s, "posterior means of " \o s.m.kind)
       ELSE IF \E c \in DOMAIN e.c1, i \in Dims(s.m) : ~Near(e.v[c][i], PostVarH(s.m, Len(e.c1[c]), i, e.h), 5) \/ ~e.diag THEN Bad(s, "posterior covariances of " \o s.m.kind)
       ELSE Good(s)
    [] e.op = "elbo" ->
       LET v == SumSeq([c \in DOMAIN e.c1 |-> EvidH(s.m, e.c1[c], e.w[c], e.h)])
       IN IF ~Near(e.got, v, 30 + (5 * SumSeq([c \in DOMAIN e.w |-> SumSeq(e.w[c])]))) THEN Bad(s, "objective of " \o s.m.kind) ELSE Good(s)
    [] e.op = "step" ->
       LET t == EmStep(s.m, e.c1, e.flags)
       IN IF ~NearAll(e.mu, t.mu, 8) THEN Bad(s, "mean after a round of training")
          ELSE IF ~NearAll(e.b, t.b, 80) THEN Bad(s, "covariance between classes after a round of training")
          ELSE IF ~NearAll(e.s, t.s, 80) THEN Bad(s, "covariance within classes after a round of training")
          ELSE Good([m |-> [kind |-> "trained"]])
    [] e.op = "mix" -> Good([m |-> Mix(s.m, e.o, e.wb, e.ww)])
    [] e.op = "sample" ->
       IF Len(e.x) # e.n * e.k THEN Bad(s, "number of samples drawn from " \o s.m.kind)
       ELSE IF \E j \in DOMAIN e.x, i \in Dims(s.m) : e.x[j][i] # e.v * (Root(s.m.bn[i]) + Root(s.m.un[i]) + Root(s.m.sn[i] - s.m.un[i])) THEN Bad(s, "samples drawn from " \o s.m.kind)
       ELSE Good(s)
    [] e.op = "opts" ->
       IF e.cls # e.kind \/ {e.on[i] : i \in DOMAIN e.on} # Options(e.kind) \ {e.off[i] : i \in DOMAIN e.off} THEN Bad(s, "training options of " \o e.kind)
       ELSE IF e.dims # <<IF e.kind = "frplda" THEN 0 ELSE e.y, IF e.kind = "plda" THEN e.z ELSE 0>> THEN Bad(s, "dimensions of " \o e.kind) ELSE Good(s)
    [] OTHER -> \* fit: any data; totals in 1/1000
       IF ~NearAll(e.elbo, SubSeq(e.lls, 1, Len(e.elbo)), 40) THEN Bad(s, "objective while training " \o e.kind)
       ELSE IF \E i \in 2..Len(e.lls) : e.lls[i] < e.lls[i - 1] - 5 - (AbsV(e.lls[i]) \div 20000) THEN Bad(s, "an epoch made " \o e.kind \o " worse")
       ELSE IF \E i \in DOMAIN e.changed : e.changed[i] /\ ~e.flags[i] THEN Bad(s, "parameters that are not to be updated changed in " \o e.kind)
       \* parameters drawn at random are not the most likely ones
       ELSE IF e.moves /\ \E i \in DOMAIN e.changed : e.flags[i] /\ ~e.changed[i] THEN Bad(s, "parameters that are to be updated stay in " \o e.kind)
       ELSE IF ~e.rounds THEN Bad(s, "rounds of training of " \o e.kind)
       ELSE IF ~e.adapted THEN Bad(s, "adaptation of " \o e.kind)
       ELSE IF ~e.diag THEN Bad(s, "covariance that was to be diagonal is not in " \o e.kind)
       ELSE IF ~NearAll(e.avg, [i \in DOMAIN e.elbo |-> (4 * e.elbo[i]) \div e.n4], 3) THEN Bad(s, "objectives per sample of " \o e.kind)
       ELSE IF ~NearAll(e.val, e.vll, 40) THEN Bad(s, "objective of validation data of " \o e.kind)
       ELSE Good(s)
=============================================================================
