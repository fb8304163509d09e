------------------------------- MODULE Metrics ------------------------------
(* hyperion/metrics: detection metrics as counts.  tar and non are sequences  *)
(* of whole numbers, the scores; observed rates are in hundred thousandths.   *)
EXTENDS Util

Miss(tar, th) == Cardinality({i \in 1..Len(tar) : tar[i] < th})
Fa(non, th) == Cardinality({i \in 1..Len(non) : non[i] >= th})
\* the achievable pairs (misses, false alarms), one for each place between distinct scores, threshold rising
Ths(tar, non) == SetToSortSeq2(Rng(tar) \cup Rng(non)) \o <<MaxS(Rng(tar) \cup Rng(non)) + 1>>
Points(tar, non) == LET T == Ths(tar, non) IN [i \in 1..Len(T) |-> <<Miss(tar, T[i]), Fa(non, T[i])>>]
\* positive when c lies below the line from a to b (misses grow, false alarms fall along the curve)
Cross(a, b, c) == ((b[1] - a[1]) * (c[2] - a[2])) - ((b[2] - a[2]) * (c[1] - a[1]))
Above(a, b, c) == Cross(a, b, c) >= 0
Hull(P) == SelectSeq([i \in 1..Len(P) |-> <<P[i], i>>], LAMBDA q : \A a \in 1..(q[2] - 1) : \A b \in (q[2] + 1)..Len(P) : ~Above(P[a], P[b], P[q[2]]))
HullPts(P) == LET H == Hull(P) IN [i \in 1..Len(H) |-> H[i][1]]
\* where the hull crosses the line misses / nt = false alarms / nn, as <<numerator, denominator>> of the rate of misses
Dg(p, nt, nn) == (p[1] * nn) - (p[2] * nt)
Eer(H, nt, nn) == LET k == MinS({i \in 1..(Len(H) - 1) : Dg(H[i + 1], nt, nn) >= 0})
                      a1 == Dg(H[k], nt, nn)
                      a2 == Dg(H[k + 1], nt, nn)
                  IN <<(H[k][1] * (a2 - a1)) - (a1 * (H[k + 1][1] - H[k][1])), nt * (a2 - a1)>>
\* cost at prior pa / pb, as numerator over nt * nn * pb (unnormalised)
Cost(p, pa, pb, nt, nn) == (pa * p[1] * nn) + ((pb - pa) * p[2] * nt)
MinCost(P, pa, pb, nt, nn) == MinS({Cost(P[i], pa, pb, nt, nn) : i \in 1..Len(P)})
Den(pa, pb, nt, nn, norm) == nt * nn * (IF norm THEN Min2(pa, pb - pa) ELSE pb)
\* the Bayes threshold, minus the log odds of the prior, in thousandths
Bayes(pa, pb) == CASE <<pa, pb>> = <<1, 2>> -> 0 [] <<pa, pb>> = <<1, 100>> -> 4595 [] <<pa, pb>> = <<1, 20>> -> 2944 [] <<pa, pb>> = <<1, 10>> -> 2197
                   [] <<pa, pb>> = <<1, 5>> -> 1386 [] <<pa, pb>> = <<1, 4>> -> 1099 [] <<pa, pb>> = <<2, 3>> -> -693 [] <<pa, pb>> = <<3, 4>> -> -1099 [] <<pa, pb>> = <<9, 10>> -> -2197
\* scores are in steps of half a unit: what is missed and falsely accepted at the Bayes threshold
ActPt(tar, non, pa, pb) == <<Cardinality({i \in 1..Len(tar) : tar[i] * 500 < Bayes(pa, pb)}), Cardinality({i \in 1..Len(non) : non[i] * 500 >= Bayes(pa, pb)})>>

(* isotonic regression of whole numbers y: the value at i is the largest, over starts, of the smallest mean; as <<sum, count>> *)
Sum(y, a, b) == SumSeq(SubSeq(y, a, b))
Less(p, q) == p[1] * q[2] < q[1] * p[2]
LowMean(y, a, i) == LET n == Len(y)
                        b == CHOOSE b \in i..n : \A c \in i..n : ~Less(<<Sum(y, a, c), c - a + 1>>, <<Sum(y, a, b), b - a + 1>>)
                    IN <<Sum(y, a, b), b - a + 1>>
Iso(y) == [i \in 1..Len(y) |-> LET L == [a \in 1..i |-> LowMean(y, a, i)]
                                  a == CHOOSE a \in 1..i : \A c \in 1..i : ~Less(L[a], L[c])
                              IN L[a]]
\* scores in rising order, targets first among equals: 1 for a target
Order(tar, non) == LET V == SetToSortSeq2(Rng(tar) \cup Rng(non)) IN
                   FlatSeq([i \in 1..Len(V) |-> [j \in 1..Count(tar, V[i]) |-> <<V[i], 1>>] \o [j \in 1..Count(non, V[i]) |-> <<V[i], 0>>]])

(* log2(1 + 2^-k) in millionths, k = 0..20; for -k add k *)
SoftT == <<1000000, 584963, 321928, 169925, 87463, 44394, 22368, 11227, 5625, 2815, 1408, 704, 352, 176, 88, 44, 22, 11, 6, 3, 1>>
Soft(k) == IF k >= 0 THEN (IF k > 20 THEN 0 ELSE SoftT[k + 1]) ELSE (IF k < -20 THEN 0 ELSE SoftT[1 - k]) + ((0 - k) * 1000000)

(*------------------------------ judging events ------------------------------*)
InitSt(x) == [none |-> TRUE]
Near(obs, num, den) == LET d == (obs * den) - (num * 100000) IN -den <= d /\ d <= den
Pairs(e) == [i \in 1..Len(e.miss) |-> <<e.miss[i], e.fa[i]>>]
\* ROC: a path from accepting all to rejecting all that passes through every achievable point
RECURSIVE SubPath(_, _, _, _)
SubPath(P, Q, i, j) == IF i > Len(P) THEN TRUE ELSE IF j > Len(Q) THEN FALSE ELSE IF P[i] = Q[j] THEN SubPath(P, Q, i + 1, j + 1) ELSE SubPath(P, Q, i, j + 1)
Mono(Q) == \A i \in 1..(Len(Q) - 1) : Q[i][1] <= Q[i + 1][1] /\ Q[i][2] >= Q[i + 1][2]
OnHull(H, p) == \E i \in 1..Len(H) : p = H[i] \/ (i < Len(H) /\ H[i][1] <= p[1] /\ p[1] <= H[i + 1][1] /\ H[i][2] >= p[2] /\ p[2] >= H[i + 1][2] /\ Cross(H[i], H[i + 1], p) = 0)
Roc(s, e) == LET P == Points(e.tar, e.non)
                 Q == Pairs(e) IN
  IF ~Mono(Q) \/ Len(Q) = 0 \/ Q[1] # P[1] \/ Q[Len(Q)] # P[Len(P)] THEN Bad(s, "the ROC does not run from accepting all to rejecting all")
  ELSE IF ~SubPath(P, Q, 1, 1) THEN Bad(s, "the ROC leaves out achievable rates " \o ToString(P))
  ELSE IF IsInj(e.tar \o e.non) /\ Q # P THEN Bad(s, "the ROC has rates that are not achievable")
  ELSE IF ~(\A j \in 1..Len(Q) : \E i \in 1..Len(P) : Q[j] = P[i] \/ (i < Len(P) /\ P[i][1] <= Q[j][1] /\ Q[j][1] <= P[i + 1][1] /\ P[i][2] >= Q[j][2] /\ Q[j][2] >= P[i + 1][2])) THEN Bad(s, "the ROC strays")
  ELSE Good(s)
Rocch(s, e) == LET H == HullPts(Points(e.tar, e.non))
                   Q == Pairs(e) IN
  IF Mono(Q) /\ SubPath(H, Q, 1, 1) /\ \A j \in 1..Len(Q) : OnHull(H, Q[j]) THEN Good(s) ELSE Bad(s, "the hull is " \o ToString(H))
EerJ(s, e) == LET H == HullPts(Points(e.tar, e.non))
                  nt == Len(e.tar)
                  nn == Len(e.non)
                  a == Eer(H, nt, nn)
                  b == Eer(H, 1, 1) IN
  IF ~Near(e.eer, a[1], a[2]) THEN Bad(s, "the equal error rate is " \o ToString(a))
  ELSE IF ~Near(e.prbep, b[1], b[2]) THEN Bad(s, "the break-even point is " \o ToString(b))
  ELSE Good(s)
Dcf(s, e) == LET P == Points(e.tar, e.non)
                 H == HullPts(P)
                 nt == Len(e.tar)
                 nn == Len(e.non) IN
  IF Len(e.min) # Len(e.priors) \/ Len(e.act) # Len(e.priors) THEN Bad(s, "one cost per prior is due")
  ELSE IF \E k \in 1..Len(e.priors) : LET p == e.priors[k] IN ~Near(e.min[k], MinCost(P, p[1], p[2], nt, nn), Den(p[1], p[2], nt, nn, e.norm)) THEN Bad(s, "the minimum cost is not the smallest over all thresholds")
  ELSE IF \E k \in 1..Len(e.priors) : LET p == e.priors[k] IN ~(OnHull(H, e.minpt[k]) /\ Cost(e.minpt[k], p[1], p[2], nt, nn) = MinCost(P, p[1], p[2], nt, nn)) THEN Bad(s, "the rates of the minimum cost are not where it is")
  ELSE IF \E k \in 1..Len(e.priors) : LET p == e.priors[k] IN e.actpt[k] # ActPt(e.tar, e.non, p[1], p[2]) THEN Bad(s, "errors at the Bayes threshold: " \o ToString([k \in 1..Len(e.priors) |-> ActPt(e.tar, e.non, e.priors[k][1], e.priors[k][2])]))
  ELSE IF \E k \in 1..Len(e.priors) : LET p == e.priors[k] IN ~Near(e.act[k], Cost(ActPt(e.tar, e.non, p[1], p[2]), p[1], p[2], nt, nn), Den(p[1], p[2], nt, nn, e.norm)) THEN Bad(s, "the actual cost is not that of the Bayes threshold")
  ELSE Good(s)
Pav(s, e) == LET g == Iso(e.y)
                 n == Len(e.y)
                 ends == [k \in 1..Len(e.width) |-> SumSeq(SubSeq(e.width, 1, k))] IN
  IF Len(e.fit) # n \/ \E i \in 1..n : ~Near(e.fit[i], g[i][1], g[i][2]) THEN Bad(s, "the closest non-decreasing fit is " \o ToString(g))
  ELSE IF SumSeq(e.width) # n \/ Len(e.height) # Len(e.width) \/ \E k \in 1..Len(e.width) : e.width[k] < 1 THEN Bad(s, "the bins do not cover the scores")
  ELSE IF \E k \in 1..Len(ends) : \E i \in (ends[k] - e.width[k] + 1)..ends[k] : ~Near(e.height[k], g[i][1], g[i][2]) THEN Bad(s, "the height of a bin is not its value")
  ELSE Good(s)
\* posteriors recovered from the optimised log likelihood ratios, in the given order of the scores, in hundred thousandths
Opt(s, e) == LET O == Order(e.tar, e.non)
                 y == [i \in 1..Len(O) |-> O[i][2]]
                 g0 == IF e.laplace THEN Iso(<<1, 0>> \o y \o <<1, 0>>) ELSE Iso(y)
                 g == IF e.laplace THEN SubSeq(g0, 3, Len(g0) - 2) ELSE g0
                 At(v) == g[CHOOSE i \in 1..Len(O) : O[i][1] = v] IN
  IF Len(e.pt) # Len(e.tar) \/ Len(e.pn) # Len(e.non) THEN Bad(s, "one ratio per score is due")
  ELSE IF \E i \in 1..Len(e.tar) : ~Near(e.pt[i], At(e.tar[i])[1], At(e.tar[i])[2]) THEN Bad(s, "the calibrated ratios of the targets are not those of the isotonic posterior")
  ELSE IF \E i \in 1..Len(e.non) : ~Near(e.pn[i], At(e.non[i])[1], At(e.non[i])[2]) THEN Bad(s, "the calibrated ratios of the non-targets are not those of the isotonic posterior")
  ELSE Good(s)
Cllr(s, e) == LET nt == Len(e.tar)
                  nn == Len(e.non)
                  a == SumSeq([i \in 1..nt |-> Soft(e.tar[i])]) \div nt
                  b == SumSeq([i \in 1..nn |-> Soft(0 - e.non[i])]) \div nn
                  w == (a + b) \div 2 IN
  IF e.cllr < w - 3 \/ e.cllr > w + 3 THEN Bad(s, "the cost of the ratios is " \o ToString(w) \o " millionths, not " \o ToString(e.cllr))
  ELSE IF e.min < e.minref - 3 \/ e.min > e.minref + 3 THEN Bad(s, "the minimum cost is not that of the calibrated ratios")
  ELSE IF e.min > Min2(e.cllr, 1000000) + 10 THEN Bad(s, "the minimum cost is above the cost")
  ELSE Good(s)
\* points of a curve that are kept: in order, ends included, and a dropped one lies inside a horizontal or vertical stretch
Filter(s, e) == LET P == e.pts
                    K == e.kept
                    D == SelectSeq([i \in 1..Len(K) |-> i], LAMBDA i : i = 1 \/ K[i] # K[i - 1])
                IN IF Len(K) > 0 /\ K[1] = P[1] /\ LET K1 == [i \in 1..Len(D) |-> K[D[i]]] IN
                       LET RECURSIVE G1(_, _)
                           G1(i, j) == IF i > Len(P) THEN j = Len(K1)
                                       ELSE IF P[i] = K1[j] THEN G1(i + 1, j)
                                       ELSE IF j < Len(K1) /\ P[i] = K1[j + 1] THEN G1(i + 1, j + 1)
                                       ELSE j < Len(K1) /\ ((K1[j][1] = K1[j + 1][1] /\ P[i][1] = K1[j][1]) \/ (K1[j][2] = K1[j + 1][2] /\ P[i][2] = K1[j][2])) /\ G1(i + 1, j)
                       IN G1(2, 1)
                   THEN Good(s) ELSE Bad(s, "the filtered curve is not the curve")
\* twice the area between the axis and the curve, in counts
Area(P) == SumSeq([i \in 1..(Len(P) - 1) |-> (P[i + 1][1] - P[i][1]) * (P[i][2] + P[i + 1][2])])
Auc(s, e) == LET H == HullPts(Points(e.tar, e.non)) IN IF Near(e.auc, Area(H), 2 * Len(e.tar) * Len(e.non)) THEN Good(s) ELSE Bad(s, "the area is " \o ToString(Area(H)))
\* confusion matrices: weights of the samples with a true and a predicted label
ConfAt(e, a, b) == SumSeq([i \in 1..Len(e.y) |-> IF e.y[i] = a /\ e.p[i] = b THEN e.w[i] ELSE 0])
Conf(s, e) ==
  LET nr == Len(e.rows)
      nc == Len(e.cols) IN
  IF Len(e.c) # nr \/ \E i \in 1..nr : Len(e.c[i]) # nc THEN Bad(s, "the confusion matrix has not the shape of its labels")
  ELSE IF \E i \in 1..nr : LET n == SumSeq([j \in 1..nc |-> ConfAt(e, e.rows[i], e.cols[j])]) IN \E j \in 1..nc : (e.norm => n > 0) /\ ~Near(e.c[i][j], ConfAt(e, e.rows[i], e.cols[j]), IF e.norm THEN n ELSE 1) THEN Bad(s, "the confusion matrix does not count the samples")
  ELSE Good(s)
Acc(s, e) == LET n == SumSeq([i \in 1..Len(e.y) |-> IF e.y[i] = e.p[i] THEN e.w[i] ELSE 0]) IN
             IF Near(e.acc, n, IF e.norm THEN SumSeq(e.w) ELSE 1) THEN Good(s) ELSE Bad(s, "the accuracy does not count the samples")
Eff(s, e) == IF Near(e.out, e.pa * e.cm, (e.pa * e.cm) + ((e.pb - e.pa) * e.cf)) THEN Good(s) ELSE Bad(s, "the effective prior is not p cm / (p cm + (1 - p) cf)")

Judge(s, e) ==
  IF e.exc # "" THEN Bad(s, e.op \o " raised " \o e.exc)
  ELSE IF ~e.same THEN Bad(s, e.op \o " changed its input")
  ELSE CASE e.op = "roc" -> Roc(s, e)
         [] e.op = "rocch" -> Rocch(s, e)
         [] e.op = "eer" -> EerJ(s, e)
         [] e.op = "dcf" -> Dcf(s, e)
         [] e.op = "pav" -> Pav(s, e)
         [] e.op = "opt" -> Opt(s, e)
         [] e.op = "cllr" -> Cllr(s, e)
         [] e.op = "filter" -> Filter(s, e)
         [] e.op = "auc" -> Auc(s, e)
         [] e.op = "conf" -> Conf(s, e)
         [] e.op = "acc" -> Acc(s, e)
         [] e.op = "eff" -> Eff(s, e)
         [] OTHER -> Bad(s, "unknown event " \o e.op)
=============================================================================
