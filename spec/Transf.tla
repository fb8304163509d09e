------------------------------- MODULE Transf -------------------------------
(* Transforms learned from data.  Samples are given in coordinates z in which *)
(* the data are uncorrelated by design; the code sees x = off + z A.           *)
(* State: the transforms made so far,                                          *)
(*   [kind, k, umu, uT, m, q, s0, ord, sg]: centre m, scatter q with total     *)
(*   count s0, order of the axes in the output, signs seen (0: not yet).       *)
(* Outputs are recorded in hundredths.                                         *)
EXTENDS Util

AbsV(x) == IF x < 0 THEN -x ELSE x
Near(a, b, t) == AbsV(a - b) <= t
Kinds == {"mvn", "cw", "lnorm", "pca", "lda", "nda", "nap", "cwup", "lnormup"}
ByClass(kind) == kind \in {"lda", "nda", "nap"}
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
\* p / s in 1/10000, 0 <= p <= s <= 20000000
Frac4(p, s) == (((100 * p) \div s) * 100) + (((((100 * p) % s)) * 100) \div s)

(*------------------------------- statistics ---------------------------------*)
Dim(z) == Len(z[1])
Tot(w) == SumSeq(w)
WSum(z, w, a) == SumSeq([i \in DOMAIN z |-> w[i] * z[i][a]])
Mean(z, w) == [a \in 1..Dim(z) |-> WSum(z, w, a) \div Tot(w)]
Cross(z, w, m, a, b) == SumSeq([i \in DOMAIN z |-> w[i] * (z[i][a] - m[a]) * (z[i][b] - m[b])])
In(z, cls, c) == SelectSeq([i \in DOMAIN z |-> <<z[i], cls[i]>>], LAMBDA p : p[2] = c)
Ofc(z, cls, c) == [i \in DOMAIN In(z, cls, c) |-> In(z, cls, c)[i][1]]
Ones(z) == [i \in DOMAIN z |-> 1]
ClassSeq(cls) == SetToSortSeq2(Rng(cls))
CMean(z, cls, c) == Mean(Ofc(z, cls, c), Ones(Ofc(z, cls, c)))
CMeans(z, cls) == [c \in DOMAIN ClassSeq(cls) |-> CMean(z, cls, ClassSeq(cls)[c])]
\* scatters within and between classes, each class with the same weight
Within(z, cls, a, b) == SumSeq([c \in DOMAIN ClassSeq(cls) |->
                           LET y == Ofc(z, cls, ClassSeq(cls)[c]) IN (8 * Cross(y, Ones(y), Mean(y, Ones(y)), a, b)) \div Len(y)])
Between(z, cls, a, b) == LET p == CMeans(z, cls) IN Cross(p, Ones(p), Mean(p, Ones(p)), a, b)
\* axes in the order of decreasing V / Q
RECURSIVE Order(_, _, _)
Order(S, V, Q) == IF S = {} THEN <<>> ELSE LET a == CHOOSE a \in S : \A b \in S \ {a} : V[a] * Q[b] > V[b] * Q[a] IN <<a>> \o Order(S \ {a}, V, Q)
Distinct(D, V, Q) == \A a, b \in 1..D : a # b => V[a] * Q[b] # V[b] * Q[a]

Stats(kind, z, w, cls) ==
  LET D == Dim(z)
      one == [a \in 1..D |-> 1]
  IN IF ByClass(kind)
     THEN LET q == [a \in 1..D |-> Within(z, cls, a, a)]
              b == [a \in 1..D |-> Between(z, cls, a, a)]
              p == CMeans(z, cls)
          IN [m |-> Mean(p, Ones(p)), q |-> q, s0 |-> 8 * Len(p), ord |-> IF kind = "nap" THEN Order(1..D, q, one) ELSE Order(1..D, b, q)]
     ELSE LET m == Mean(z, w)
              q == [a \in 1..D |-> Cross(z, w, m, a, a)]
          IN [m |-> m, q |-> q, s0 |-> Tot(w), ord |-> IF kind = "mvn" THEN [a \in 1..D |-> a] ELSE Order(1..D, q, one)]
\* what the data have to be for the expected result to be known exactly
Designed(kind, z, w, cls) ==
  LET D == Dim(z)
      one == [a \in 1..D |-> 1]
  IN IF ByClass(kind)
     THEN /\ \A a, b \in 1..D : a # b => Within(z, cls, a, b) = 0 /\ Between(z, cls, a, b) = 0
          /\ IF kind = "nap" THEN Distinct(D, [a \in 1..D |-> Within(z, cls, a, a)], one)
             ELSE Distinct(D, [a \in 1..D |-> Between(z, cls, a, a)], [a \in 1..D |-> Within(z, cls, a, a)])
     ELSE LET m == Mean(z, w)
          IN kind = "mvn" \/ (Distinct(D, [a \in 1..D |-> Cross(z, w, m, a, a)], one) /\ \A a, b \in 1..D : a # b => Cross(z, w, m, a, b) = 0)

(*------------------------------- predictions --------------------------------*)
OutDim(t) == IF t.k > 0 /\ t.kind # "nap" THEN t.k ELSE Len(t.m)
\* squares of what the output has to be, in units of 1/100, times q
Dev(t, z, a) == z[a] - t.m[a]
Part(t, z, a) == Dev(t, z, a) * Dev(t, z, a) * Prod([b \in DOMAIN t.q |-> IF b = a THEN 1 ELSE t.q[b]])
PSum(t, z) == SumSeq([a \in DOMAIN t.q |-> Part(t, z, a)])
Slack(y) == (2 * AbsV(y)) + 2
OkOut(t, z, y, j) ==
  LET a == t.ord[j]
      d == Dev(t, z, a)
  IN IF AbsV(y) > 2400 THEN FALSE
     ELSE CASE t.kind = "pca" -> Near(AbsV(y), 100 * AbsV(d), 1)
            [] t.kind \in {"lnorm", "lnormup"} ->
               LET S == PSum(t, z)
                   K == IF t.kind = "lnorm" THEN Len(t.m) ELSE 1
               IN IF S = 0 THEN y = 0 ELSE Near(y * y, K * Frac4(Part(t, z, a), S), Slack(y) + K)
            [] OTHER -> IF t.q[a] * AbsV(y) > 860000 THEN FALSE ELSE Near(y * y * t.q[a], 10000 * t.s0 * d * d, Slack(y) * t.q[a])
SignOf(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
\* variances of the outputs from those of the inputs; R / den rotates z to x
VarNum(e, i, a) == SumSeq([d \in DOMAIN e.v[i] |-> e.R[a][d] * e.R[a][d] * e.v[i][d]])
OkVar(t, e, i, j) ==
  LET a == t.ord[j]
      w == IF t.kind = "cwup" THEN (100 * t.s0 * VarNum(e, i, a)) \div (e.den * e.den * t.q[a])
           ELSE (100 * VarNum(e, i, a) * Prod([b \in DOMAIN t.q |-> IF b = a THEN 1 ELSE t.q[b]])) \div (e.den * e.den * PSum(t, e.z[i]))
  IN (t.kind = "lnormup" /\ PSum(t, e.z[i]) = 0) \/ Near(e.yv[i][j], w, 2 + (AbsV(w) \div 500))

Signs(t, e) == [j \in 1..OutDim(t) |->
                 IF t.sg[j] # 0 THEN t.sg[j]
                 ELSE LET I == {i \in DOMAIN e.z : Dev(t, e.z[i], t.ord[j]) # 0 /\ e.y[i][j] # 0}
                      IN IF I = {} THEN 0 ELSE LET i == MinS(I) IN SignOf(Dev(t, e.z[i], t.ord[j])) * SignOf(e.y[i][j])]

(*-------------------------------- judging -----------------------------------*)
InitSt(x) == [tr |-> <<>>]
Put(s, r, t) == IF r > Len(s.tr) THEN [s EXCEPT !.tr = Append(@, t)] ELSE [s EXCEPT !.tr[r] = t]
Learn(t, z, w, cls) ==
  LET st == Stats(t.kind, z, w, cls)
      t1 == IF t.umu THEN [t EXCEPT !.m = st.m] ELSE t
  IN IF t.uT THEN [t1 EXCEPT !.q = st.q, !.s0 = st.s0, !.ord = st.ord, !.sg = [a \in DOMAIN st.m |-> IF t.kind = "mvn" THEN 1 ELSE 0]] ELSE t1

Fix2(x) == x
\* classes of a data set and integer statistics of any data, in 1/1000
Close(G, W, t) == \A a \in DOMAIN W : \A b \in DOMAIN W[a] : Near(G[a][b], W[a][b], t)
RefMeans(x, cls, c, a) == LET y == Ofc(x, cls, c) IN (1000 * WSum(y, Ones(y), a)) \div Len(y)
RefMu(x, cls, a) == LET C == ClassSeq(cls) IN SumSeq([c \in DOMAIN C |-> RefMeans(x, cls, C[c], a)]) \div Len(C)
RefSw(x, cls, a, b) ==
  LET C == ClassSeq(cls)
  IN SumSeq([c \in DOMAIN C |-> LET y == Ofc(x, cls, C[c])
                                    n == Len(y)
                                IN (1000 * ((n * SumSeq([i \in DOMAIN y |-> y[i][a] * y[i][b]])) - (WSum(y, Ones(y), a) * WSum(y, Ones(y), b)))) \div (n * n)]) \div Len(C)
RefSb(x, cls, a, b) ==
  LET C == ClassSeq(cls)
      M == Len(C)
      ma == [c \in DOMAIN C |-> RefMeans(x, cls, C[c], a)]
      mb == [c \in DOMAIN C |-> RefMeans(x, cls, C[c], b)]
      sa == SumSeq(ma) \div M
      sb == SumSeq(mb) \div M
  IN SumSeq([c \in DOMAIN C |-> ((ma[c] - sa) * (mb[c] - sb)) \div 1000]) \div M

(* nearest neighbours: K nearest samples of class c to sample l, itself included in its own class *)
D2(x, i, l) == SumSeq([a \in DOMAIN x[i] |-> (x[i][a] - x[l][a]) * (x[i][a] - x[l][a])])
Mem(cls, c) == {i \in DOMAIN cls : cls[i] = c}
Kth(x, cls, c, l, K) == CHOOSE v \in {D2(x, i, l) : i \in Mem(cls, c)} :
                          /\ Cardinality({i \in Mem(cls, c) : D2(x, i, l) < v}) < K
                          /\ Cardinality({i \in Mem(cls, c) : D2(x, i, l) <= v}) >= K
NN(x, cls, c, l, K) == {i \in Mem(cls, c) : D2(x, i, l) <= Kth(x, cls, c, l, K)}
NoTies(x, cls, K) == \A c \in Rng(cls), l \in DOMAIN x : Cardinality(NN(x, cls, c, l, K)) = K
RECURSIVE SumAt(_, _, _)
SumAt(x, I, a) == IF I = {} THEN 0 ELSE LET i == CHOOSE i \in I : TRUE IN x[i][a] + SumAt(x, I \ {i}, a)
Delta(x, cls, c, l, K, a) == (K * x[l][a]) - SumAt(x, NN(x, cls, c, l, K), a)    \* times K
Pw(v, al) == IF al = 0 THEN 1 ELSE v
NSw(x, cls, K, a, b) ==
  LET C == ClassSeq(cls)
  IN SumSeq([c \in DOMAIN C |-> (100 * SumSeq([l \in DOMAIN x |-> IF cls[l] # C[c] THEN 0 ELSE Delta(x, cls, C[c], l, K, a) * Delta(x, cls, C[c], l, K, b)])) \div (K * K * Cardinality(Mem(cls, C[c])))]) \div Len(C)
NW(x, cls, K, al, i, j, l) == LET u == Pw(Kth(x, cls, i, l, K), al)
                                  v == Pw(Kth(x, cls, j, l, K), al)
                              IN (30000 * Min2(u, v)) \div (u + v)
NSb(x, cls, K, al, a, b) ==
  LET C == ClassSeq(cls)
      All(i, F(_, _)) == SumSeq([l \in DOMAIN x |-> IF cls[l] # i THEN 0 ELSE SumSeq([j \in DOMAIN C |-> IF C[j] = i THEN 0 ELSE F(C[j], l)])])
  IN SumSeq([c \in DOMAIN C |->
       LET num == All(C[c], LAMBDA j, l : NW(x, cls, K, al, C[c], j, l) * Delta(x, cls, j, l, K, a) * Delta(x, cls, j, l, K, b))
           den == Max2(1, K * K * All(C[c], LAMBDA j, l : NW(x, cls, K, al, C[c], j, l)))
       IN (100 * (num \div den)) + ((100 * (num % den)) \div den)]) \div Len(C)

Judge(s, e) ==
  IF e.exc # "" THEN Bad(s, e.op \o " " \o e.kind \o ": raised " \o e.exc)
  ELSE IF ~e.same THEN Bad(s, e.op \o " " \o e.kind \o ": modified its arguments")
  ELSE
  CASE e.op = "new" -> Good(Put(s, Len(s.tr) + 1, e.t))
    [] e.op = "fit" ->
       IF ~Designed(e.kind, e.z, e.w, e.cls) THEN Bad(s, "data are not as designed")
       ELSE Good(Put(s, e.r, Learn(s.tr[e.r], e.z, e.w, e.cls)))
    [] e.op = "predict" ->
       LET t == s.tr[e.r]
           sg == Signs(t, e)
       IN IF Len(e.y) # Len(e.z) \/ \E i \in DOMAIN e.y : Len(e.y[i]) # OutDim(t) THEN Bad(s, "shape of the output of " \o t.kind)
          ELSE IF t.kind = "nap" THEN
               (* the directions with the largest scatter within classes are gone, the others untouched *)
               IF \E i \in DOMAIN e.z : \E j \in DOMAIN t.ord : ~Near(e.y[i][t.ord[j]], IF j <= t.k THEN 0 ELSE e.zoff[t.ord[j]] + (100 * e.z[i][t.ord[j]]), 1) THEN Bad(s, "projection of nap") ELSE Good(s)
          ELSE IF \E i \in DOMAIN e.z : \E j \in 1..OutDim(t) : ~OkOut(t, e.z[i], e.y[i][j], j) THEN Bad(s, "output of " \o t.kind)
          ELSE IF \E i \in DOMAIN e.z : \E j \in 1..OutDim(t) : AbsV(e.y[i][j]) > 1 /\ SignOf(e.y[i][j]) # sg[j] * SignOf(Dev(t, e.z[i], t.ord[j])) THEN Bad(s, "signs of the output of " \o t.kind)
          ELSE IF t.kind \in {"cwup", "lnormup"} /\ \E i \in DOMAIN e.z : \E j \in 1..OutDim(t) : ~OkVar(t, e, i, j) THEN Bad(s, "uncertainties of the output of " \o t.kind)
          ELSE Good([s EXCEPT !.tr[e.r].sg = [j \in DOMAIN t.sg |-> IF j \in DOMAIN sg THEN sg[j] ELSE 0]])
    [] e.op = "sbsw" ->
       LET D == Dim(e.x)
       IN IF e.M # Cardinality(Rng(e.cls)) THEN Bad(s, "number of classes of sbsw")
          ELSE IF \E a \in 1..D : ~Near(e.mu[a], RefMu(e.x, e.cls, a), 2) THEN Bad(s, "mean of sbsw")
          ELSE IF ~Close(e.Sw, [a \in 1..D |-> [b \in 1..D |-> RefSw(e.x, e.cls, a, b)]], 3) THEN Bad(s, "scatter within classes")
          ELSE IF ~Close(e.Sb, [a \in 1..D |-> [b \in 1..D |-> RefSb(e.x, e.cls, a, b)]], 60) THEN Bad(s, "scatter between classes")
          ELSE Good(s)
    [] e.op = "nsbsw" ->
       LET D == Dim(e.x)
       IN IF ~NoTies(e.x, e.cls, e.K) THEN Good(s)
          ELSE IF \E a \in 1..D : ~Near(e.mu[a], RefMu(e.x, e.cls, a), 2) THEN Bad(s, "mean of nsbsw")
          ELSE IF ~Close(e.Sw, [a \in 1..D |-> [b \in 1..D |-> NSw(e.x, e.cls, e.K, a, b)]], 3) THEN Bad(s, "nearest neighbour scatter within classes")
          ELSE IF \E a, b \in 1..D : LET w == NSb(e.x, e.cls, e.K, e.al, a, b) IN ~Near(e.Sb[a][b], w, 8 + ((NSb(e.x, e.cls, e.K, e.al, a, a) + NSb(e.x, e.cls, e.K, e.al, b, b)) \div 100)) THEN Bad(s, "nearest neighbour scatter between classes")
          ELSE Good(s)
    [] e.op = "agree" ->
       IF \E i \in DOMAIN e.ref : Len(e.ref[i]) # e.dim THEN Bad(s, "dimension of nda")
       ELSE IF Len(e.y) # Len(e.ref) \/ \E i \in DOMAIN e.y : Len(e.y[i]) # e.dim THEN Bad(s, "shape of the output of the tool")
       ELSE IF e.gap /\ \E i \in DOMAIN e.y : \E j \in 1..e.dim : ~Near(e.y[i][j], e.ref[i][j], 3 + (AbsV(e.ref[i][j]) \div 500)) THEN Bad(s, "the tool and the library do not agree")
       ELSE Good(s)
    [] OTHER -> \* gauss: ranks; p in 1/1000 of 1/(n + 2)
       LET n == Len(e.x)
           m == IF e.mx > 0 /\ n > e.mx THEN e.mx ELSE n
           Lo(z, a) == Cardinality({i \in DOMAIN e.x : e.x[i][a] < z})
           Hi(z, a) == Cardinality({i \in DOMAIN e.x : e.x[i][a] <= z})
       IN IF Len(e.p) # Len(e.z) THEN Bad(s, "shape of the output of the gaussianizer")
          ELSE IF \E i \in DOMAIN e.z : \E a \in DOMAIN e.z[i] :
                    IF m = n THEN e.p[i][a] < (1000 * (Lo(e.z[i][a], a) + 1)) - 5 \/ e.p[i][a] > (1000 * (Hi(e.z[i][a], a) + 1)) + 5
                    ELSE \* the kept vectors are evenly spaced in rank, from the lowest to the highest
                         LET lo == Lo(e.z[i][a], a)
                             hi == Hi(e.z[i][a], a)
                         IN IF hi = 0 THEN e.p[i][a] > 1005 \/ e.p[i][a] < 995
                            ELSE IF lo = n THEN e.p[i][a] < (1000 * (m + 1)) - 5 \/ e.p[i][a] > (1000 * (m + 1)) + 5
                            ELSE \/ 2 * (e.p[i][a] - 995) * (n - 1) < 1000 * ((2 * lo) - 3) * (m - 1)
                                 \/ 2 * (e.p[i][a] - 1005) * (n - 1) > (1000 * ((2 * hi) - 1) * (m - 1)) + (2000 * (n - 1))
               THEN Bad(s, "quantiles of the gaussianizer")
          ELSE IF \E i, j \in DOMAIN e.z : \E a \in DOMAIN e.z[i] : e.z[i][a] <= e.z[j][a] /\ e.p[i][a] > e.p[j][a] + 2 THEN Bad(s, "the gaussianizer does not keep the order")
          ELSE Good(s)
=============================================================================
