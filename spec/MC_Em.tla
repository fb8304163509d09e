-------------------------------- MODULE MC_Em --------------------------------
(* All small mixtures and weighted samples.                                    *)
EXTENDS Em, Json
CONSTANTS KINDS, DS, NX, PM, EVERY
VARIABLES x, w, m, done
KA == {"diag", "tied", "gmm"}
DA == {-1, 0, 2}
DB == {-1, 2}
vars == <<x, w, m, done>>
Pt == [c : {1, 3}, d : {<<v>> : v \in DS}]
Mk(k, c2, p1, p2, um, ul, up, mn) ==
  [kind |-> k, dim |-> 1, cl |-> <<1, c2, 3>>, p |-> <<p1, p2, 1>>, pi |-> <<(U * p1) \div (p1 + p2 + 1), (U * p2) \div (p1 + p2 + 1), U \div (p1 + p2 + 1)>>,
   mu |-> <<<<0>>, <<IF c2 = 1 THEN 0 ELSE U>>, <<U>>>>, V |-> <<<<U>>, <<U>>, <<U>>>>, um |-> um, ul |-> ul, up |-> up, fl |-> <<1, 2>>, mn |-> mn]
None == [kind |-> "none"]
Init == /\ x \in [1..NX -> Pt] /\ w \in [1..NX -> 1..2] /\ (PM > 1 \/ w[NX] = 1)
        /\ {x[i].c : i \in 1..NX} = {1, 3}
        /\ m = None /\ done = FALSE
Flags == {<<TRUE, TRUE, TRUE>>, <<FALSE, TRUE, TRUE>>, <<TRUE, FALSE, TRUE>>, <<TRUE, TRUE, FALSE>>}
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<x, w>>
        /\ \E k \in KINDS, c2 \in {1, 3}, p1 \in 1..2, p2 \in 1..PM, f \in Flags, mn \in {0, 13} :
             m' = Mk(k, c2, p1, p2, f[1], f[2], f[3], IF f = <<TRUE, TRUE, TRUE>> /\ k # "gmm" THEN mn ELSE 0)
        /\ \A c \in {1, 3} : \E k \in 1..3 : m'.cl[k] = c /\ ~Few(m', x, w, k)      \* every cluster keeps a component
Spec == Init /\ [][Next]_vars
S == Step(m, x, w)
All == DOMAIN x
Tot(I) == LET t == Stats(m, x, w, I) IN SumS(1..K(m), LAMBDA k : t[k].n)
Add(I) == LET a == Stats(m, x, w, I)
              b == Stats(m, x, w, All \ I)
              t == Stats(m, x, w, All)
          IN \A k \in 1..K(m) : /\ t[k].n = a[k].n + b[k].n /\ t[k].f[1] = a[k].f[1] + b[k].f[1] /\ t[k].s[1] = a[k].s[1] + b[k].s[1]
\* statistics: total weight, any division
StatsOk == done => /\ Tot(All) = L * SumS(All, LAMBDA i : w[i])
                   /\ \A I \in SUBSET All : Add(I)
\* a weight of two is the same as a sample twice
Twice(i) == Stats(m, Append(x, x[i]), [j \in 1..(NX + 1) |-> IF j = NX + 1 THEN w[i] ELSE w[j]], 1..(NX + 1)) = Stats(m, x, [w EXCEPT ![i] = 2 * @], All)
RepeatOk == done => Twice(1)
\* a second round changes nothing, unless components were dropped in the first
FixOk == (done /\ \A k \in 1..3 : ~Few(m, x, w, k)) => Step(S, x, w) = S
\* total mean and second moment are those of the data when everything is updated and nothing floored or dropped
MeanOk == (done /\ m.um /\ m.up /\ Plain(m, x, w)) =>
            \A c \in {1, 3} : LET ks == {k \in 1..3 : m.cl[k] = c}
                              IN Near(SumS(ks, LAMBDA k : (S.pi[k] * S.mu[k][1]) \div U) * SumSeq(w), U * D1(x, w, c, 1), 120)
WeightOk == done => Near(SumSeq(S.pi), U, 5)
VarOk == (done /\ m.ul) => \A k \in 1..3 : S.V[k][1] >= 0
Emit == (done /\ (SumSeq([i \in All |-> (i * x[i].d[1]) + (3 * w[i]) + x[i].c]) + SumSeq(m.p) + m.cl[2] + (IF m.um THEN 1 ELSE 0) + (IF m.ul THEN 2 ELSE 0)) % EVERY = 0) => PrintT("@@BEH " \o ToJson([x |-> x, w |-> w, m |-> m]))
=============================================================================
