------------------------------ MODULE MC_Classif ------------------------------
(* A Gaussian back-end of one dimension and two classes learned from one batch   *)
(* and adapted to the next ones: exact arithmetic with fractions.                *)
EXTENDS Util, Json
CONSTANTS NB, NS, XS, EVERY
VARIABLES bs, m, bal
vars == <<bs, m, bal>>
AbsV(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Red(p) == LET g == Gcd(AbsV(p[1]), p[2]) IN IF p[1] = 0 THEN <<0, 1>> ELSE <<(IF p[1] < 0 THEN -(AbsV(p[1]) \div g) ELSE p[1] \div g), p[2] \div g>>
Add(p, q) == Red(<<(p[1] * q[2]) + (q[1] * p[2]), p[2] * q[2]>>)
Mul(p, q) == Red(<<p[1] * q[1], p[2] * q[2]>>)
Neg(p) == <<-p[1], p[2]>>
I(n) == <<n, 1>>
Div(p, n) == Red(<<p[1], p[2] * n>>)
Le(p, q) == p[1] * q[2] <= q[1] * p[2]

N(b, k) == Cardinality({i \in DOMAIN b.x : b.c[i] = k})
F(b, k) == SumSeq([i \in DOMAIN b.x |-> IF b.c[i] = k THEN b.x[i] ELSE 0])
Q(b, k) == SumSeq([i \in DOMAIN b.x |-> IF b.c[i] = k THEN b.x[i] * b.x[i] ELSE 0])
Mean(b, k) == IF N(b, k) = 0 THEN I(0) ELSE Red(<<F(b, k), N(b, k)>>)
\* sum of squares around the mean
Scat(b, k) == IF N(b, k) = 0 THEN I(0) ELSE Add(I(Q(b, k)), Neg(Red(<<F(b, k) * F(b, k), N(b, k)>>)))
Learn(b) == [mu |-> [k \in 1..2 |-> Mean(b, k)], beta |-> [k \in 1..2 |-> N(b, k)], nu |-> N(b, 1) + N(b, 2),
             S |-> IF bal THEN Div(Add(Div(Scat(b, 1), N(b, 1)), Div(Scat(b, 2), N(b, 2))), 2)
                   ELSE Div(Add(Scat(b, 1), Scat(b, 2)), N(b, 1) + N(b, 2))]
\* sum of squares of a class together with the distance of its mean from that of the prior
Part(p, b, k) == LET d == Add(Mean(b, k), Neg(p.mu[k]))
                 IN IF N(b, k) = 0 THEN I(0) ELSE Add(Scat(b, k), Div(Mul(I(N(b, k) * p.beta[k]), Mul(d, d)), N(b, k) + p.beta[k]))
Adapt(p, b) ==
  [mu |-> [k \in 1..2 |-> Div(Add(I(F(b, k)), Mul(I(p.beta[k]), p.mu[k])), N(b, k) + p.beta[k])],
   beta |-> [k \in 1..2 |-> N(b, k) + p.beta[k]], nu |-> N(b, 1) + N(b, 2) + p.nu,
   S |-> IF bal THEN LET h(k) == Mul(Red(<<2, (2 * N(b, k)) + p.nu>>), Add(Part(p, b, k), Mul(Red(<<p.nu, 2>>), p.S))) IN Div(Add(h(1), h(2)), 2)
         ELSE Div(Add(Mul(I(p.nu), p.S), Add(Part(p, b, 1), Part(p, b, 2))), N(b, 1) + N(b, 2) + p.nu)]

Batches == UNION {[x : [1..n -> XS], c : [1..n -> 1..2]] : n \in 1..NS}
None == [nu |-> 0]
Init == bs = <<>> /\ m = None /\ bal \in BOOLEAN
First == /\ bs = <<>>
         /\ \E b \in Batches : /\ N(b, 1) > 0 /\ N(b, 2) > 0 /\ (\A i \in 1..(Len(b.x) - 1) : b.c[i] <= b.c[i + 1])
                               /\ Learn(b).S[1] > 0
                               /\ bs' = <<b>> /\ m' = Learn(b)
         /\ UNCHANGED bal
More == /\ bs # <<>> /\ Len(bs) < NB
        /\ \E b \in Batches : /\ (\A i \in 1..(Len(b.x) - 1) : b.c[i] < b.c[i + 1] \/ (b.c[i] = b.c[i + 1] /\ b.x[i] <= b.x[i + 1]))
                              /\ bs' = Append(bs, b) /\ m' = Adapt(m, b)
        /\ UNCHANGED bal
Next == First \/ More
Spec == Init /\ [][Next]_vars
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN [x |-> <<>>, c |-> <<>>] ELSE LET r == Cat(Tail(s)) IN [x |-> Head(s).x \o r.x, c |-> Head(s).c \o r.c]
all == Cat(bs)
made == bs # <<>>
\* learning a batch and adapting to the next ones is learning everything at once
PoolOk == made => /\ \A k \in 1..2 : m.mu[k] = Mean(all, k) /\ m.beta[k] = N(all, k)
                  /\ m.nu = Len(all.x)
                  /\ (~bal => m.S = Div(Add(Scat(all, 1), Scat(all, 2)), Len(all.x)))
\* with as many samples of each class in every batch, balancing changes nothing
BalOk == (made /\ bal /\ \A j \in DOMAIN bs : N(bs[j], 1) = N(bs[j], 2)) => m.S = Div(Add(Scat(all, 1), Scat(all, 2)), Len(all.x))
PosOk == made => m.S[1] > 0
\* an adapted mean lies between that of the prior and that of the data
NextOk == [][made => LET b == bs'[Len(bs')]
                     IN \A k \in 1..2 : IF N(b, k) = 0 THEN m'.mu[k] = m.mu[k]
                                        ELSE /\ (Le(m.mu[k], m'.mu[k]) /\ Le(m'.mu[k], Mean(b, k))) \/ (Le(Mean(b, k), m'.mu[k]) /\ Le(m'.mu[k], m.mu[k]))]_vars
Emit == made => LET h == SumSeq(all.x) + (3 * SumSeq(all.c)) + (5 * Len(all.x)) IN h % EVERY = 0 => PrintT("@@BEH " \o ToJson([b |-> bs, bal |-> bal]))
=============================================================================
