-------------------------------- MODULE MC_Plda --------------------------------
(* All small models, with an average of two of them, and pairs of classes.      *)
EXTENDS Plda, Json
CONSTANTS KINDS, BS, SS, VALS, QS, D, N1, N2, EVERY
VARIABLES m, m0, c1, c2, stage
vars == <<m, m0, c1, c2, stage>>
KA == {"frplda", "splda"}
VA == {-1, 2}
VB == {-2, 0, 3}
None == [kind |-> ""]
Init == m = None /\ m0 = None /\ c1 = <<>> /\ c2 = <<>> /\ stage = 0
New == /\ stage = 0 /\ stage' = 1
       /\ \E k \in KINDS, b \in [1..D -> BS], s \in [1..D -> SS], q \in QS :
            m' = [kind |-> k, bn |-> [i \in 1..D |-> IF k = "frplda" /\ b[i] = 0 THEN 1 ELSE b[i]], sn |-> s, q |-> q, un |-> [i \in 1..D |-> 0]]
       /\ m0' = m' /\ UNCHANGED <<c1, c2>>
\* averaged with another model
Avg == /\ stage = 1 /\ stage' = 2
       /\ \E b \in 1..3, s \in 1..2, wb \in 0..2, ww \in {0, 1} : m' = Mix(m, [m EXCEPT !.bn = [i \in 1..D |-> IF @[i] = 0 THEN 0 ELSE b], !.sn = [i \in 1..D |-> s]], wb, ww)
       /\ UNCHANGED <<m0, c1, c2>>
Pts == [1..D -> VALS]
See == /\ stage \in {1, 2} /\ stage' = 3
       /\ \E a \in 1..N1, b \in 1..N2 : \E x \in [1..a -> Pts], y \in [1..b -> Pts] : c1' = x /\ c2' = y
       /\ UNCHANGED <<m, m0>>
Next == New \/ Avg \/ See
Spec == Init /\ [][Next]_vars
done == stage = 3
One1(c) == [j \in DOMAIN c |-> 1]
Both == c1 \o c2
Rev(c) == [j \in DOMAIN c |-> c[Len(c) + 1 - j]]
Z == 5 * D
\* the ratio is that of the likelihoods of the samples together and apart
RatioOk == done => Near(Book(m, c1, c2, 1), Evid(m, Both, One1(Both)) - Evid(m, c1, One1(c1)) - Evid(m, c2, One1(c2)), 3 * Z)
SymmetricOk == done => \A me \in {"book", "vavg", "savg"} : Score(m, me, c1, c2, 1) = Score(m, me, c2, c1, 1)
OrderOk == done => Book(m, Rev(c1), c2, 1) = Book(m, c1, c2, 1)
\* every way of comparing several samples is the plain comparison when there is one
SingleOk == (done /\ Len(c1) = 1 /\ Len(c2) = 1) => \A me \in {"book", "vavg", "savg"} : Score(m, me, c1, c2, 1) = One(m, c1[1], c2[1])
\* samples that come twice with half the weight change nothing
HalfOk == done => Near(Book(m, c1 \o c1, c2 \o c2, 2), Book(m, c1, c2, 1), Z)
\* samples of other dimensions, in which classes do not differ, do not matter
FlatOk == (done /\ m.bn[1] = 0) => Book(m, [c1 EXCEPT ![1][1] = 3], c2, 1) = Book(m, c1, c2, 1)
\* the chain rule: a class does not depend on the order in which it is seen
ChainOk == (done /\ Len(c1) = 2) => Near(Evid(m, c1, One1(c1)), Evid(m, SubSeq(c1, 1, 1), <<1>>) + Evid(m, SubSeq(c1, 2, 2), <<1>>) + Llr(m, 1, c1[1], 1, 1, c1[2], 1, 1), 3 * Z)
\* the posterior lies between the mean of the class and zero and is tighter than the prior
PostOk == done => \A i \in 1..D : LET f == Sum(m, c1)[i]
                                      p == PostMean(m, Len(c1), Sum(m, c1), i)
                                  IN /\ Len(c1) * AbsV(p) <= U * AbsV(f) + 5
                                     /\ PostVar(m, Len(c1), i) <= (U * m.bn[i]) \div m.q
                                     /\ Len(c1) * PostVar(m, Len(c1), i) <= (U * m.sn[i]) \div m.q
\* weights of zero keep a model, and averages lie between
MixOk == stage = 2 => /\ m.q = 2 * m0.q
                      /\ \A i \in 1..D : m.bn[i] = 2 * m0.bn[i] \/ m.bn[i] \in {k + m0.bn[i] : k \in 0..3} \/ m.bn[i] \in 0..6
\* a round of training gives covariances
StepOk == (done /\ m.kind = "frplda") => LET t == EmStep(m, <<c1, c2>>, <<TRUE, TRUE, TRUE>>) IN \A i \in 1..D : t.b[i] > 0 /\ t.s[i] > 0
FS == <<<<TRUE, TRUE, TRUE>>, <<FALSE, TRUE, TRUE>>, <<TRUE, FALSE, TRUE>>, <<TRUE, TRUE, FALSE>>>>
MS == <<"book", "vavg", "savg">>
H == SumSeq([j \in DOMAIN Both |-> SumSeq([i \in 1..D |-> (j + i) * AbsV(Both[j][i])])]) + SumSeq(m.bn) + (3 * SumSeq(m.sn)) + m.q
Emit == (done /\ (\E i \in 1..D : m.bn[i] > 0) /\ H % EVERY = 0) => PrintT("@@BEH " \o ToJson([m |-> m, c1 |-> c1, c2 |-> c2, method |-> MS[1 + ((H \div EVERY) % 3)], flags |-> FS[1 + ((H \div EVERY) % 4)]]))
=============================================================================
