----------------------------- MODULE MC_ScoreNorm ----------------------------
(* All small score and cohort matrices with masks.                             *)
EXTENDS ScoreNorm, Json
CONSTANTS NC, VALS, EVERY
VARIABLES x, done
VA == {-2, 0, 1}
VB == {-1, 1}
vars == <<x, done>>
Row == [1..NC -> VALS]
Mask == {m \in [1..NC -> BOOLEAN] : \E c \in 1..NC : m[c]}
One(m) == [c \in 1..NC |-> <<m[c]>>]
Init == /\ \E v \in VALS, e \in Row, t \in Row, me \in Mask, mt \in Mask, nb \in 1..NC, nd \in 0..(NC - 1) :
             x = [kind |-> "as", sc |-> <<<<v>>>>, ec |-> <<e>>, ct |-> One(t), mec |-> <<me>>, mct |-> One(mt), nb |-> nb, nd |-> nd, fl |-> <<1, 4>>]
        /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED x
Spec == Init /\ [][Next]_vars
Full == ASets(x)
Sw(q) == [q EXCEPT ![1] = q[2], ![2] = q[1]]
\* the cohort in another order
Swapped == [x EXCEPT !.ec[1] = Sw(@), !.mec[1] = Sw(@), !.ct = Sw(@), !.mct = Sw(@)]
PermOk == /\ Zs(x, 1, 1) = Zs(Swapped, 1, 1) /\ Ts(x, 1, 1) = Ts(Swapped, 1, 1)
          /\ AdaptOf(x, Full, 1, 1) = AdaptOf(Swapped, ASets(Swapped), 1, 1)
\* a cohort score that may not be used makes no difference
Other(k) == [x EXCEPT !.ec[1] = [c \in DOMAIN @ |-> IF x.mec[1][c] THEN @[c] ELSE k], !.ct = [c \in DOMAIN @ |-> IF x.mct[c][1] THEN @[c] ELSE <<k>>]]
MaskOk == \A k \in {-9, 9} : Zs(x, 1, 1) = Zs(Other(k), 1, 1) /\ Ts(x, 1, 1) = Ts(Other(k), 1, 1) /\ AdaptOf(x, Full, 1, 1) = AdaptOf(Other(k), ASets(Other(k)), 1, 1)
\* a constant added to everything of the model is taken out again
Shift == [x EXCEPT !.sc = <<<<@[1][1] + 3>>>>, !.ec[1] = [c \in DOMAIN @ |-> @[c] + 3]]
ShiftOk == Zs(x, 1, 1) = Zs(Shift, 1, 1)
\* the whole cohort is the best of it
AllBest == (x.nb = NC /\ x.nd = 0 /\ x.mec[1] = [c \in 1..NC |-> TRUE] /\ x.mct = One([c \in 1..NC |-> TRUE])) => AdaptOf(x, Full, 1, 1) = {Zs(x, 1, 1) + Ts(x, 1, 1)}
Emit == (done /\ (SumSeq([c \in 1..NC |-> (3 * c * x.ec[1][c]) + (5 * c * x.ct[c][1]) + (IF x.mec[1][c] THEN c ELSE 0)]) + x.nb + (2 * x.nd)) % EVERY = 0) => PrintT("@@BEH " \o ToJson(x))
=============================================================================
