----------------------------- MODULE MC_Metrics -----------------------------
(* All score lists of up to NT targets and NN non-targets with values 1..V,   *)
(* then pool-adjacent-violators on them, one score or one merge per step.     *)
(* Checks that the stack of the algorithm, the definition by largest smallest *)
(* mean, the convex hull of the ROC and the minimum cost agree.               *)
EXTENDS Metrics, Json
CONSTANTS NT, NN, V, EVERY
VARIABLES tar, non, st, pos, ph
vars == <<tar, non, st, pos, ph>>
Init == tar = <<>> /\ non = <<>> /\ st = <<>> /\ pos = 0 /\ ph = "draw"
Up(s, v) == IF s = <<>> THEN TRUE ELSE s[Len(s)] <= v
Y == LET O == Order(tar, non) IN [i \in 1..Len(O) |-> O[i][2]]
Draw == /\ ph = "draw"
        /\ \E v \in 1..V : \/ non = <<>> /\ Len(tar) < NT /\ Up(tar, v) /\ tar' = Append(tar, v) /\ UNCHANGED non
                           \/ tar # <<>> /\ Len(non) < NN /\ Up(non, v) /\ non' = Append(non, v) /\ UNCHANGED tar
        /\ UNCHANGED <<st, pos, ph>>
Begin == ph = "draw" /\ tar # <<>> /\ non # <<>> /\ ph' = "pav" /\ UNCHANGED <<tar, non, st, pos>>
\* two blocks on top that do not rise are pooled, otherwise the next score is pushed
CanPool == Len(st) >= 2 /\ ~Less(st[Len(st) - 1], st[Len(st)])
Pool == /\ ph = "pav" /\ CanPool
        /\ st' = Append(SubSeq(st, 1, Len(st) - 2), <<st[Len(st) - 1][1] + st[Len(st)][1], st[Len(st) - 1][2] + st[Len(st)][2]>>)
        /\ UNCHANGED <<tar, non, pos, ph>>
Push == /\ ph = "pav" /\ ~CanPool /\ pos < Len(Y)
        /\ st' = Append(st, <<Y[pos + 1], 1>>) /\ pos' = pos + 1 /\ UNCHANGED <<tar, non, ph>>
Finish == ph = "pav" /\ ~CanPool /\ pos = Len(Y) /\ ph' = "done" /\ UNCHANGED <<tar, non, st, pos>>
Next == Draw \/ Begin \/ Pool \/ Push \/ Finish
Spec == Init /\ [][Next]_vars

Done == ph = "done"
\* the stack covers what was pushed, whatever the step
Covered == ph # "draw" => SumSeq([i \in 1..Len(st) |-> st[i][2]]) = pos /\ SumSeq([i \in 1..Len(st) |-> st[i][1]]) = SumSeq(SubSeq(Y, 1, pos))
\* below the top two everything rises
Rising == \A i \in 1..(Len(st) - 2) : Less(st[i], st[i + 1])
Ends == {SumSeq([j \in 1..k |-> st[j][2]]) : k \in 1..Len(st)}
At(i) == MinS({k \in 1..Len(st) : SumSeq([j \in 1..k |-> st[j][2]]) >= i})
PavIsIso == Done => LET g == Iso(Y) IN \A i \in 1..Len(Y) : LET b == st[At(i)] IN b[1] * g[i][2] = g[i][1] * b[2]
\* the corners of the hull are the ends of the blocks
Corner(n) == LET O == SubSeq(Order(tar, non), 1, n) IN <<Cardinality({i \in 1..n : O[i][2] = 1}), Len(non) - Cardinality({i \in 1..n : O[i][2] = 0})>>
HullIsPav == Done => Rng(HullPts(Points(tar, non))) = {Corner(n) : n \in Ends \cup {0}}
CostOnHull == Done => LET P == Points(tar, non) IN \A p \in {<<1, 100>>, <<1, 4>>, <<1, 2>>, <<9, 10>>} :
                MinCost(P, p[1], p[2], Len(tar), Len(non)) = MinCost(HullPts(P), p[1], p[2], Len(tar), Len(non))
\* the equal error rate lies between zero and a half, unless targets score below non-targets
EerRange == Done => LET a == Eer(HullPts(Points(tar, non)), Len(tar), Len(non)) IN a[1] >= 0 /\ 2 * a[1] <= a[2]
\* unchanged by a rising map of the scores
Rank == Done => LET f(v) == (v * v) + 3 IN Points(tar, non) = Points([i \in 1..Len(tar) |-> f(tar[i])], [i \in 1..Len(non) |-> f(non[i])])
\* swapping the two kinds mirrors the curve
Mirror == Done => LET m(s) == [i \in 1..Len(s) |-> 0 - s[i]]
                      P == Points(tar, non)
                      Q == Points(m(non), m(tar)) IN Rng(Q) = {<<p[2], p[1]>> : p \in Rng(P)}
Emit == (Done /\ ((SumSeq(tar) * 7) + (SumSeq(non) * 3) + Len(non)) % EVERY = 0) => PrintT("@@BEH " \o ToJson([tar |-> tar, non |-> non]))
=============================================================================
