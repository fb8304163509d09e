------------------------------- MODULE MC_Ahc -------------------------------
(* All similarity matrices of N elements with values 0..V and up to M masked  *)
(* pairs, every linkage, every way of breaking ties.                          *)
EXTENDS Ahc, Json
CONSTANTS N, V, M, EVERY
VARIABLES s, mask, method, c, lv
vars == <<s, mask, method, c, lv>>
P == {<<i, j>> \in (1..N) \X (1..N) : i < j}
O(i, j) == IF i < j THEN <<i, j>> ELSE <<j, i>>
Mat(f) == [i \in 1..N |-> [j \in 1..N |-> IF i = j THEN V ELSE f[O(i, j)]]]
Init == /\ \E f \in [P -> 0..V] : s = Mat(f)
        /\ \E K \in {K \in SUBSET P : Cardinality(K) <= M} : mask = [i \in 1..N |-> [j \in 1..N |-> i = j \/ O(i, j) \notin K]]
        /\ method \in {"single", "complete", "average", "weighted"}
        /\ c = Start(N, s, mask) /\ lv = <<>>
Next == /\ Cardinality(c.alive) > 1
        /\ \E p \in Best(c) : c' = Merge(c, method, p) /\ lv' = Append(lv, [of |-> c'.of, h |-> c.sim[p[1]][p[2]]])
        /\ UNCHANGED <<s, mask, method>>
Spec == Init /\ [][Next]_vars
Counts == Cardinality(Rng(c.of)) = N - Len(lv)
\* similarities of successive merges do not rise: cutting at a threshold is cutting the list
Falls == \A i \in 2..Len(lv) : ~Lt(lv[i - 1].h, lv[i].h)
Nested == \A i \in 2..Len(lv) : \A x, y \in 1..N : lv[i - 1].of[x] = lv[i - 1].of[y] => lv[i].of[x] = lv[i].of[y]
\* linked by pairs of similarity t or more
RECURSIVE Reach(_, _)
Reach(S, t) == LET T == S \cup {y \in 1..N : \E x \in S : mask[x][y] /\ s[x][y] >= t} IN IF T = S THEN S ELSE Reach(T, t)
Cut(t) == LET m == Cardinality({i \in 1..Len(lv) : Reaches(lv[i].h, <<t, 1>>)}) IN IF m = 0 THEN [i \in 1..N |-> i] ELSE lv[m].of
SingleIsComponents == (method = "single" /\ Len(lv) = N - 1) => \A t \in 0..V : \A x \in 1..N : {y \in 1..N : Cut(t)[y] = Cut(t)[x]} = Reach({x}, t)
CompleteIsClique == (method = "complete" /\ Len(lv) = N - 1) => \A t \in 0..V : \A x, y \in 1..N : (x # y /\ Cut(t)[x] = Cut(t)[y]) => mask[x][y] /\ s[x][y] >= t
\* average linkage: the similarity of two clusters is the mean over their pairs
AverageIsMean == method = "average" => \A p \in Pairs(c) : LET E == {<<x, y>> \in (1..N) \X (1..N) : c.of[x] = p[1] /\ c.of[y] = p[2]} IN
                   /\ c.sim[p[1]][p[2]][3] = Cardinality(E)
                   /\ c.sim[p[1]][p[2]][2] = SumF(E, LAMBDA q : IF mask[q[1]][q[2]] THEN s[q[1]][q[2]] ELSE 0)
\* masked pairs come together only when nothing else is left to join
MaskedLast == method # "single" => \A i \in 1..Len(lv) : lv[i].h[1] > 0 => \A j \in i..Len(lv) : lv[j].h[1] > 0
Follows == Len(lv) = N - 1 => LET cuts == <<[x \in 1..N |-> x]>> \o [i \in 1..(N - 1) |-> lv[i].of] IN Len(Follow(Start(N, s, mask), method, cuts, 0, <<>>)) = N - 1
Emit == (lv = <<>> /\ Len(ToJson(<<s, mask, method>>)) % EVERY = 0 /\ (s[1][2] + (2 * s[1][N]) + (3 * s[2][N])) % EVERY = 0) => PrintT("@@BEH " \o ToJson([s |-> s, mask |-> mask, method |-> method]))
=============================================================================
