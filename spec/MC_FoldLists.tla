------------------------------- MODULE MC_FoldLists -------------------------------
(* Every small input of the creation of folds and parts: the algorithm, under *)
(* every permutation of the groups, satisfies the contract; the inputs are    *)
(* emitted as scripts.                                                       *)
EXTENDS FoldLists, Json
CONSTANTS NMAX
VARIABLES a, done
vars == <<a, done>>

Keys(n) == [i \in 1..n |-> (7 * i) % 11]
\* labels up to renaming: the first occurrence order is free
Lbl(n, m) == {f \in [1..n -> 1..m] : \A i \in 1..n : \A v \in 1..(f[i] - 1) : \E j \in 1..(i - 1) : f[j] = v}
Init == /\ done = FALSE
        /\ \E n \in 1..NMAX, t \in {"fold", "tve"}, sh \in BOOLEAN :
           \E k \in IF t = "fold" THEN {2, 3} ELSE {2},
              pr \in IF t = "fold" THEN {<<>>} ELSE {<<10>>, <<10, 5>>, <<16, 2>>},
              g \in {<<>>} \cup Lbl(n, 3), c \in {<<>>} \cup Lbl(n, 2), m \in {<<>>} \cup {[i \in 1..n |-> IF i \in S THEN 0 ELSE 1] : S \in {{1}, {n}, {1, 2}}} :
             /\ (m # <<>> => SumSeq(m) > 0 /\ Len(m) = n)
             /\ a = [t |-> t, key |-> Keys(n), n |-> k, props |-> pr, grp |-> g, bal |-> c, mask |-> m, shuffle |-> sh, seed |-> 3 + n, names |-> <<>>]
             /\ Nested(a)
Next == done = FALSE /\ done' = TRUE /\ UNCHANGED a
Spec == Init /\ [][Next]_vars

Perms(n) == {f \in [1..n -> 1..n] : Cardinality(Rng(f)) = n}
AlgValid == \A c \in Rng(Cls(a)) : \A f \in Perms(Cardinality(GroupsOf(a, c))) :
    LET Rank(cc, g) == LET s == SetToSortSeq2(GroupsOf(a, cc))   k == CHOOSE i \in DOMAIN s : s[i] = g
                       IN IF cc = c THEN f[k] - 1 ELSE k - 1
    IN Valid(a, Alg(a, Rank))
Emit == done => PrintT("@@BEH " \o ToJson(a))
=============================================================================
