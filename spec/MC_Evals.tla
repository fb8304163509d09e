------------------------------- MODULE MC_Evals -------------------------------
(* A trial list evaluated in parts, in any order, by workers that may be started *)
(* again; the score files are then put together.                                 *)
EXTENDS Evals, Json
CONSTANTS NM, NS, NT, EVERY
VARIABLES x, made, stage
vars == <<x, made, stage>>
Nothing == [set |-> ""]
SETS == {"enroll-test", "enroll-coh", "coh-test", "coh-coh"}
Init == x = Nothing /\ made = {} /\ stage = 0
Seq1(n, o) == [i \in 1..n |-> o + i]
\* part i of n of a list, in the parts of nearly equal size
Cut(q, i, n) == LET L == Len(q) IN SubSeq(q, (((i - 1) * L) \div n) + 1, (i * L) \div n)
Emb == {<<1>>, <<-2>>, <<3>>}
Case == /\ stage = 0 /\ stage' = 1 /\ made' = {}
        /\ \E st \in SETS, nm \in 1..NM, ns \in 1..NS, nt \in 1..NT, pm \in 1..3, ps \in 1..3, many \in BOOLEAN :
             LET enr == IF st \in {"coh-test", "coh-coh"} THEN [i \in 1..nm |-> <<i, i>>]
                        ELSE IF many THEN [i \in 1..(2 * nm) |-> <<i, 100 + ((i + 1) \div 2)>>] ELSE [i \in 1..(nm + 1) |-> <<i, 100 + i>>]
                 mods == IF st \in {"coh-test", "coh-coh"} THEN nm ELSE nm
                 segs == IF st \in {"enroll-test", "coh-test"} THEN ns ELSE nt
             IN /\ pm <= mods /\ ps <= segs
                /\ x' = [set |-> st, nm |-> nm, ns |-> ns, nt |-> nt, many |-> many, enr |-> enr, parts |-> <<pm, ps>>,
                         ndx |-> [m |-> IF st \in {"coh-test", "coh-coh"} THEN <<100>> ELSE Seq1(nm, 100), s |-> Seq1(ns, 200)], test |-> Seq1(nt, 300)]
Models == SetToSortSeq2(ModelsOf(x))
Segs == SetToSortSeq2(SegsOf(x))
Worth(a, b) == (a * 1000) + b
Part(i, j) == LET ms == Cut(Models, i, x.parts[1])
                  ss == Cut(Segs, j, x.parts[2])
              IN [p |-> <<i, j>>, m |-> ms, s |-> ss, v |-> [a \in DOMAIN ms |-> [b \in DOMAIN ss |-> Worth(ms[a], ss[b])]]]
Run == /\ stage = 1 /\ stage' = 1 /\ UNCHANGED x
       /\ \E i \in 1..x.parts[1], j \in 1..x.parts[2] :
            /\ <<i, j>> \notin made
            /\ made' = made \cup {<<i, j>>}
\* the score files so far
Files == LET n(p) == (p[1] * 10) + p[2]
             RECURSIVE F(_)
             F(S) == IF S = {} THEN <<>> ELSE LET p == CHOOSE p \in S : \A r \in S : n(p) <= n(r) IN <<Part(p[1], p[2])>> \o F(S \ {p})
         IN F(made)
Next == Case \/ Run
Spec == Init /\ [][Next]_vars
all == stage = 1 /\ Cardinality(made) = x.parts[1] * x.parts[2]
\* no two parts score the same trial, and together they score all
DisjointOk == stage = 1 => LET f == Files IN \A k, l \in DOMAIN f : k # l => Pairs(f[k]) \cap Pairs(f[l]) = {}
CoverOk == all => Cover(Files, ModelsOf(x), SegsOf(x), x.parts[1], x.parts[2])
NotYetOk == (stage = 1 /\ ~all) => ~Cover(Files, ModelsOf(x), SegsOf(x), x.parts[1], x.parts[2])
\* every model has its enrollment, and the one of each model is its own
EnrolledOk == stage = 1 => \A a \in ModelsOf(x) : Enrolled(x, a) # <<>> /\ \A b \in ModelsOf(x) : a # b => Rng(Enrolled(x, a)) \cap Rng(Enrolled(x, b)) = {}
\* a trial has its own score wherever it is found
ScoreOk == stage = 1 => LET f == Files IN \A k \in DOMAIN f : \A c \in Cells(f[k]) : At(f[k], f[k].m[c[1]], f[k].s[c[2]]) = Worth(f[k].m[c[1]], f[k].s[c[2]])
\* turning both vectors does not change their scores
TurnOk == stage = 0 => \A a, b \in {<<1, 2>>, <<-3, 1>>, <<2, 2>>} : LET T == <<<<0, 1>>, <<-1, 0>>>> IN Cos(Times(a, T), Times(b, T)) = Cos(a, b) /\ Cos(a, b) = Cos(b, a) /\ Abs(Cos(a, a) - 2000) < 12
\* posteriors add up to one, and are the exponentials of their logarithms in order
SoftOk == stage = 0 => \A z \in [1..3 -> {-2, 0, 3}] : LET p == [c \in 1..3 |-> Post(z, c)] IN Abs(SumSeq(p) - 1000) <= 3 /\ \A c, d \in 1..3 : (z[c] < z[d] <=> LogPost(z, c) < LogPost(z, d)) /\ LogPost(z, c) < 0
Emit == (stage = 1 /\ made = {}) => LET h == x.nm + (2 * x.ns) + (3 * x.nt) + (5 * x.parts[1]) + (7 * x.parts[2]) IN
          h % EVERY = 0 => PrintT("@@BEH " \o ToJson([set |-> x.set, nm |-> x.nm, ns |-> x.ns, nt |-> x.nt, many |-> x.many, parts |-> x.parts]))
=============================================================================
