-------------------------------- MODULE Util --------------------------------
(* Operators shared by the specifications of this directory.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxS(S) == CHOOSE x \in S : \A y \in S : x >= y
Rng(s) == {s[i] : i \in DOMAIN s}
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
IsInj(s) == Cardinality(Rng(s)) = Len(s)
Map(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

RECURSIVE FlatSeq(_)
FlatSeq(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o FlatSeq(Tail(ss))

(* The subsequence of s at the (1-based, increasing) positions in the set I. *)
AtSet(s, I) == LET RECURSIVE R(_)
                   R(i) == IF i > Len(s) THEN <<>>
                           ELSE IF i \in I THEN <<s[i]>> \o R(i + 1) ELSE R(i + 1)
               IN R(1)

(* Same elements with the same multiplicities. *)
SameBag(s, t) == /\ Len(s) = Len(t)
                 /\ \A x \in Rng(s) : Count(s, x) = Count(t, x)

(* s is a permutation of 0..n-1 *)
IsPerm0(s, n) == Len(s) = n /\ Rng(s) = 0..(n - 1)

Slice(s, from, n) == SubSeq(s, from + 1, from + n)     \* n items after `from`

Subsets(S) == SUBSET S

(* elements of a set of integers in increasing order *)
RECURSIVE SetToSortSeq2(_)
SetToSortSeq2(S) == IF S = {} THEN <<>> ELSE LET x == MinS(S) IN <<x>> \o SetToSortSeq2(S \ {x})

(* all sequences over S of length at most n *)
SeqUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}

Good(s) == [ok |-> TRUE, why |-> "", st |-> s]
Bad(s, w) == [ok |-> FALSE, why |-> w, st |-> s]
=============================================================================
