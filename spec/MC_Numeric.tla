------------------------------ MODULE MC_Numeric ------------------------------
(* Covariances of two dimensions and packed matrices of up to three.              *)
EXTENDS Numeric, Json
CONSTANTS NMAX, DIAG, OFF, EIG, EVERY
VARIABLES ph, c, d, q
vars == <<ph, c, d, q>>
Rot(r) == CASE r = 0 -> <<<<5, 0>>, <<0, 5>>>> [] r = 1 -> <<<<0, 5>>, <<5, 0>>>> [] r = 2 -> <<<<3, 4>>, <<-4, 3>>>> [] OTHER -> <<<<4, -3>>, <<3, 4>>>>
Init == ph = "diagonal" /\ c = <<>> /\ d = <<>> /\ q = <<>>
DiagonalOf(a, b) == /\ ph = "diagonal" /\ ph' = "off"
                    /\ c' = <<<<a, 0>>, <<0, b>>>> /\ UNCHANGED <<d, q>>
OffOf(o) == /\ ph = "off" /\ ph' = "eigen"
            /\ c' = [c EXCEPT ![1][2] = o - NMAX] /\ UNCHANGED <<d, q>>
EigenOf(a, b) == /\ ph = "eigen" /\ ph' = "turn"
                 /\ d' = <<a, b>> /\ UNCHANGED <<c, q>>
Turn(r) == /\ ph = "turn" /\ ph' = "done"
           /\ q' = Rot(r) /\ UNCHANGED <<c, d>>
Next == \/ \E a, b \in DIAG : DiagonalOf(a, b)
        \/ \E o \in OFF : OffOf(o)
        \/ \E a, b \in EIG : EigenOf(a, b)
        \/ \E r \in 0..3 : Turn(r)
Spec == Init /\ [][Next]_vars
Minus(A, B) == [i \in DOMAIN A |-> [j \in DOMAIN A[i] |-> A[i][j] - B[i][j]]]
Det2(A) == (A[1][1] * A[2][2]) - (A[1][2] * A[2][1])
Psd(A) == A = Tr(A) /\ A[1][1] >= 0 /\ A[2][2] >= 0 /\ Det2(A) >= 0
Ok == ph = "done"
\* what is floored is not less than the floor nor than the covariance, and is the covariance when that is over the floor
OverFloor == Ok => Psd(Minus(Floor(c, q, d), Least(c, q)))
OverCov == Ok => Psd(Minus(Floor(c, q, d), Cov(c, q, d)))
Untouched == (Ok /\ d[1] >= 4 /\ d[2] >= 4) => Floor(c, q, d) = Cov(c, q, d)
\* the rotation of the floor does not matter, and it is 100 C'C
FloorIs == Ok => Least(c, q) = Scale(100, Mul(Tr(c), c))
\* packing loses nothing of symmetric or triangular matrices
Sym == Mul(Tr(c), c)
Packing == Ok => \A l \in BOOLEAN : /\ Unpack(Pack(Sym, l, 2), 2, l, TRUE, 2) = Sym
                                    /\ Unpack(Pack(Sym, l, 4), 2, l, TRUE, 1) = Sym
                                    /\ Unpack(Pack(IF l THEN Tr(c) ELSE c, l, 2), 2, l, FALSE, 2) = IF l THEN Tr(c) ELSE c
                                    /\ Cardinality(Rng(Places(3, l))) = 6
H == c[1][1] + (3 * c[2][2]) + (7 * c[1][2]) + (5 * d[1]) + (11 * d[2]) + q[1][1]
Emit == (Ok /\ H % EVERY = 0) => PrintT("@@BEH " \o ToJson([c |-> c, d |-> d, q |-> q]))
=============================================================================
