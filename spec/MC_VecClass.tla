---------------------------- MODULE MC_VecClass ----------------------------
(* All small lists and limits: the division by the algorithm is one the       *)
(* property accepts, it covers each class and respects the limits.            *)
EXTENDS VecClass, Json
CONSTANTS N, EVERY
VARIABLES c, step
Init == /\ step = 0
        /\ \E n \in 1..N : \E cls \in [1..n -> 1..2], mn \in 1..2, mx \in 0..3, mode \in 1..3, cmax \in 0..3, cmode \in 1..3, ov \in 0..2, cmin \in 1..2 :
             /\ (mx = 0 => mode = 1) /\ (cmax = 0 => (cmode = 1 /\ ov = 0 /\ cmin = 1)) /\ (cmax > 0 => ov < cmax /\ cmin <= cmax) /\ (cmode = 3 => ov = 0)
             /\ c = [cls |-> cls, min |-> mn, max |-> mx, mode |-> mode, cmax |-> cmax, cmode |-> cmode, ov |-> ov, cmin |-> cmin, once |-> TRUE, map |-> <<>>]
Next == step = 0 /\ step' = 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, step>>
\* the parts of a class cut one after the other
Cuts(k) == LET p == PoolSeq(c, k) IN
           [i \in 1..NSub(c, k) |-> SubSeq(p, ((i - 1) * Shift(c)) + 1, Min2(Len(p), ((i - 1) * Shift(c)) + c.cmax))]
PartsOf(k) == IF N1(c, k) = 0 THEN <<>>
              ELSE IF c.cmax = 0 THEN <<PoolSeq(c, k)>>
              ELSE IF Splits(c) /\ N1(c, k) > c.cmax /\ c.cmode = 1 THEN SelectSeq(Cuts(k), LAMBDA q : Len(q) >= c.cmin)
              ELSE IF Splits(c) /\ N1(c, k) > c.cmax THEN SelectSeq([i \in 1..NSub(c, k) |-> SubSeq(PoolSeq(c, k), 1, c.cmax)], LAMBDA q : Len(q) >= c.cmin)
              ELSE IF N1(c, k) < c.cmin THEN <<>>
              ELSE IF c.cmode = 3 THEN <<SubSeq(PoolSeq(c, k), 1, Min2(N1(c, k), c.cmax))>>
              ELSE <<PoolSeq(c, k)>>
Result == PartsOf(1) \o PartsOf(2)
Accepted == step = 1 => ReadOk(c, Result)
Limits == step = 1 => \A i \in DOMAIN Result : /\ (c.cmax > 0 => Len(Result[i]) <= c.cmax /\ Len(Result[i]) >= c.cmin)
                                   /\ (c.max > 0 => Len(Result[i]) <= c.max)
Covers == (step = 1 /\ Splits(c) /\ c.cmode = 1 /\ c.cmin = 1) => \A k \in Classes(c) : UNION {Rng(Result[i]) : i \in {j \in DOMAIN Result : c.cls[Result[j][1]] = k}} = Rng(PoolSeq(c, k))
\* and it tells wrong divisions apart: a vector less, a vector of the other class
Rejects == step = 1 => \A i \in DOMAIN Result : Len(Result[i]) > 1 => ~ReadOk(c, [Result EXCEPT ![i] = Tail(@)])
Emit == (step = 1 /\ (Len(ToJson(c)) + c.cmax + c.max + c.ov) % EVERY = 0) => PrintT("@@BEH " \o ToJson(c))
=============================================================================
