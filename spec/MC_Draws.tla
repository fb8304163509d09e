------------------------------ MODULE MC_Draws ------------------------------
(* Batches of drawn classes: what drawing classes, then utterances of each,   *)
(* and repeating them can give is what the property of a batch allows, and    *)
(* nothing else.                                                              *)
EXTENDS Batches, Json
CONSTANTS N, NC, MAXB
VARIABLES c, step
Init == /\ \E n \in 1..N : \E cls \in [1..n -> 1..NC], epc, epu \in 1..3, b \in 1..MAXB :
             c = [n |-> n, cls |-> cls, epc |-> epc, epu |-> epu, batch |-> b]
        /\ step = 0
Next == UNCHANGED <<c, step>>
Spec == Init /\ [][Next]_<<c, step>>
Utts == 1..c.n
ClassOfU(k) == {u \in Utts : c.cls[u] = k}
Present == {k \in 1..NC : ClassOfU(k) # {}}
\* constructive: ceil(batch / epc / epu) classes, epc utterances of each, epu segments of each, cut at the batch
Groups == CeilDiv(c.batch, c.epc * c.epu)
Drawn == LET cs == [1..Groups -> Present] IN
         UNION {LET us == {f \in [1..(Groups * c.epc) -> Utts] : \A i \in 1..(Groups * c.epc) : c.cls[f[i]] = q[((i - 1) \div c.epc) + 1]} IN
                {[i \in 1..c.batch |-> f[((i - 1) \div c.epu) + 1]] : f \in us} : q \in cs}
AsExs(q) == [i \in 1..Len(q) |-> [u |-> q[i]]]
Allowed == {q \in [1..c.batch -> Utts] : GroupsOk([cls |-> c.cls, epc |-> c.epc, epu |-> c.epu], AsExs(q))}
Equivalent == Drawn = Allowed
Emit == PrintT("@@BEH " \o ToJson(c))
=============================================================================
