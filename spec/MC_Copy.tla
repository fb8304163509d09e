------------------------------- MODULE MC_Copy ------------------------------
(* Copying, one chunk per step: all splits of up to N records over up to NI   *)
(* inputs, chunk sizes 0..C (0: all that remain) and numbers of parts.        *)
EXTENDS Copy, Json
CONSTANTS N, NI, C, EVERY
VARIABLES ins, chunk, np, part, i, cur, outs
vars == <<ins, chunk, np, part, i, cur, outs>>
\* sizes of the inputs
RECURSIVE Sizes(_, _)
Sizes(k, n) == IF k = 1 THEN {<<n>>} ELSE UNION {{<<a>> \o t : t \in Sizes(k - 1, n - a)} : a \in 0..n}
Init == /\ \E k \in 1..NI, n \in 0..N : ins \in Sizes(k, n)
        /\ chunk \in 0..C /\ np \in 1..(IF Len(ins) = 1 THEN 3 ELSE 1)
        /\ part = 1 /\ i = 1 /\ cur = 0 /\ outs = [p \in 1..np |-> <<>>]
\* contiguous parts, the lengths differ by one at most
From(p) == (ins[i] * (p - 1)) \div np
To(p) == (ins[i] * p) \div np
Lo == IF np = 1 THEN 0 ELSE From(part)
Hi == IF np = 1 THEN ins[i] ELSE To(part)
Base == SumSeq(SubSeq(ins, 1, i - 1))
Eof == Lo + cur >= Hi
Read == /\ part <= np /\ i <= Len(ins) /\ ~Eof
        /\ LET left == Hi - Lo - cur
               n == IF chunk = 0 THEN left ELSE Min2(chunk, left)
           IN /\ outs' = [outs EXCEPT ![part] = @ \o [j \in 1..n |-> Base + Lo + cur + j]]
              /\ cur' = cur + n
        /\ UNCHANGED <<ins, chunk, np, part, i>>
NextIn == part <= np /\ i < Len(ins) /\ Eof /\ i' = i + 1 /\ cur' = 0 /\ UNCHANGED <<ins, chunk, np, part, outs>>
NextPart == part <= np /\ i = Len(ins) /\ Eof /\ part' = part + 1 /\ i' = 1 /\ cur' = 0 /\ UNCHANGED <<ins, chunk, np, outs>>
Next == Read \/ NextIn \/ NextPart
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == part > np
Total == SumSeq(ins)
Exactly == Done => FlatSeq(outs) = [j \in 1..Total |-> j]
Never == \A p \in 1..np : IsInj(outs[p]) /\ \A q \in 1..np : p # q => Rng(outs[p]) \cap Rng(outs[q]) = {}
Halts == <>Done
Emit == (Done /\ ((Total * 5) + chunk + (np * 3) + ins[1]) % EVERY = 0) => PrintT("@@BEH " \o ToJson([ins |-> ins, chunk |-> chunk, n |-> np]))
=============================================================================
