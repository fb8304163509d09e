------------------------------- MODULE MC_Audio ------------------------------
(* Small sets of recordings and segments with every history of calls on one    *)
(* sequential reader.                                                           *)
EXTENDS Audio, Json
CONSTANTS NR, NS, LENS, TIMES, OPS, EVERY
VARIABLES st, seg, h, got
vars == <<st, seg, h, got>>
Rec(i, n) == [key |-> "r" \o ToString(i), fs |-> 64, x |-> [j \in 1..n |-> (10 * i) + j]]
Seg(i, f, tb, te) == [key |-> "s" \o ToString(i), file |-> "r" \o ToString(f), tb |-> tb, te |-> te]
Init == /\ \E n \in [1..NR -> LENS] : \E f \in [1..NS -> 1..(NR + 1)] : \E b \in [1..NS -> TIMES] : \E d \in [1..NS -> TIMES] :
             /\ \A i \in 1..NS : d[i] > 0
             /\ st = [recs |-> [i \in 1..NR |-> Rec(i, n[i])], segs |-> [i \in 1..NS |-> Seg(i, f[i], b[i], b[i] + d[i])], rd |-> <<>>, parts |-> <<>>]
        /\ seg \in BOOLEAN
        /\ h = <<>> /\ got = <<>>
It == Items(st, seg)
Pos == st.rd[1].pos
Read(n) == LET left == Len(It) - Pos
               k == IF n = 0 THEN left ELSE Min2(n, left)
               w == SubSeq(It, Pos + 1, Pos + k)
           IN /\ ~st.rd[1].lost
              /\ IF \E i \in DOMAIN w : ~w[i].ok THEN st' = [st EXCEPT !.rd[1].lost = TRUE] /\ UNCHANGED got
                 ELSE st' = [st EXCEPT !.rd[1].pos = @ + k] /\ got' = got \o [i \in DOMAIN w |-> w[i].key]
              /\ h' = Append(h, [op |-> "read", n |-> n])
Reset == st' = [st EXCEPT !.rd[1].pos = 0, !.rd[1].lost = FALSE] /\ got' = <<>> /\ h' = Append(h, [op |-> "reset", n |-> 0])
Next == IF st.rd = <<>> THEN st' = [st EXCEPT !.rd = <<[items |-> It, pos |-> 0, lost |-> FALSE, c |-> 1]>>] /\ UNCHANGED <<h, got, seg>>
        ELSE Len(h) < OPS /\ UNCHANGED seg /\ ((\E n \in 0..2 : Read(n)) \/ Reset)
Spec == Init /\ [][Next]_vars
Once == IsInj(got) /\ (st.rd # <<>> => Len(got) = Pos)
InOrder == got = [i \in DOMAIN got |-> It[i].key]
\* a segment holds no sample of outside its times and all of them inside the recording
CutOk == \A i \in DOMAIN st.segs : LET g == st.segs[i] IN HasRec(st, g.file) => LET r == RecOf(st, g.file) IN
           \A j \in DOMAIN r.x : (\E q \in DOMAIN Piece(st, g).x : Piece(st, g).x[q] = r.x[j]) = (~Outside(r, g) /\ 64 * (j - 1) >= g.tb * r.fs /\ 64 * j <= g.te * r.fs)
\* adjoining segments share no sample and lose none
Adjoin == \A i \in 1..NS : \A j \in 1..NS : LET a == st.segs[i]
                                                b == st.segs[j]
          IN (a.file = b.file /\ a.te = b.tb /\ HasRec(st, a.file)) => LET r == RecOf(st, a.file) IN ~Outside(r, b) => Piece(st, a).x \o Piece(st, b).x = Piece(st, [a EXCEPT !.te = b.te]).x
Emit == (Len(h) = OPS /\ (SumSeq([i \in DOMAIN h |-> i * (h[i].n + Len(h[i].op))]) + SumSeq([i \in DOMAIN st.segs |-> (3 * st.segs[i].tb) + st.segs[i].te]) + Len(st.recs[1].x)) % EVERY = 0)
        => PrintT("@@BEH " \o ToJson([recs |-> st.recs, segs |-> st.segs, seg |-> seg, h |-> h]))
=============================================================================
