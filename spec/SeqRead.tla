------------------------------- MODULE SeqRead -------------------------------
(* Readers of sequences of frames for training, with or without labels and      *)
(* posteriors of the frames, and readers of vectors for trials over parts of    *)
(* the test recordings.                                                         *)
(* State: the reader that is open: its options and what the epoch has left:     *)
(*   rem[s]: pieces of sequence s to come,  fr[s]: frame of the next piece,      *)
(*   cur: sequence where the search for the next piece begins, nb: batches given *)
EXTENDS Util

\* o.len[s]: frames of the sequences; o.mx = 0: whole sequences
One(o) == o.mx = 0 \/ o.mode \in {"random_slice_1seq", "random_samples_1seq"}
Pieces(o, s) == IF One(o) THEN (IF o.len[s] >= o.mn THEN 1 ELSE 0)
                ELSE LET sh == o.mx - o.ov
                         n == (o.len[s] - o.ov) \div sh
                     IN n + (IF o.len[s] - (n * sh) >= o.mn THEN 1 ELSE 0)
Total(o) == SumSeq([s \in DOMAIN o.len |-> Pieces(o, s)])
Batches(o) == Total(o) \div o.B
Start(o) == [o |-> o, rem |-> [s \in DOMAIN o.len |-> Pieces(o, s)], fr |-> [s \in DOMAIN o.len |-> 0], cur |-> 1, nb |-> 0]
Size(o, s, f) == IF o.mx = 0 THEN o.len[s] ELSE IF o.mode = "sequential" THEN Min2(o.len[s] - f, o.mx) ELSE Min2(o.len[s], o.mx)
\* next sequence with pieces, searched in circles
After(s, n) == (s % n) + 1
RECURSIVE Seek(_, _, _)
Seek(rem, s, k) == IF k = 0 \/ rem[s] > 0 THEN s ELSE Seek(rem, After(s, Len(rem)), k - 1)

\* frames <<sequence, frame>> of a piece
Run(s, f, n) == [t \in 1..n |-> <<s, (f + t) - 1>>]
PieceOk(o, s, f, rows) ==
  LET n == Size(o, s, f)
  IN /\ Len(rows) = n
     /\ IF o.mx = 0 \/ o.mode = "sequential" THEN rows = Run(s, f, n)
        ELSE IF o.mode \in {"random_slice", "random_slice_1seq"} THEN rows[1][2] \in 0..(o.len[s] - n) /\ rows = Run(s, rows[1][2], n)
        ELSE /\ \A t \in DOMAIN rows : rows[t][1] = s /\ rows[t][2] \in 0..(o.len[s] - 1)
             /\ \A t \in 2..n : rows[t - 1][2] <= rows[t][2]
\* posteriors of a frame: 3/4 for one component and 1/4 for another
Post(o, r) == {<<((3 * r[1]) + r[2]) % o.C, 75>>, <<((3 * r[1]) + r[2] + 1) % o.C, 25>>}
\* what is left after the piece of sequence s
Take(st, s) == [st EXCEPT !.rem[s] = @ - 1, !.fr[s] = @ + (st.o.mx - st.o.ov), !.cur = After(s, Len(st.o.len))]
RECURSIVE Give(_, _, _)
Give(st, items, i) ==
  IF i > Len(items) THEN Good(st)
  ELSE LET s == items[i].k
           o == st.o
           it == items[i]
       IN IF s \notin DOMAIN o.len THEN Bad(st, "unknown sequence")
          ELSE IF st.rem[s] < 1 THEN Bad(st, "a sequence is given more often in the epoch than it has pieces")
          ELSE IF ~o.shuffle /\ s # Seek(st.rem, st.cur, Len(o.len)) THEN Bad(st, "order of the sequences")
          ELSE IF ~PieceOk(o, s, st.fr[s], it.rows) THEN Bad(st, "frames of the piece of a sequence")
          ELSE IF o.cls # <<>> /\ it.y # o.cls[s] THEN Bad(st, "class of a sequence")
          ELSE IF o.C > 0 /\ (Len(it.post) # Len(it.rows) \/ \E t \in DOMAIN it.rows : Rng(it.post[t]) # Post(o, it.rows[t])) THEN Bad(st, "posteriors of the frames")
          ELSE Give(Take(st, s), items, i + 1)

Trials(m, g, t) == {<<m[i], g[j]>> : i \in DOMAIN m, j \in DOMAIN g} \cap t
InitSt(i) == [o |-> [len |-> <<>>, B |-> 1], rem |-> <<>>, fr |-> <<>>, cur |-> 1, nb |-> 0]
Judge(s, e) ==
  IF e.exc # "" THEN Bad(s, "the reader failed")
  ELSE CASE e.op = "open" ->
       IF e.obs # [n |-> Len(e.o.len), len |-> e.o.len, sub |-> [k \in DOMAIN e.o.len |-> Pieces(e.o, k)], tot |-> Total(e.o), nb |-> Batches(e.o), mb |-> IF e.o.mx = 0 THEN MaxS(Rng(e.o.len)) ELSE e.o.mx] THEN Bad(s, "numbers of sequences, frames, pieces and batches")
       ELSE Good(Start(e.o))
    [] e.op = "read" ->
       LET st == IF s.nb = Batches(s.o) THEN Start(s.o) ELSE s
       IN IF Len(e.items) # s.o.B THEN Bad(s, "number of pieces of a batch")
          ELSE IF e.pad # 0 THEN Bad(s, "frames of a batch beyond the end of the sequence")
          ELSE LET g == Give(st, e.items, 1) IN IF g.ok THEN Good([g.st EXCEPT !.nb = @ + 1]) ELSE Bad(s, g.why)
    [] e.op = "again" -> IF e.same THEN Good(s) ELSE Bad(s, "two readers with the same seed differ")
    [] e.op = "parts" ->
       \* sequences of a label are in one part; the parts have all sequences once
       LET all == FlatSeq(e.obs)
       IN IF ~IsInj(all) \/ Rng(all) # DOMAIN e.cls THEN Bad(s, "sequences of the parts")
          ELSE IF \E p, r \in DOMAIN e.obs : p # r /\ \E i \in DOMAIN e.obs[p], j \in DOMAIN e.obs[r] : e.cls[e.obs[p][i]] = e.cls[e.obs[r][j]] THEN Bad(s, "label in two parts")
          ELSE Good(s)
    [] e.op = "trials" ->
       \* e.obs: for each part [m, g, mask: set of trials, enr: <<vector, model>>, seg: <<vector, label>>]
       LET T == Rng(e.trials)
           ms == {t[1] : t \in T}
           gs == {t[2] : t \in T}
           all == [p \in DOMAIN e.obs |-> Rng(e.obs[p].mask)]
           subs(g) == {i \in DOMAIN e.sub : e.sub[i][2] \in g}
       IN IF \E p, r \in DOMAIN e.obs : p # r /\ all[p] \cap all[r] # {} THEN Bad(s, "trial in two parts")
          ELSE IF \E p \in DOMAIN e.obs : ~IsInj(e.obs[p].m) \/ ~IsInj(e.obs[p].g) THEN Bad(s, "models and segments of a part")
          ELSE IF e.kind = "multi" /\ UNION Rng(all) # T THEN Bad(s, "trials of the parts")
          ELSE IF e.kind = "track" /\ UNION Rng(all) # UNION {{<<t[1], e.sub[i][1]>> : i \in subs({t[2]})} : t \in T} THEN Bad(s, "trials of the parts")
          ELSE IF e.kind = "multi" /\ \E p \in DOMAIN e.obs : all[p] # Trials(e.obs[p].m, e.obs[p].g, T) THEN Bad(s, "trials of a part")
          ELSE IF \E p \in DOMAIN e.obs : Rng(e.obs[p].enr) # {e.enroll[i] : i \in {j \in DOMAIN e.enroll : e.enroll[j][2] \in Rng(e.obs[p].m)}} \/ ~IsInj(e.obs[p].enr) THEN Bad(s, "vectors of the models")
          ELSE IF e.kind = "multi" /\ \E p \in DOMAIN e.obs : ~({e.sub[i] : i \in subs(Rng(e.obs[p].g))} \subseteq Rng(e.obs[p].seg)) \/ ~(Rng(e.obs[p].seg) \subseteq Rng(e.sub)) \/ ~IsInj(e.obs[p].seg) THEN Bad(s, "vectors of the parts of the test recordings")
          ELSE IF e.kind = "multi" /\ Len(e.obs) > 1 /\ \E p \in DOMAIN e.obs : Rng(e.obs[p].seg) # {e.sub[i] : i \in subs(Rng(e.obs[p].g))} THEN Bad(s, "vectors of the parts of the test recordings of a part")
          \* the segments given have those of the trials of the part
          ELSE IF e.kind = "track" /\ \E p \in DOMAIN e.obs : ~IsInj(e.obs[p].tail) \/ ~(Rng(e.obs[p].tail) \subseteq Rng(e.sub)) \/ ~(Rng(e.obs[p].g) \subseteq {x[1] : x \in Rng(e.obs[p].tail)}) THEN Bad(s, "segments of a part")
          ELSE IF e.kind = "track" /\ \E p \in DOMAIN e.obs : e.obs[p].cut /\ ~({x[1] : x \in Rng(e.obs[p].tail)} \subseteq Rng(e.obs[p].g)) THEN Bad(s, "segments of a recording or of a part")
          ELSE IF e.kind = "track" /\ \E p \in DOMAIN e.obs : e.obs[p].seg # [i \in DOMAIN e.obs[p].g |-> <<e.obs[p].g[i], e.obs[p].g[i]>>] THEN Bad(s, "vectors of the segments")
          ELSE Good(s)
    [] OTHER -> Bad(s, "unknown event")
=============================================================================
