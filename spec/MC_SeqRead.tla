------------------------------ MODULE MC_SeqRead ------------------------------
(* A reader of sequences that gives batches epoch after epoch, in any order of    *)
(* the sequences that the specification allows.                                   *)
EXTENDS SeqRead, Json
CONSTANTS NS, LENS, BS, MNS, MXS, OVS, EPOCHS, EVERY
VARIABLES st, given, ep
vars == <<st, given, ep>>
Modes == {"sequential", "random_slice", "random_samples", "random_slice_1seq", "random_samples_1seq"}
Opts == {o \in [len : [1..NS -> LENS], B : BS, mn : MNS, mx : MXS, ov : OVS, mode : Modes, shuffle : BOOLEAN] :
          /\ o.mx = 0 => o.mode = "sequential" /\ o.ov = 0
          /\ o.mx > 0 => o.ov < o.mx /\ o.mn <= o.mx /\ (o.mn > o.ov \/ o.ov = 0)
          /\ o.mode \in {"random_slice_1seq", "random_samples_1seq"} => o.ov = 0
          /\ \A s \in 1..NS : o.len[s] >= o.ov}
Ext(o) == [len |-> o.len, B |-> o.B, mn |-> o.mn, mx |-> o.mx, ov |-> o.ov, mode |-> o.mode, shuffle |-> o.shuffle, cls |-> <<>>, C |-> 0]
Init == /\ \E o \in Opts : Batches(o) > 0 /\ st = Start(Ext(o))
        /\ given = <<>> /\ ep = 1
Frames0(s) == IF st.o.mx > 0 /\ st.o.mode # "sequential" THEN (IF st.o.mode \in {"random_slice", "random_slice_1seq"} THEN st.o.len[s] - Size(st.o, s, 0) ELSE 0) ELSE st.fr[s]
Item(s) == [k |-> s, rows |-> IF st.o.mx > 0 /\ st.o.mode \in {"random_samples", "random_samples_1seq"} THEN [t \in 1..Size(st.o, s, 0) |-> <<s, 0>>] ELSE Run(s, Frames0(s), Size(st.o, s, st.fr[s]))]
\* one piece at a time; a batch is B pieces
Piece == /\ Len(given) < Batches(st.o) * st.o.B
         /\ \E s \in 1..NS : LET g == Give(st, <<Item(s)>>, 1) IN /\ g.ok
                                                                  /\ st' = [g.st EXCEPT !.nb = (Len(given) + 1) \div st.o.B]
                                                                  /\ given' = Append(given, Item(s).rows)
         /\ UNCHANGED ep
Epoch == /\ Len(given) = Batches(st.o) * st.o.B /\ ep < EPOCHS
         /\ st' = Start(st.o) /\ given' = <<>> /\ ep' = ep + 1
Next == Piece \/ Epoch
Spec == Init /\ [][Next]_vars
All == FlatSeq(given)
\* there is always a piece until the epoch ends
Enabled == Len(given) < Batches(st.o) * st.o.B => \E s \in 1..NS : Give(st, <<Item(s)>>, 1).ok
PieceLens == \A i \in DOMAIN given : Len(given[i]) >= 1 /\ (st.o.mx > 0 => Len(given[i]) <= st.o.mx) /\ (Len(given[i]) >= st.o.mn)
\* without overlap no frame is given twice in an epoch
Once == (st.o.mx = 0 \/ (st.o.mode = "sequential" /\ st.o.ov = 0)) => IsInj(All)
\* when the pieces fill the batches, what the epoch does not give is shorter than the minimum
Left(s) == {t \in 0..(st.o.len[s] - 1) : <<s, t>> \notin Rng(All)}
Cover == (Len(given) = Total(st.o) /\ (st.o.mx = 0 \/ st.o.mode = "sequential")) => \A s \in 1..NS : Cardinality(Left(s)) < st.o.mn
RemOk == \A s \in 1..NS : st.rem[s] >= 0
H == SumSeq([s \in 1..NS |-> st.o.len[s] * ((5 * s) + 2)]) + (7 * st.o.B) + (11 * st.o.mn) + (13 * st.o.mx) + (17 * st.o.ov) + (IF st.o.shuffle THEN 3 ELSE 0) + (IF st.o.mode = "sequential" THEN 1 ELSE IF st.o.mode = "random_slice" THEN 4 ELSE 9)
Emit == (given = <<>> /\ ep = 1 /\ H % EVERY = 0) => PrintT("@@BEH " \o ToJson(st.o))
=============================================================================
