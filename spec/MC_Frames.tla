------------------------------ MODULE MC_Frames ------------------------------
(* All short sequences: the windows the specification asks for against the    *)
(* ways of computing them by running sums, and what follows from them.        *)
EXTENDS Frames, Json
CONSTANTS N, V, C, EVERY
VARIABLES q, L, R, run
vars == <<q, L, R, run>>
\* run: sums up to each frame, built frame by frame
Init == /\ q \in UNION {[1..n -> 0..V] : n \in 1..N}
        /\ L \in (-1)..C /\ R \in (-1)..C
        /\ run = <<0>>
Next == Len(run) <= Len(q) /\ run' = Append(run, run[Len(run)] + q[Len(run)]) /\ UNCHANGED <<q, L, R>>
Spec == Init /\ [][Next]_vars
Done == Len(run) = Len(q) + 1
n == Len(q)
RunningSum == Done => \A t \in 1..n : LET s == Stat(q, t, L, R) IN s[2] = run[Hi(t, R, n) + 1] - run[Lo(t, L)] /\ s[1] = Cardinality(Win(t, L, R, n))
\* contexts that reach over the whole sequence are no contexts
Whole == (Done /\ (L < 0 \/ L >= n - 1) /\ (R < 0 \/ R >= n - 1)) => \A t \in 1..n : Stat(q, t, L, R) = Stat(q, t, -1, -1)
\* moving all values by one moves the mean: centred values stay
Centred == Done => \A t \in 1..n : LET p == [i \in 1..n |-> q[i] + 1] IN NormVal(q, t, L, R, TRUE) = NormVal(p, t, L, R, TRUE)
Deviates == Done => \A t \in 1..n : NormVal(q, t, L, R, TRUE)[2] >= 0
Raw == [t \in 1..n |-> q[t] > 0]
\* more voiced frames never unvoice one; everything voiced stays voiced, nothing voiced stays silent
Monotone == (Done /\ L >= 0) => \A p \in {<<1, 2>>, <<3, 5>>, <<1, 10>>} :
              /\ \A i \in 1..n : \A t \in 1..n : Vote(Raw, L, p)[t] => Vote([Raw EXCEPT ![i] = TRUE], L, p)[t]
              /\ (\A t \in 1..n : Raw[t]) => \A t \in 1..n : Vote(Raw, L, p)[t]
              /\ (\A t \in 1..n : ~Raw[t]) => \A t \in 1..n : ~Vote(Raw, L, p)[t]
SelectOk == Done => \A m \in 1..(n + 2) : LET s == Select(m, Raw) IN \A i \in DOMAIN s : Raw[s[i]] /\ s[i] <= m /\ (i > 1 => s[i] > s[i - 1])
\* every sample is in some frame when frames overlap, and the frames of a padded signal are centred
Cover == (Done /\ L >= 1 /\ R >= 0) => LET LEN == L + R IN LEN <= n => \A x \in 0..(((NumFrames(n, LEN, L) - 1) * L) + LEN - 1) : \E t \in 0..(NumFrames(n, LEN, L) - 1) : x \in Samples(n, LEN, L, TRUE, t)
Emit == (Len(run) = 1 /\ (SumTo(q, 1, n) + (3 * q[n]) + L + (5 * R)) % EVERY = 0) => PrintT("@@BEH " \o ToJson([q |-> q, L |-> L, R |-> R]))
=============================================================================
