------------------------------- MODULE MC_Tools -------------------------------
(* Segments of recordings added one by one, their marks and the intervals of     *)
(* the marks.                                                                     *)
EXTENDS Tools, Json
CONSTANTS MAXS, TS, NF, EVERY
VARIABLES segs
vars == <<segs>>
S == 10
nf == <<<<1, NF>>, <<2, NF>>, <<3, 2>>>>
Init == segs = <<>>
Next == /\ Len(segs) < MAXS
        /\ \E f \in 1..2, b \in TS, d \in TS : b < d /\ segs' = Append(segs, <<f, b, d>>)
Spec == Init /\ [][Next]_vars
M(n, f) == Marks(segs, S, n, f)
Ok(v) == LET iv == Intervals(v) IN
  /\ (v = <<>>) = (iv = <<>>)
  /\ v # <<>> => iv[1][1] = 0 /\ iv[Len(iv)][2] = Len(v)
  /\ \A i \in DOMAIN iv : /\ iv[i][1] < iv[i][2]
                          /\ i > 1 => (iv[i][1] = iv[i - 1][2] /\ iv[i][3] # iv[i - 1][3])
                          /\ \A t \in (iv[i][1] + 1)..iv[i][2] : v[t] = iv[i][3]
\* intervals are disjoint, cover the recording and say what the marks say
IvOk == \A f \in Files(segs) : Ok(M(nf, f)) /\ Ok(M(<<>>, f))
\* without numbers of frames the marks are a beginning of those with them, as far as both go
LenOk == \A f \in Files(segs) : LET u == M(nf, f)
                                    v == M(<<>>, f)
                                IN \A t \in 1..Min2(Len(u), Len(v)) : u[t] = v[t]
\* the order of the segments does not matter
OrderOk == \A f \in Files(segs) : M(nf, f) = Marks([i \in DOMAIN segs |-> segs[(Len(segs) + 1) - i]], S, nf, f)
\* a segment adds marks and takes none; other files stay
NextOk == [][LET n == segs'[Len(segs')] IN \A f \in Files(segs) : \A t \in 1..NF : (Marks(segs, S, nf, f)[t] = 1 => Marks(segs', S, nf, f)[t] = 1)
                                                                       /\ (f # n[1] => Marks(segs, S, nf, f)[t] = Marks(segs', S, nf, f)[t])]_vars
H == SumSeq([i \in DOMAIN segs |-> (segs[i][1] + (3 * segs[i][2]) + (7 * segs[i][3])) * i])
Emit == (segs # <<>> /\ (H \div 2) % EVERY = 0) => PrintT("@@BEH " \o ToJson([segs |-> segs, nf |-> nf, S |-> S]))
=============================================================================
