-------------------------------- MODULE Tools --------------------------------
(* Tools of the command line that make, convert and count data of recordings:   *)
(* marks of voice activity from segments and back to intervals, energies,       *)
(* copies of archives, likelihoods and posteriors of mixtures, scores.          *)
(* Each run of a tool is judged by itself: there is no state.                   *)
EXTENDS Util
Fr == INSTANCE Frames
C == INSTANCE Classif

AbsV(x) == IF x < 0 THEN -x ELSE x
Near(a, b, t) == AbsV(a - b) <= t
(*------------------------------- voice activity ------------------------------*)
\* frame of a time, both in ms; times half way between frames are not used
Frame(t, S) == ((2 * t) + S) \div (2 * S)
Files(segs) == {segs[i][1] : i \in DOMAIN segs}
Given(nf, f) == {i \in DOMAIN nf : nf[i][1] = f}
Length(segs, S, nf, f) == IF nf # <<>> THEN nf[CHOOSE i \in Given(nf, f) : TRUE][2]
                          ELSE MaxS({Frame(segs[i][3], S) : i \in {j \in DOMAIN segs : segs[j][1] = f}})
\* marks of a file: frames from that of the beginning to that of the end of a segment, as far as there are
Marks(segs, S, nf, f) == LET ivs == {<<Frame(segs[i][2], S), Frame(segs[i][3], S)>> : i \in {j \in DOMAIN segs : segs[j][1] = f}}
                         IN [t \in 1..Length(segs, S, nf, f) |-> IF \E v \in ivs : v[1] <= t - 1 /\ t - 1 <= v[2] THEN 1 ELSE 0]
\* maximal intervals of equal marks <<first frame, frame after the last, mark>>
RECURSIVE Ivs(_, _, _)
Ivs(v, from, t) == IF v = <<>> THEN <<>>
                   ELSE IF t > Len(v) THEN <<<<from, Len(v), v[from + 1]>>>>
                   ELSE IF v[t] # v[from + 1] THEN <<<<from, t - 1, v[from + 1]>>>> \o Ivs(v, t - 1, t + 1)
                   ELSE Ivs(v, from, t + 1)
Intervals(v) == Ivs(v, 0, 1)
(*---------------------------------- mixtures ---------------------------------*)
\* 1000 times the log of 2^k
L2(k) == (k * 693) + ((k * 147) \div 1000)
\* log-likelihood of x and component c in 1/1000 without the constant; weights 2^-k, precisions 4^q
Sc(g, c, x) == L2(SumSeq(g.q[c]) - g.k[c]) - (500 * SumSeq([a \in DOMAIN x |-> (IF g.q[c][a] = 0 THEN 1 ELSE 4) * (x[a] - g.m[c][a]) * (x[a] - g.m[c][a])]))
Best(g, x) == MaxS({Sc(g, c, x) : c \in DOMAIN g.k})

Find(recs, k) == recs[CHOOSE i \in DOMAIN recs : recs[i][1] = k][2]
Keys(recs) == [i \in DOMAIN recs |-> recs[i][1]]

\* score of a class in 1/1000: linear with the uncertainty of the vector, or twice the one of Q-scoring without the constant
BackScore(e, k, r) == IF e.tool = "up" THEN SumSeq([a \in DOMAIN e.S |-> C!Quot(500 * ((2 * r.x[a] * e.mu[k][a]) - (e.mu[k][a] * e.mu[k][a])), e.S[a] + r.u[a])])
                      ELSE SumSeq([a \in DOMAIN e.S |-> C!QTerm(e.S[a], r.u[a], e.mu[k][a], r.x[a])])
InitSt(i) == <<>>
Judge(s, e) ==
  IF e.exc # "" THEN Bad(s, "the tool failed")
  ELSE CASE e.op = "vad" ->
       \* e.obs: for each part, <<file, marks>>
       LET all == FlatSeq(e.obs)
           fs == Files(e.segs)
           rest == IF e.src = "rttm" THEN {e.nf[i][1] : i \in DOMAIN e.nf} \ fs ELSE {}
       IN IF ~IsInj(Keys(all)) \/ Rng(Keys(all)) # fs \cup rest THEN Bad(s, "files in the parts")
          ELSE IF \E f \in rest : ~(\E i \in DOMAIN e.obs[1] : e.obs[1][i][1] = f) THEN Bad(s, "files without speech are not in the first part")
          ELSE IF \E i \in DOMAIN all : all[i][1] \in fs /\ all[i][2] # Marks(e.segs, e.S, e.nf, all[i][1]) THEN Bad(s, "marks of a file with segments")
          ELSE IF \E i \in DOMAIN all : all[i][1] \in rest /\ all[i][2] # [t \in 1..(Length(<<>>, e.S, e.nf, all[i][1])) |-> 1] THEN Bad(s, "marks of a file without segments")
          ELSE Good(s)
    [] e.op = "nist" ->
       IF ~IsInj(Keys(e.obs)) \/ Rng(Keys(e.obs)) # Rng(Keys(e.recs)) THEN Bad(s, "one file of intervals for each recording")
       ELSE IF \E i \in DOMAIN e.obs : e.obs[i][2] # Intervals(Find(e.recs, e.obs[i][1])) THEN Bad(s, "intervals of speech")
       ELSE Good(s)
    [] e.op = "conv" ->
       \* every record once, unchanged
       LET all == FlatSeq(e.recs)
       IN IF ~IsInj(Keys(e.obs)) \/ Rng(Keys(e.obs)) # Rng(Keys(all)) THEN Bad(s, "records in the output of " \o e.tool)
          ELSE IF \E i \in DOMAIN all : Find(e.obs, all[i][1]) # (IF e.squeeze /\ all[i][2][1][1] = 1 THEN <<Tail(all[i][2][1]), all[i][2][2]>> ELSE all[i][2]) THEN Bad(s, "data in the output of " \o e.tool)
          ELSE Good(s)
    [] e.op = "frames" ->
       \* a recording with an offset does not change the next; the parts have the recordings between them, in the order of the list when there is one part
       LET all == FlatSeq(e.obs)
           pos(k) == CHOOSE j \in DOMAIN e.recs : e.recs[j][1] = k
           count(r, n) == IF e.snip THEN n = Fr!NumFrames(r.n, e.L, e.S) ELSE AbsV((2 * n * e.S) - (2 * r.n)) <= e.S
       IN IF ~IsInj(Keys(all)) \/ Rng(Keys(all)) # Rng(Keys(e.recs)) THEN Bad(s, "recordings in the output of " \o e.tool)
          ELSE IF Len(e.obs) = 1 /\ \E i, j \in DOMAIN all : i < j /\ pos(all[i][1]) >= pos(all[j][1]) THEN Bad(s, "order of the recordings in the output of " \o e.tool)
          ELSE IF \E i \in DOMAIN all : ~count(Find(e.recs, all[i][1]), Len(all[i][2])) THEN Bad(s, "number of frames")
          ELSE IF \E i \in DOMAIN all : LET r == Find(e.recs, all[i][1]) IN ~r.dc /\ all[i][2] # Fr!Marked(r.n, e.L, e.S, e.snip, Len(all[i][2]), Rng(r.burst)) THEN Bad(s, "frames with the energy of the recording")
          ELSE IF e.lens # <<>> /\ (Len(e.lens) # Len(all) \/ Rng(e.lens) # {<<all[i][1], Len(all[i][2])>> : i \in DOMAIN all}) THEN Bad(s, "list of the numbers of frames")
          ELSE Good(s)
    [] e.op = "post" ->
       IF Rng(Keys(e.obs)) # Rng(Keys(e.recs)) THEN Bad(s, "recordings with posteriors")
       ELSE IF \E i \in DOMAIN e.obs : LET x == Find(e.recs, e.obs[i][1])
                                          o == e.obs[i][2]
                                      IN \/ Len(o) # Len(x)
                                         \/ \E t \in DOMAIN x : LET cs == Rng(o[t].c)
                                                                    sc == [c \in DOMAIN e.g.k |-> Sc(e.g, c, x[t])]
                                                                IN \/ Len(o[t].c) # e.n \/ Cardinality(cs) # e.n
                                                                   \/ ~(cs \subseteq DOMAIN e.g.k)
                                                                   \/ \E c \in cs, d \in (DOMAIN e.g.k) \ cs : sc[d] > sc[c] + 2
                                                                   \/ ~Near(SumSeq(o[t].p), 10000, 2 + e.n)
                                                                   \/ \E j, h \in DOMAIN o[t].c : o[t].l[j] > -14000 /\ o[t].l[h] > -14000 /\ ~Near(o[t].l[j] - o[t].l[h], sc[o[t].c[j]] - sc[o[t].c[h]], 6)
                                                                   \/ \E j \in DOMAIN o[t].c : o[t].l[j] <= -14000 /\ sc[o[t].c[j]] > Best(e.g, x[t]) - 12000
            THEN Bad(s, "posteriors of the best components")
       ELSE Good(s)
    [] e.op = "elbo" ->
       \* every frame close to one component only: its log-likelihood is that of the component
       LET all == FlatSeq([i \in DOMAIN e.recs |-> e.recs[i][2]])
           tot == SumSeq([t \in DOMAIN all |-> Best(e.g, all[t])]) - ((918939 * Len(all) * Len(e.g.m[1])) \div 1000)
       IN IF Len(e.obs) # Len(e.frames) \/ SumSeq(e.frames) # Len(all) THEN Bad(s, "frames of the parts")
          ELSE IF ~Near(SumSeq([p \in DOMAIN e.obs |-> e.obs[p][1]]), tot, 4 + Len(all)) THEN Bad(s, "log-likelihood of the recordings")
          ELSE IF \E p \in DOMAIN e.obs : ~Near(e.obs[p][2] * e.frames[p], e.obs[p][1], 4 + (2 * e.frames[p])) THEN Bad(s, "log-likelihood for each frame")
          ELSE Good(s)
    [] e.op = "back" ->
       IF e.obs.m # [k \in DOMAIN e.mu |-> k] \/ ~IsInj(e.obs.s) \/ Rng(e.obs.s) # Rng(Keys(e.recs)) THEN Bad(s, "classes and segments of the scores")
       ELSE IF e.vec # <<>> /\ (Len(e.vec) # Len(e.obs.s) \/ \E j \in DOMAIN e.vec : \E k \in DOMAIN e.mu : ~Near(e.vec[j][k], e.obs.v[k][j], 2 + (AbsV(e.obs.v[k][j]) \div 10000))) THEN Bad(s, "vectors of scores")
       ELSE IF \E j \in DOMAIN e.obs.z : ~Near(e.obs.z[j], 1000, 3) THEN Bad(s, "normalized scores of a segment")
       ELSE IF \E j \in DOMAIN e.obs.s :
                 LET r == Find(e.recs, e.obs.s[j])
                     v == [k \in DOMAIN e.mu |-> BackScore(e, k, r)]
                     t(k) == 4 + Len(e.S) + (AbsV(v[k]) \div 5000)
                 IN \E k \in DOMAIN e.mu : IF e.norm THEN ~Near(e.obs.v[k][j] - e.obs.v[1][j], v[k] - v[1], t(k) + t(1)) ELSE ~Near(e.obs.v[k][j], v[k], t(k)) THEN Bad(s, "score of a segment and a class")
       ELSE Good(s)
    [] e.op = "plda" ->
       IF e.pred # e.want THEN Bad(s, "the model is not that of the library")
       ELSE IF e.log # e.wantlog THEN Bad(s, "the log of the objective is not that of the library")
       ELSE Good(s)
    [] OTHER -> Bad(s, "unknown event")
=============================================================================
