------------------------------- MODULE Frames -------------------------------
(* hyperion/feats: what is computed from which frames and samples.  Sliding   *)
(* normalisation, frame selection, energy based voice activity, framing of    *)
(* waveforms, inverse transforms and the stages of the feature pipeline.      *)
(* State: the values known at each stage of the pipeline for each waveform.   *)
EXTENDS Util

Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumTo(_, _, _)
SumTo(q, a, b) == IF a > b THEN 0 ELSE q[a] + SumTo(q, a + 1, b)
Sq(q) == [i \in DOMAIN q |-> q[i] * q[i]]

(*------------------------- sliding normalisation ----------------------------*)
\* frames that frame t is normalised with; context -1 is unlimited
Lo(t, L) == IF L < 0 THEN 1 ELSE Max2(1, t - L)
Hi(t, R, n) == IF R < 0 THEN n ELSE Min2(n, t + R)
Win(t, L, R, n) == Lo(t, L)..Hi(t, R, n)
\* count, sum, sum of squares of column q in the window of t
Stat(q, t, L, R) == LET a == Lo(t, L)
                        b == Hi(t, R, Len(q))
                    IN <<b - a + 1, SumTo(q, a, b), SumTo(Sq(q), a, b)>>
\* value of frame t: <<numerator, denominator squared>>, without variance the denominator
NormVal(q, t, L, R, mean) == LET s == Stat(q, t, L, R) IN <<IF mean THEN (s[1] * q[t]) - s[2] ELSE s[1] * q[t], (s[1] * s[3]) - (s[2] * s[2])>>
\* obs in hundredths
NearMean(obs, num, den) == Abs((obs * den) - (num * 100)) <= den
NearDev(obs, num, v) == LET lo == Max2(0, Abs(obs) - 1)
                            hi == Abs(obs) + 1
                        IN /\ lo * lo * v <= num * num * 10000 /\ hi * hi * v >= num * num * 10000
                           /\ (obs > 1 => num > 0) /\ (obs < -1 => num < 0)
\* frames without deviation: nothing is left of them when centred, nothing is promised otherwise
NormOk(q, t, L, R, mean, var, obs) ==
  LET s == Stat(q, t, L, R)
      v == NormVal(q, t, L, R, mean)
  IN IF ~var THEN (IF mean THEN NearMean(obs, v[1], s[1]) ELSE obs = q[t] * 100)
     ELSE IF v[2] = 0 THEN mean => Abs(obs) <= 1
     ELSE NearDev(obs, v[1], v[2])

(*--------------------------------- selection --------------------------------*)
Select(n, sel) == LET m == Min2(n, Len(sel)) IN AtSet([i \in 1..m |-> i], {i \in 1..m : sel[i]})

(*------------------------------ voice activity ------------------------------*)
\* e: log-energies; threshold T + sc * mean, each <<num, den>>
Over(e, t, T, sc) == LET n == Len(e)
                         d == T[2] * sc[2] * n
                     IN e[t] * d > (T[1] * sc[2] * n) + (sc[1] * SumTo(e, 1, n) * T[2])
Vote(raw, ctx, p) == [t \in DOMAIN raw |-> LET w == Win(t, ctx, ctx, Len(raw))
                                               k == Cardinality({u \in w : raw[u]})
                                           IN IF ctx = 0 THEN raw[t] ELSE k * p[2] > p[1] * Cardinality(w)]
Vad(e, T, sc, ctx, p) == Vote([t \in DOMAIN e |-> Over(e, t, T, sc)], ctx, p)

(*---------------------------------- framing ---------------------------------*)
\* sample (from 0) that a reflected position stands for
RECURSIVE Reflect(_, _)
Reflect(i, n) == IF i < 0 THEN Reflect(-i, n) ELSE IF i >= n THEN Reflect((2 * (n - 1)) - i, n) ELSE i
NumFrames(n, L, S) == ((n - L) \div S) + 1
\* samples of frame t (from 0); with padding the frames sit in the middle of their shifts
Samples(n, L, S, snip, t) == LET o == IF snip THEN 0 ELSE (L - S) \div 2 IN {Reflect((t * S) + k - o, n) : k \in 0..(L - 1)}
Marked(n, L, S, snip, nf, burst) == [t \in 1..nf |-> \E x \in Samples(n, L, S, snip, t - 1) : x \in burst]

\* the signal as it is framed, padded at both ends or not, after pre-emphasis with coefficient p/2 (in halves)
Sig(x, L, S, snip, j) == IF j < 0 THEN 0 ELSE x[Reflect(j - (IF snip THEN 0 ELSE (L - S) \div 2), Len(x)) + 1]
Pre(x, L, S, snip, p, j) == (2 * Sig(x, L, S, snip, j)) - (p * Sig(x, L, S, snip, j - 1))
SumOver(F(_), n) == LET v == [k \in 1..n |-> F(k - 1)] IN SumTo(v, 1, n)
\* energy of frame t (from 0) before pre-emphasis; lowest and highest frequency of its spectrum
Energy(x, L, S, snip, t) == LET f(k) == Sig(x, L, S, snip, (t * S) + k) * Sig(x, L, S, snip, (t * S) + k) IN SumOver(f, L)
Lowest(x, L, S, snip, p, t) == LET f(k) == Pre(x, L, S, snip, p, (t * S) + k) IN SumOver(f, L)
Highest(x, L, S, snip, p, t) == LET f(k) == (IF k % 2 = 0 THEN 1 ELSE -1) * Pre(x, L, S, snip, p, (t * S) + k) IN SumOver(f, L)

(*------------------------------- judging events -----------------------------*)
InitSt(x) == [k |-> {}]
\* value of waveform w at stage g, 0 if unknown
Known(s, w, g) == LET K == {x \in s.k : x.w = w /\ x.g = g} IN IF K = {} THEN 0 ELSE (CHOOSE x \in K : TRUE).id
Judge(s, e) ==
  IF e.op = "select" THEN
    LET d == Abs(e.n - Len(e.sel)) IN
    IF (e.exc # "") # (d > e.tol) THEN Bad(s, IF e.exc # "" THEN "select raised " \o e.exc ELSE "lengths further apart than tolerated were accepted")
    ELSE IF e.exc = "" /\ e.rows # Select(e.n, e.sel) THEN Bad(s, "the marked frames are " \o ToString(Select(e.n, e.sel)))
    ELSE Good(s)
  ELSE IF e.exc # "" THEN Bad(s, e.op \o " raised " \o e.exc)
  ELSE CASE e.op = "norm" ->
         IF ~e.same THEN Bad(s, "normalising changed its input")
         ELSE IF Len(e.y) # Len(e.q) \/ \E t \in DOMAIN e.q : ~NormOk(e.q, t, e.L, e.R, e.mean, e.var, e.y[t]) THEN
           Bad(s, "sliding normalisation with " \o e.alg \o " does not use the frames in context")
         ELSE Good(s)
    [] e.op = "vad" -> IF e.v = Vad(e.e, e.T, e.sc, e.ctx, e.p) THEN Good(s) ELSE Bad(s, "the voiced frames are " \o ToString(Vad(e.e, e.T, e.sc, e.ctx, e.p)))
    [] e.op = "frames" ->
         LET nf == Len(e.v) IN
         IF e.snip /\ nf # NumFrames(e.n, e.L, e.S) THEN Bad(s, "there are " \o ToString(NumFrames(e.n, e.L, e.S)) \o " whole frames")
         ELSE IF ~e.snip /\ Abs((2 * nf * e.S) - (2 * e.n)) > e.S THEN Bad(s, "there is one frame per shift")
         ELSE IF e.v # Marked(e.n, e.L, e.S, e.snip, nf, Rng(e.burst)) THEN Bad(s, "the frames that hold the samples are " \o ToString(Marked(e.n, e.L, e.S, e.snip, nf, Rng(e.burst))))
         ELSE Good(s)
    [] e.op = "wave" ->
         LET nf == Len(e.lo) IN
         IF e.snip /\ nf # NumFrames(Len(e.x), e.L, e.S) THEN Bad(s, "there are " \o ToString(NumFrames(Len(e.x), e.L, e.S)) \o " whole frames")
         ELSE IF ~e.snip /\ Abs((2 * nf * e.S) - (2 * Len(e.x))) > e.S THEN Bad(s, "there is one frame per shift")
         ELSE IF \E t \in 1..nf : e.lo[t] # Lowest(e.x, e.L, e.S, e.snip, e.p, t - 1) \/ e.hi[t] # Highest(e.x, e.L, e.S, e.snip, e.p, t - 1) THEN
           Bad(s, "the spectrum is not the one of the frames after pre-emphasis")
         ELSE IF e.energy /\ \E t \in 1..nf : LET g == Max2(e.floor, Energy(e.x, e.L, e.S, e.snip, t - 1)) IN Abs(e.e[t] - g) * 2000 > g THEN
           Bad(s, "the energy is not the one of the frames, not below the floor")
         ELSE Good(s)
    [] e.op = "invert" ->
         IF Len(e.back) # ((NumFrames(Len(e.x), e.L, e.S) - 1) * e.S) + e.L THEN Bad(s, "the inverse covers the samples of all frames")
         ELSE IF \E i \in DOMAIN e.back : (\E t \in 0..(NumFrames(Len(e.x), e.L, e.S) - 1) : i - 1 - (t * e.S) \in e.from..(e.L - 1 - e.from)) /\ e.back[i] # e.x[i] THEN Bad(s, "the inverse transform does not give the samples back")
         ELSE Good(s)
    [] e.op = "stage" -> \* e.id is what computing from stage e.from to stage e.to gave, from the known value
         LET o == Known(s, e.w, e.to) IN
         IF ~e.same THEN Bad(s, "computing changed its input")
         ELSE IF o # 0 /\ o # e.id THEN Bad(s, "stage " \o e.to \o " computed from stage " \o e.from \o " differs from when computed otherwise")
         ELSE Good([s EXCEPT !.k = @ \cup {[w |-> e.w, g |-> e.to, id |-> e.id]}])
    [] OTHER -> Bad(s, "unknown event " \o e.op)
=============================================================================
