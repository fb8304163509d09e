--------------------------------- MODULE Evals ---------------------------------
(* hyperion/bin: evaluation from the command line.  Vectors, enrollment and     *)
(* trial lists, models and chains of transforms go in, score files come out;    *)
(* other tools convert, normalise and evaluate score files.                     *)
(* A table of scores is [m names of models, s names of segments, v matrix].     *)
(* Vectors are integers; scores are in 1/1000.                                  *)
EXTENDS Util, LnTab
P == INSTANCE Plda
N == INSTANCE ScoreNorm
M == INSTANCE Metrics
NA == -999999
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, t) == a # NA /\ a - b <= t /\ b - a <= t
Dot(a, b) == SumSeq([i \in DOMAIN a |-> a[i] * b[i]])
\* row vector times matrix
Times(x, T) == [j \in DOMAIN T[1] |-> SumSeq([i \in DOMAIN x |-> x[i] * T[i][j]])]
RECURSIVE Chain(_, _)
Chain(ch, x) == IF ch = <<>> THEN x ELSE Chain(Tail(ch), Times([i \in DOMAIN x |-> x[i] - Head(ch).mu[i]], Head(ch).T))
VecOf(emb, k) == emb[CHOOSE j \in DOMAIN emb : emb[j][1] = k][2]
(*----------------------------------- trials ---------------------------------*)
\* which models and segments are compared
ModelsOf(x) == IF x.set \in {"enroll-test", "enroll-coh"} THEN Rng(x.ndx.m) ELSE {x.enr[j][1] : j \in DOMAIN x.enr}
SegsOf(x) == IF x.set \in {"enroll-test", "coh-test"} THEN Rng(x.ndx.s) ELSE Rng(x.test)
Enrolled(x, mo) == LET J == {j \in DOMAIN x.enr : x.enr[j][2] = mo} IN LET RECURSIVE F(_)
                                                                           F(S) == IF S = {} THEN <<>> ELSE LET j == MinS(S) IN <<x.enr[j][1]>> \o F(S \ {j})
                                                                       IN F(J)
(*----------------------------------- scores ---------------------------------*)
Cos(a, b) == LET q == Dot(a, a) * Dot(b, b) IN (100000 * Len(a) * Dot(a, b)) \div N!ISqrt(10000 * q)
Tol(v) == 12 + (Abs(v) \div 200)
Z(x, k) == LET y == Chain(x.chain, VecOf(x.emb, k)) IN Times([i \in DOMAIN y |-> y[i] - x.mu[i]], x.Ai)
Want(x, mo, sg) ==
  LET E == Enrolled(x, mo) IN
  CASE x.tool = "cos" -> Cos(Chain(x.chain, VecOf(x.emb, E[1])), Chain(x.chain, VecOf(x.emb, sg)))
    [] x.tool = "plda1" -> P!One(x.p, Z(x, E[1]), Z(x, sg))
    [] OTHER -> P!Score(x.p, x.method, [j \in DOMAIN E |-> Z(x, E[j])], <<Z(x, sg)>>, 1)
(*----------------------------------- tables ---------------------------------*)
Cells(t) == (DOMAIN t.m) \X (DOMAIN t.s)
Whole(t) == IsInj(t.m) /\ IsInj(t.s) /\ Len(t.v) = Len(t.m) /\ \A i \in DOMAIN t.v : Len(t.v[i]) = Len(t.s)
Pairs(t) == {<<t.m[c[1]], t.s[c[2]]>> : c \in Cells(t)}
At(t, a, b) == t.v[CHOOSE i \in DOMAIN t.m : t.m[i] = a][CHOOSE j \in DOMAIN t.s : t.s[j] = b]
\* the tables of the parts cover every pair once, in parts of nearly equal size
Cover(ts, ms, ss, pm, ps) ==
  /\ Len(ts) = pm * ps /\ \A k \in DOMAIN ts : Whole(ts[k])
  /\ UNION {Pairs(ts[k]) : k \in DOMAIN ts} = ms \X ss
  /\ SumSeq([k \in DOMAIN ts |-> Len(ts[k].m) * Len(ts[k].s)]) = Cardinality(ms) * Cardinality(ss)
  /\ \A k \in DOMAIN ts : Len(ts[k].m) \in {Cardinality(ms) \div pm, (Cardinality(ms) + pm - 1) \div pm} /\ Len(ts[k].s) \in {Cardinality(ss) \div ps, (Cardinality(ss) + ps - 1) \div ps}
EvalJ(s, x) ==
  IF ~Cover(x.obs, ModelsOf(x), SegsOf(x), x.parts[1], x.parts[2]) THEN Bad(s, "trials in the score files of " \o x.tool \o " (" \o x.set \o ")")
  ELSE IF x.method = "vavg-lnorm" THEN
       IF \E k \in DOMAIN x.obs : \E c \in Cells(x.obs[k]) : LET t == x.obs[k] IN ~Near(t.v[c[1]][c[2]], At(x.ref, t.m[c[1]], t.s[c[2]]), 3) THEN Bad(s, "score of a trial (length normalized averages)") ELSE Good(s)
  ELSE IF \E k \in DOMAIN x.obs : \E c \in Cells(x.obs[k]) : LET t == x.obs[k]
                                                                w == Want(x, t.m[c[1]], t.s[c[2]])
                                                            IN ~Near(t.v[c[1]][c[2]], w, Tol(w)) THEN Bad(s, "score of a trial (" \o x.tool \o ", " \o x.method \o ")")
  ELSE Good(s)
(*--------------------------------- classifiers -------------------------------*)
\* linear scores are multiples of ln 2: z are the multiples
Ln2(k) == (k * 693) + ((k * 147) \div 1000)
Lin(x, k) == LET y == Chain(x.chain, VecOf(x.emb, k)) IN
             IF x.tool = "gbe" THEN [c \in DOMAIN x.cls |-> (2 * Dot(y, x.A[c])) - Dot(x.A[c], x.A[c])]
             ELSE [c \in DOMAIN x.cls |-> Dot(y, x.A[c]) + x.b[c]]
Pow(k) == IF k > 7 THEN 0 ELSE 128 \div (2 ^ k)
\* log of the sum of 2^z
LnSum(z) == LET t == MaxS(Rng(z)) IN Ln2(t) + Ln1000[SumSeq([c \in DOMAIN z |-> Pow(t - z[c])])] - Ln1000[128]
Post(z, c) == LET t == MaxS(Rng(z))
                  q(d) == IF t - z[d] > 13 THEN 0 ELSE 2 ^ (13 - (t - z[d])) IN (1000 * q(c)) \div SumSeq([d \in DOMAIN z |-> q(d)])
LogPost(z, c) == Ln2(z[c]) - LnSum(z)
HalfLn == -756      \* half the log of 2 ln 2 / 2 pi
WantC(x, k, c) ==
  LET z == Lin(x, k)
      y == Chain(x.chain, VecOf(x.emb, k))
  IN CASE x.type \in {"logit", "linear"} -> Ln2(z[c])
       [] x.type = "llk" -> Ln2(z[c] - Dot(y, y)) + (Len(y) * HalfLn)
       [] x.type \in {"post", "cat-post"} -> Post(z, c)
       [] x.type \in {"log-post", "cat-logpost", "normalized"} -> LogPost(z, c)
       [] x.type = "bin-post" -> Post(<<z[c], 0>>, 1)
       [] OTHER -> LogPost(<<z[c], 0>>, 1)
ClassJ(s, x) ==
  IF ~Cover(x.obs, Rng(x.cls), Rng(x.test), 1, x.parts) THEN Bad(s, "trials in the score files of " \o x.tool)
  ELSE IF \E k \in DOMAIN x.obs : \E c \in Cells(x.obs[k]) :
            LET t == x.obs[k] IN ~Near(t.v[c[1]][c[2]], WantC(x, t.s[c[2]], CHOOSE i \in DOMAIN x.cls : x.cls[i] = t.m[c[1]]), 20) THEN Bad(s, "score of a class (" \o x.tool \o ", " \o x.type \o ")")
  ELSE IF x.vecs # <<>> /\ (UNION {{x.vecs[k][j][1] : j \in DOMAIN x.vecs[k]} : k \in DOMAIN x.vecs} # Rng(x.test)
                            \/ \E k \in DOMAIN x.vecs : \E j \in DOMAIN x.vecs[k] : x.vecs[k][j][2] # [c \in DOMAIN x.cls |-> At(x.obs[k], x.cls[c], x.vecs[k][j][1])]) THEN Bad(s, "vectors of scores of " \o x.tool)
  ELSE Good(s)
(*--------------------------- conversion of score files -----------------------*)
VecScoresJ(s, x) ==
  IF ~(Whole(x.obs) /\ Rng(x.obs.m) = Rng(x.cls) /\ Rng(x.obs.s) = {x.vecs[j][1] : j \in DOMAIN x.vecs}) THEN Bad(s, "trials of converted vectors")
  ELSE IF \E j \in DOMAIN x.vecs, c \in DOMAIN x.cls : At(x.obs, x.cls[c], x.vecs[j][1]) # x.vecs[j][2][c] THEN Bad(s, "scores of converted vectors")
  ELSE Good(s)
LreJ(s, x) ==
  LET ms == IF x.cls = <<>> THEN x.t.m ELSE x.cls
      ss == IF x.test = <<>> THEN x.t.s ELSE x.test
      has(a, b) == a \in Rng(x.t.m) /\ b \in Rng(x.t.s)
  IN IF x.head # ms THEN Bad(s, "columns of the table")
     ELSE IF [i \in DOMAIN x.rows |-> x.rows[i][1]] # ss \/ ~x.exts THEN Bad(s, "rows of the table")
     ELSE IF \E i \in DOMAIN x.rows : x.rows[i][2] # [c \in DOMAIN ms |-> IF has(ms[c], ss[i]) THEN At(x.t, ms[c], ss[i]) ELSE -100000] THEN Bad(s, "scores of the table")
     ELSE Good(s)
(*------------------------------ normalisation --------------------------------*)
\* rows a and columns b of a table
Pick(t, a, b) == [i \in DOMAIN a |-> [j \in DOMAIN b |-> At(t, a[i], b[j])]]
All(m) == [i \in DOMAIN m |-> [j \in DOMAIN m[i] |-> TRUE]]
None == <<<<0>>>>
NormX(x) ==
  LET coh == IF x.ct.m # <<>> THEN x.ct.m ELSE <<0>>
      ec == IF x.ec.m = <<>> THEN [i \in DOMAIN x.t.m |-> <<0>>] ELSE Pick(x.ec, x.t.m, IF x.kind = "as" THEN x.ct.m ELSE x.ec.s)
      ct == IF x.ct.m = <<>> THEN <<[j \in DOMAIN x.t.s |-> 0]>> ELSE Pick(x.ct, x.ct.m, x.t.s)
      cc == IF x.cc.m = <<>> THEN None ELSE Pick(x.cc, x.ct.m, x.ec.s)
  IN [kind |-> x.kind, sc |-> x.t.v, ec |-> ec, ct |-> ct, cc |-> cc, mec |-> All(ec), mct |-> All(ct), mcc |-> All(cc), nb |-> x.nb, nd |-> 0, fl |-> <<0, 1>>]
NormJ(s, x) ==
  IF ~(Whole(x.obs) /\ x.obs.m = x.t.m /\ x.obs.s = x.t.s) THEN Bad(s, "trials after " \o x.kind \o "-norm")
  ELSE LET q == NormX(x)
           S == IF x.kind = "as" THEN N!ASets(q) ELSE [z |-> <<>>, t |-> <<>>]
       IN IF \E c \in Cells(x.t) : ~N!Ok(q, S, c[1], c[2], x.obs.v[c[1]][c[2]]) THEN Bad(s, "scores after " \o x.kind \o "-norm") ELSE Good(s)
(*--------------------------------- performance -------------------------------*)
LabelsOf(x, l) == {c \in (DOMAIN x.key.m) \X (DOMAIN x.key.s) : x.key.lab[c[1]][c[2]] = l}
ScoresOf(x, l) == LET RECURSIVE F(_)
                      F(S) == IF S = {} THEN <<>> ELSE LET c == CHOOSE c \in S : TRUE IN <<At(x.t, x.key.m[c[1]], x.key.s[c[2]])>> \o F(S \ {c})
                  IN F(LabelsOf(x, l))
PerfJ(s, x) ==
  LET tar == ScoresOf(x, 1)
      non == ScoresOf(x, 2)
  IN IF x.nt # Len(tar) \/ x.nn # Len(non) THEN Bad(s, "numbers of trials")
     ELSE LET a == M!Eer(M!HullPts(M!Points(tar, non)), Len(tar), Len(non)) IN IF Abs((x.eer * a[2]) - (10000 * a[1])) > 2 * Abs(a[2]) THEN Bad(s, "equal error rate of the scores") ELSE Good(s)
(*------------------------------- judging events -----------------------------*)
InitSt(x) == [n |-> 0]
Judge(s, e) ==
  IF e.exc # "" THEN Bad(s, e.tool \o " ended with " \o e.exc)
  ELSE CASE e.op = "eval" -> EvalJ(s, e)
         [] e.op = "cls" -> ClassJ(s, e)
         [] e.op = "v2s" -> VecScoresJ(s, e)
         [] e.op = "lre" -> LreJ(s, e)
         [] e.op = "norm" -> NormJ(s, e)
         [] OTHER -> PerfJ(s, e)
=============================================================================
