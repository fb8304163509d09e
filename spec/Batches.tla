------------------------------- MODULE Batches ------------------------------
(* hyperion/generators/sequence_batch_generator_v1.py, .._v2.py               *)
(* Utterances are numbered from 1; lens and cls give length and class.  A     *)
(* generator is [kind, mode, ...]: kind 1 cuts utterances in list order,      *)
(* kind 2 draws classes.  An example is [k, u, first, n, ok, y, z]: the key   *)
(* it is labelled with, the utterance its frames come from, first frame and   *)
(* number of frames, whether frames, weights and padding are as they should,  *)
(* class, and column of the utterance.                                        *)
EXTENDS Util

CeilDiv(a, b) == (a + b - 1) \div b
SumOver(rows, lens) == SumSeq([i \in 1..Len(rows) |-> lens[rows[i]]])
\* the rows left after pruning, and how often each may appear
Pruned(c) == SelectSeq(c.list, LAMBDA u : c.lens[u] >= c.prune)
ClassOf(c, u) == c.cls[u]
NClass(c, rows, k) == Cardinality({i \in DOMAIN rows : c.cls[rows[i]] = k})
ClsSet(c, rows) == {c.cls[rows[i]] : i \in DOMAIN rows}
Target(c, rows) == CeilDiv(MaxS({NClass(c, rows, k) : k \in ClsSet(c, rows)}), c.imb)
LoMult(c, rows, u) == LET n == NClass(c, rows, c.cls[u]) IN IF c.bal /\ n < Target(c, rows) THEN Target(c, rows) \div n ELSE 1
HiMult(c, rows, u) == LET n == NClass(c, rows, c.cls[u]) IN IF c.bal /\ n < Target(c, rows) THEN CeilDiv(Target(c, rows), n) ELSE 1
NumRows(c, rows) == IF ~c.bal THEN Len(rows)
                    ELSE LET t == Target(c, rows) cs == SetToSortSeq2(ClsSet(c, rows)) IN
                         SumSeq([i \in 1..Len(cs) |-> Max2(t, NClass(c, rows, cs[i]))])
\* a complete pass
PassOk(c, rows, q) == /\ \A u \in Rng(rows) : LoMult(c, rows, u) <= Count(q, u) /\ Count(q, u) <= HiMult(c, rows, u)
                      /\ Rng(q) \subseteq Rng(rows) /\ Len(q) = NumRows(c, rows)
PartOk(c, rows, q) == Rng(q) \subseteq Rng(rows) /\ \A u \in Rng(q) : Count(q, u) <= HiMult(c, rows, u)

MinLen(c, rows) == IF c.min > 0 THEN c.min ELSE MinS({c.lens[rows[i]] : i \in DOMAIN rows})
MaxLen(c, rows) == IF c.max > 0 THEN c.max ELSE MaxS({c.lens[rows[i]] : i \in DOMAIN rows})
Avg(c, rows) == (MaxLen(c, rows) + MinLen(c, rows)) \div 2
Chunks(c, rows, u) == CeilDiv(c.lens[u], Avg(c, rows) - c.overlap)
\* passes per epoch: given, or the mean length in chunks of average length
Iters(c, rows, total, n) == IF c.iters > 0 THEN {c.iters}
                            ELSE IF c.kind = 1 /\ c.mode # 2 THEN {1}
                            ELSE LET q == CeilDiv(total, n * Avg(c, rows)) IN IF total % (n * Avg(c, rows)) = 0 THEN {q, q + 1} ELSE {q}
StepsOk(c, rows, total, steps) ==
  LET n == NumRows(c, rows) IN
  IF c.kind = 2 THEN steps \in {CeilDiv(i * n, c.batch) : i \in Iters(c, rows, total, n)}
  ELSE IF c.mode = 3
  THEN \/ c.bal                  \* which rows are repeated is free
       \/ LET per == IF c.seqbal THEN n * MaxS({Chunks(c, rows, rows[i]) : i \in DOMAIN rows})
                     ELSE SumSeq([i \in 1..Len(rows) |-> Chunks(c, rows, rows[i])])
          IN steps \in {(i * per) \div c.batch : i \in Iters(c, rows, total, n)}
  ELSE \/ c.bal /\ c.iters = 0
       \/ steps \in {(i * n) \div c.batch : i \in Iters(c, rows, total, n)}

(* one example: contiguous frames of the utterance of its key, its class *)
Example(c, rows, ex, ncls) ==
  LET L == c.lens[ex.u] IN
  /\ ex.k = ex.u /\ ex.ok /\ ex.u \in Rng(rows)
  /\ 0 <= ex.first /\ 1 <= ex.n /\ ex.first + ex.n <= L
  /\ ex.y = c.rank[c.cls[ex.u]]
Bounds(c, rows, ex) == LET L == c.lens[ex.u] IN Min2(L, MinLen(c, rows)) <= ex.n /\ ex.n <= Min2(L, MaxLen(c, rows))

(* pass over the list: g.order is the order learnt, g.cur the row of the next *)
(* example, g.cnt/g.nxt per row: chunks given and where the next one begins   *)
RECURSIVE Seek(_, _, _)
Seek(c, g, tries) ==      \* the row that is visited next, skipping exhausted ones; 0: a new row
  IF Len(g.order) < g.nrows /\ g.cur > Len(g.order) THEN [g |-> g, row |-> 0]
  ELSE LET i == IF g.cur > g.nrows THEN 1 ELSE g.cur IN
       IF Len(g.order) < g.nrows /\ i > Len(g.order) THEN [g |-> [g EXCEPT !.cur = i], row |-> 0]
       ELSE IF c.mode = 3 /\ ~c.seqbal /\ g.cnt[i] = g.chunks[i]
       THEN IF tries > 0 THEN Seek(c, [g EXCEPT !.cur = i + 1], tries - 1)
            ELSE [g |-> [g EXCEPT !.cur = i, !.cnt = [j \in DOMAIN g.cnt |-> 0], !.nxt = [j \in DOMAIN g.nxt |-> 0]], row |-> i]   \* another pass
       ELSE [g |-> [g EXCEPT !.cur = i], row |-> i]
Visit(c, rows, g0, ex) ==
  LET sk == Seek(c, g0, g0.nrows)
      g1 == IF sk.row # 0 THEN sk.g
            ELSE [sk.g EXCEPT !.order = Append(@, ex.u), !.cnt = Append(@, 0), !.nxt = Append(@, 0),
                              !.chunks = Append(@, IF c.mode = 3 THEN Chunks(c, rows, ex.u) ELSE 1)]
      i == IF sk.row # 0 THEN sk.row ELSE Len(g1.order)
      L == c.lens[ex.u]
      last == g1.cnt[i] = g1.chunks[i] - 1
      g2 == IF c.mode # 3 THEN [g1 EXCEPT !.cur = i + 1]
            ELSE [g1 EXCEPT !.cur = i + 1,
                            !.nxt[i] = IF last THEN 0 ELSE Max2(0, Min2(L - MinLen(c, rows), ex.first + ex.n - c.overlap)),
                            !.cnt[i] = IF c.seqbal /\ last THEN 0 ELSE @ + 1]
  IN IF sk.row # 0 /\ ex.u # g1.order[sk.row] THEN [ok |-> FALSE, why |-> "an utterance out of turn", g |-> g0]
     ELSE IF sk.row = 0 /\ ~PartOk(c, rows, g1.order) THEN [ok |-> FALSE, why |-> "an utterance came more often than its share", g |-> g0]
     ELSE IF sk.row = 0 /\ Len(g1.order) = g1.nrows /\ ~PassOk(c, rows, g1.order) THEN [ok |-> FALSE, why |-> "a pass did not visit every utterance", g |-> g0]
     ELSE IF ~c.shuffle /\ ~c.bal /\ ex.u # rows[i] THEN [ok |-> FALSE, why |-> "not in the order of the list", g |-> g0]
     ELSE IF c.mode = 1 /\ ~(ex.first = 0 /\ ex.n = L) THEN [ok |-> FALSE, why |-> "not the whole utterance", g |-> g0]
     ELSE IF c.mode = 3 /\ ex.first # g1.nxt[i] THEN [ok |-> FALSE, why |-> "chunk does not begin where the previous one asks for: " \o ToString(g1.nxt[i]), g |-> g0]
     ELSE IF c.mode # 1 /\ ~Bounds(c, rows, ex) THEN [ok |-> FALSE, why |-> "length of the chunk", g |-> g0]
     ELSE [ok |-> TRUE, why |-> "", g |-> g2]
RECURSIVE VisitAll(_, _, _, _)
VisitAll(c, rows, g, exs) == IF exs = <<>> THEN [ok |-> TRUE, why |-> "", g |-> g]
                             ELSE LET v == Visit(c, rows, g, Head(exs)) IN IF v.ok THEN VisitAll(c, rows, v.g, Tail(exs)) ELSE v
(* classes drawn: groups of one class, in it groups of one utterance *)
GroupsOk(c, exs) == \A i \in 1..(Len(exs) - 1) :
   /\ (i % (c.epc * c.epu) # 0) => c.cls[exs[i].u] = c.cls[exs[i + 1].u]
   /\ (i % c.epu # 0) => exs[i].u = exs[i + 1].u
OneHotOk(c, exs) == \A i, j \in DOMAIN exs : (exs[i].z = exs[j].z) = (exs[i].u = exs[j].u) /\ exs[i].z >= 0

(*------------------------------ judging events ------------------------------*)
Fresh(c, nrows, ep, rows) == [epoch |-> ep, step |-> 0, order |-> <<>>, cur |-> 1, cnt |-> <<>>, nxt |-> <<>>, chunks |-> <<>>, nrows |-> nrows]
InitSt(x) == [c |-> x, gs |-> <<>>, log |-> [y \in {} |-> 0]]
Key(c, g) == <<IF c.resetrng THEN 0 ELSE g.epoch, g.step>>
Strip(exs) == [i \in 1..Len(exs) |-> <<exs[i].u, exs[i].first, exs[i].n>>]
\* two epochs, one after the other, both seen completely, differ
Whole(log, ep, steps) == \A i \in 0..(steps - 1) : <<ep, i>> \in DOMAIN log
Differs(log, ep, steps) == (Whole(log, ep, steps) /\ Whole(log, ep - 1, steps)) => \E i \in 0..(steps - 1) : log[<<ep, i>>] # log[<<ep - 1, i>>]

Judge(s, e) ==
  LET c == s.c rows == Pruned(c) IN
  CASE e.op = "make" ->
         IF e.exc # "" THEN Bad(s, "the generator could not be made: " \o e.exc)
         ELSE IF e.nseqs # NumRows(c, rows) THEN Bad(s, "number of sequences " \o ToString(e.nseqs))
         ELSE IF e.ncls # c.ncls THEN Bad(s, "number of classes " \o ToString(e.ncls))
         ELSE IF ~StepsOk(c, rows, SumOver(rows, c.lens), e.steps) THEN Bad(s, "batches per epoch: " \o ToString(e.steps))
         ELSE Good([s EXCEPT !.gs = Append(@, [st |-> Fresh(c, NumRows(c, rows), e.epoch, rows), steps |-> e.steps])])
    [] e.op = "reset" ->
         IF e.exc # "" THEN Bad(s, "reset raised " \o e.exc)
         ELSE Good([s EXCEPT !.gs[e.g].st = Fresh(c, NumRows(c, rows), @.epoch, rows)])
    [] e.op = "read" ->
         LET g == s.gs[e.g].st steps == s.gs[e.g].steps IN
         IF e.exc # "" THEN Bad(s, "read raised " \o e.exc)
         ELSE IF Len(e.exs) # c.batch \/ ~e.shape THEN Bad(s, "size of the batch")
         ELSE IF \E i \in DOMAIN e.exs : e.exs[i].u \notin 1..Len(c.lens) THEN Bad(s, "frames of no utterance")
         ELSE IF \E i \in DOMAIN e.exs : ~Example(c, rows, e.exs[i], 0)
              THEN Bad(s, "not a run of frames of the utterance it is labelled with: " \o ToString(SelectSeq(e.exs, LAMBDA x : ~Example(c, rows, x, 0))))
         ELSE LET v == IF c.kind = 1 THEN VisitAll(c, rows, g, e.exs)
                       ELSE IF ~GroupsOk(c, e.exs) THEN [ok |-> FALSE, why |-> "groups of classes and utterances", g |-> g]
                       ELSE IF ~(\A i \in DOMAIN e.exs : Bounds(c, rows, e.exs[i])) THEN [ok |-> FALSE, why |-> "length of the chunk", g |-> g]
                       ELSE IF e.hot /\ ~OneHotOk(c, e.exs) THEN [ok |-> FALSE, why |-> "columns of the utterances", g |-> g]
                       ELSE [ok |-> TRUE, why |-> "", g |-> g]
                  k == Key(c, g)  known == k \in DOMAIN s.log
              IN IF ~v.ok THEN Bad(s, v.why \o " " \o ToString(e.exs))
                 ELSE IF known /\ s.log[k] # Strip(e.exs) THEN Bad(s, "a generator built alike gave another batch at this point of the epoch")
                 ELSE LET log2 == IF known THEN s.log ELSE (k :> Strip(e.exs)) @@ s.log
                          rolled == g.step + 1 = steps
                          ng == IF rolled THEN Fresh(c, g.nrows, g.epoch + 1, rows) ELSE [v.g EXCEPT !.step = @ + 1]
                      IN IF rolled /\ ~known /\ c.differs /\ ~Differs(log2, g.epoch, steps) THEN Bad(s, "an epoch repeats the one before")
                         ELSE Good([s EXCEPT !.gs[e.g].st = ng, !.log = log2])
    \* what was seen over many batches of fixed-length chunks: all that should be possible
    [] e.op = "tally" ->
         IF \E i \in DOMAIN e.need : e.need[i] \notin Rng(e.seen) THEN Bad(s, "never drawn: " \o ToString(SelectSeq(e.need, LAMBDA x : x \notin Rng(e.seen)))) ELSE Good(s)
    [] OTHER -> Bad(s, "unknown event " \o e.op)
=============================================================================
