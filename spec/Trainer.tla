------------------------------ MODULE Trainer ------------------------------
(* hyperion/torch/torch_trainer.py with its loggers, metric accumulators and  *)
(* checkpoints: training that is killed at any point and started again from   *)
(* the last checkpoint on disk.                                               *)
(* The model, loss and optimizer of the driver are small automata whose state *)
(* is exact: weight w, running statistic r (updated in training mode only),   *)
(* loss state l (updated by backward only) and momentum b.  The learning rate *)
(* comes from a scheduler of LrSched (kind 0: none).                          *)
(* c: tr (batches of sample values per epoch, taken cyclically), va (batches  *)
(*    of validation samples, or empty), met (an extra metric is reported),    *)
(*    mon ("loss" or "val"), s (the scheduler, as in LrSched)                 *)
EXTENDS Util
L == INSTANCE LrSched

Sm(d) == SumSeq(d)
Data(c, e, j) == c.tr[(e % Len(c.tr)) + 1][j]
NBat(c, e) == Len(c.tr[(e % Len(c.tr)) + 1])
(* what the model and the loss make of samples d *)
OutS(m, d) == [i \in 1..Len(d) |-> (m.w + m.r + d[i]) % 11]
LossS(m, o) == [i \in 1..Len(o) |-> (o[i] + m.l) % 7]
MetS(o) == [i \in 1..Len(o) |-> o[i] % 3]
Forward(m, d, training) == IF training THEN [m EXCEPT !.r = (@ + Sm(d)) % 17] ELSE m
Backward(m, d) == [m EXCEPT !.l = (@ + Sm(d)) % 13]
Update(m, g, lr) == LET b1 == (m.b + g) % 97 IN [m EXCEPT !.b = b1, !.w = (@ + (lr * b1)) % 97]
(* a training batch at learning rate lr: the new state, and the sums for the averages *)
TrainBatch(m, d, lr) ==
  LET m1 == Forward(m, d, TRUE)
      o == OutS(m1, d)
      ls == LossS(m1, o)
  IN [m |-> Update(Backward(m1, d), Sm(ls), lr), loss |-> Sm(ls), met |-> Sm(MetS(o)), n |-> Len(d)]
ValBatch(m, d) == LET o == OutS(m, d) IN [loss |-> Sm(LossS(m, o)), met |-> Sm(MetS(o)), n |-> Len(d)]
Zero == [loss |-> 0, met |-> 0, n |-> 0]
Plus(a, x) == [loss |-> a.loss + x.loss, met |-> a.met + x.met, n |-> a.n + x.n]
M0 == [w |-> 1, b |-> 0, r |-> 0, l |-> 0]

(* learning rates: the scheduler's state z and the interval iv each group's rate lies in *)
LrStart(c) == [z |-> L!Fresh(c.s), iv |-> L!Same(L!Fresh(c.s))]
Known(q, lr) == [z |-> [q.z EXCEPT !.lr = lr], iv |-> [i \in 1..Len(lr) |-> <<lr[i], lr[i]>>]]
InIv(q, lr) == Len(lr) = Len(q.iv) /\ \A i \in 1..Len(lr) : q.iv[i][1] <= lr[i] /\ lr[i] <= q.iv[i][2]
LrBegin(c, q, e) == IF c.s.kind = 0 THEN q
                    ELSE LET o == L!Begin(c.s, q.z, e) IN IF c.s.kind = 3 \/ c.s.onb THEN [z |-> o.z, iv |-> q.iv] ELSE [z |-> o.z, iv |-> o.lr]
LrBatch(c, q) == IF c.s.kind = 0 THEN q
                 ELSE LET o == L!Batch(c.s, q.z) IN
                      IF ~L!InWarm(c.s, [q.z EXCEPT !.batch = @ + 1]) /\ (c.s.kind = 3 \/ ~c.s.onb) THEN [z |-> o.z, iv |-> q.iv] ELSE [z |-> o.z, iv |-> o.lr]
\* the scheduler is told the average times mu, in whole numbers: compared as rationals over the number of samples
LrEnd(c, q, num) == IF c.s.kind = 0 THEN q
                    ELSE LET o == L!End(c.s, q.z, num) IN [z |-> o.z, iv |-> o.lr]

(*------------------------------ judging events ------------------------------*)
(* observed averages are in millionths *)
AvgOk(obs, num, n) == LET d == (obs * n) - (num * 1000000) IN -n <= d /\ d <= n
InitSt(x) == [c |-> x, m |-> M0, q |-> LrStart(x), ep |-> 0, ph |-> "off", j |-> 0, acc |-> Zero, vacc |-> Zero,
              disk |-> 0, sv |-> 0, snap |-> <<[m |-> M0, q |-> LrStart(x), logs |-> [none |-> TRUE]]>>, rows |-> <<>>, target |-> 0]
SameM(e, m) == e.w = m.w /\ e.b = m.b /\ e.r = m.r /\ e.l = m.l
\* what was saved is on disk for certain once anything happens after it
Settle(s) == IF s.sv = 2 THEN [s EXCEPT !.disk = s.ep, !.sv = 0] ELSE s
NVal(c) == Len(c.va)
Logs(c, acc, vacc, lr) == [loss |-> acc.loss, met |-> acc.met, n |-> acc.n, vloss |-> vacc.loss, vmet |-> vacc.met, vn |-> vacc.n, lr |-> lr]
\* e.logs: loss met vloss vmet lr (lr of the first group, in thousandths); keys
LogsOk(c, g, want) ==
  /\ AvgOk(g.loss, want.loss, want.n)
  /\ c.met => AvgOk(g.met, want.met, want.n)
  /\ NVal(c) > 0 => AvgOk(g.vloss, want.vloss, want.vn) /\ (c.met => AvgOk(g.vmet, want.vmet, want.vn))
  /\ g.lr = want.lr
  /\ Rng(g.keys) = {"loss", "lr"} \cup (IF c.met THEN {"met"} ELSE {}) \cup (IF NVal(c) > 0 THEN {"val_loss"} ELSE {}) \cup (IF NVal(c) > 0 /\ c.met THEN {"val_met"} ELSE {})

Allowed(s) == IF s.sv > 0 THEN {s.disk, s.ep} ELSE {s.disk}
Restart(s, e) ==
  IF e.exc # "" THEN Bad(s, "starting again raised " \o e.exc)
  ELSE IF e.cur \notin Allowed(s) THEN Bad(s, "goes on after epoch " \o ToString(e.cur) \o " but the last checkpoint is of one of " \o ToString(Allowed(s)))
  ELSE LET k == e.cur
           p == s.snap[k + 1] IN
    IF ~SameM(e, p.m) THEN Bad(s, "state after starting again is not that of the end of epoch " \o ToString(k) \o ": " \o ToString(p.m))
    ELSE IF ~InIv(p.q, e.lr) THEN Bad(s, "learning rate after starting again " \o ToString(e.lr) \o " not in " \o ToString(p.q.iv))
    ELSE IF k > 0 /\ ~(e.haslogs /\ LogsOk(s.c, e.logs, p.logs)) THEN Bad(s, "the metrics of the checkpoint are not those of epoch " \o ToString(k))
    ELSE IF k = 0 /\ e.haslogs THEN Bad(s, "metrics without a checkpoint")
    ELSE Good([s EXCEPT !.m = p.m, !.q = Known(p.q, e.lr), !.ep = k, !.ph = "ready", !.disk = k, !.sv = 0, !.snap = SubSeq(s.snap, 1, k + 1),
                        !.rows = [i \in 1..Len(s.rows) |-> IF s.rows[i].epoch > k THEN [s.rows[i] EXCEPT !.must = FALSE] ELSE s.rows[i]], !.target = e.epochs])
\* the next epoch may begin
CanBegin(s) == s.ep < s.target /\ (s.ph = "ready" \/ (s.ph = "el" /\ s.sv = 2))
EBegin(s0, e) ==
  LET s == Settle(s0) IN
  IF ~CanBegin(s0) THEN Bad(s0, "epoch begins in phase " \o s0.ph \o " after " \o ToString(s0.ep) \o " of " \o ToString(s0.target) \o " epochs, save " \o ToString(s0.sv))
  ELSE IF e.epoch # s.ep THEN Bad(s, "epoch announced is " \o ToString(e.epoch) \o " not " \o ToString(s.ep))
  ELSE Good([s EXCEPT !.ph = "train", !.j = 0, !.acc = Zero, !.vacc = Zero, !.q = LrBegin(s.c, s.q, s.ep)])
\* one training batch: seen data, the rate used and the state after it
TStep(s, e) ==
  IF s.ph # "train" \/ s.j >= NBat(s.c, s.ep) THEN Bad(s, "a training batch too many, or out of place")
  ELSE LET d == Data(s.c, s.ep, s.j + 1)
           q1 == LrBatch(s.c, s.q) IN
    IF e.d # d THEN Bad(s, "the model saw " \o ToString(e.d) \o " not " \o ToString(d))
    ELSE IF ~e.train \/ ~e.grad THEN Bad(s, "training outside training mode")
    ELSE IF ~InIv(q1, e.lr) THEN Bad(s, "learning rate " \o ToString(e.lr) \o " not in " \o ToString(q1.iv))
    ELSE LET o == TrainBatch(s.m, d, e.lr[1]) IN
      IF ~SameM(e, o.m) THEN Bad(s, "state after the batch is not " \o ToString(o.m))
      ELSE Good([s EXCEPT !.m = o.m, !.j = @ + 1, !.acc = Plus(@, o), !.q = Known(q1, e.lr)])
BLog(s, e) ==
  IF s.ph # "train" \/ s.j = 0 THEN Bad(s, "batch report out of place")
  ELSE IF ~(AvgOk(e.loss, s.acc.loss, s.acc.n) /\ (s.c.met => AvgOk(e.met, s.acc.met, s.acc.n)) /\ e.lr = s.q.z.lr[1]) THEN Bad(s, "running averages are not those of the samples so far " \o ToString(s.acc))
  ELSE Good(s)
VStep(s, e) ==
  IF s.ph \notin {"train", "val"} \/ (s.ph = "train" /\ s.j # NBat(s.c, s.ep)) THEN Bad(s, "validation before the training batches end")
  ELSE LET j == IF s.ph = "train" THEN 1 ELSE s.j + 1 IN
    IF j > NVal(s.c) THEN Bad(s, "a validation batch too many")
    ELSE IF e.d # s.c.va[j] THEN Bad(s, "validation saw " \o ToString(e.d) \o " not " \o ToString(s.c.va[j]))
    ELSE IF e.train \/ e.grad THEN Bad(s, "validation in training mode")
    ELSE Good([s EXCEPT !.ph = "val", !.j = j, !.vacc = Plus(@, ValBatch(s.m, s.c.va[j]))])
EEnd(s, e) ==
  IF ~(IF NVal(s.c) = 0 THEN s.ph = "train" /\ s.j = NBat(s.c, s.ep) ELSE s.ph = "val" /\ s.j = NVal(s.c)) THEN Bad(s, "the epoch ends before its batches do")
  ELSE IF e.epoch # s.ep THEN Bad(s, "epoch reported is " \o ToString(e.epoch))
  ELSE IF ~SameM(e, s.m) THEN Bad(s, "the state changed after the last training batch")
  ELSE LET want == Logs(s.c, s.acc, s.vacc, s.q.z.lr[1])
           num == IF s.c.mon = "loss" THEN (s.acc.loss * 2520) \div s.acc.n ELSE (s.vacc.loss * 2520) \div s.vacc.n
           q1 == LrEnd(s.c, s.q, num) IN
    IF ~LogsOk(s.c, e.logs, want) THEN Bad(s, "the metrics of the epoch are not " \o ToString(want))
    ELSE Good([s EXCEPT !.ph = "el", !.ep = @ + 1, !.q = q1, !.snap = Append(@, [m |-> s.m, q |-> q1, logs |-> want]),
                        !.rows = Append(@, [epoch |-> s.ep + 1, want |-> want, must |-> TRUE])])
\* the rows of the log file: those of completed epochs, in order; one written before a kill that lost its checkpoint may be missing
RECURSIVE RowsMatch(_, _, _, _, _)
RowsMatch(c, rows, obs, i, j) ==
  IF i > Len(rows) THEN j > Len(obs)
  ELSE \/ j <= Len(obs) /\ obs[j].epoch = rows[i].epoch /\ LogsOk(c, obs[j].logs, rows[i].want) /\ RowsMatch(c, rows, obs, i + 1, j + 1)
       \/ ~rows[i].must /\ RowsMatch(c, rows, obs, i + 1, j)
(* metric accumulators on their own, and the accuracies: whole numbers in, millionths out *)
Oks(e) == IF e.kind = "cat" THEN [i \in 1..Len(e.x) |-> IF \A k \in 1..Len(e.x[i]) : e.x[i][k] <= e.x[i][e.t[i] + 1] THEN 1 ELSE 0]
          ELSE FlatSeq([i \in 1..Len(e.x) |-> [k \in 1..Len(e.x[i]) |-> IF (e.x[i][k] > e.thr) = (e.t[i][k] = 1) THEN 1 ELSE 0]])
\* the weight of output i: there may be one weight per sample, or per output, or none
Wt(e, n, i) == IF e.w = <<>> THEN 1 ELSE e.w[((i - 1) \div (n \div Len(e.w))) + 1]
Acc(s, e) ==
  LET ok == Oks(e)
      n == Len(ok)
      num == SumSeq([i \in 1..n |-> ok[i] * Wt(e, n, i)])
      den == SumSeq([i \in 1..n |-> Wt(e, n, i)]) IN
  IF e.exc # "" THEN Bad(s, "accuracy raised " \o e.exc)
  ELSE IF e.red = "none" THEN IF e.ok = ok THEN Good(s) ELSE Bad(s, "the right outputs are " \o ToString(ok))
  ELSE IF e.red = "sum" THEN IF e.val = num * 1000000 THEN Good(s) ELSE Bad(s, "the sum is " \o ToString(num))
  ELSE IF AvgOk(e.val, num, den) THEN Good(s) ELSE Bad(s, "the accuracy is " \o ToString(num) \o " / " \o ToString(den))

Judge(s, e) ==
  CASE e.op = "run" -> Restart(s, e)
    [] e.op = "begin" -> EBegin(s, e)
    [] e.op = "step" -> TStep(s, e)
    [] e.op = "blog" -> BLog(s, e)
    [] e.op = "val" -> VStep(s, e)
    [] e.op = "eend" -> EEnd(s, e)
    [] e.op = "sv" -> IF s.ph = "el" THEN Good([s EXCEPT !.sv = e.k]) ELSE Good(s)
    [] e.op = "crash" -> IF e.exc # "" THEN Bad(s, "training raised " \o e.exc) ELSE Good([s EXCEPT !.ph = "off"])
    [] e.op = "done" -> IF s.ep = s.target /\ (s.ph = "ready" \/ (s.ph = "el" /\ s.sv = 2)) /\ e.cur = s.ep /\ SameM(e, s.m) THEN Good([Settle(s) EXCEPT !.ph = "off"])
                        ELSE Bad(s, "training ends after " \o ToString(s.ep) \o " of " \o ToString(s.target) \o " epochs in phase " \o s.ph \o " save " \o ToString(s.sv))
    [] e.op = "log" -> IF RowsMatch(s.c, s.rows, e.rows, 1, 1) THEN Good(s) ELSE Bad(s, "the log file has not one line per completed epoch: " \o ToString([i \in 1..Len(s.rows) |-> <<s.rows[i].epoch, s.rows[i].must>>]))
    [] e.op = "acc" -> Acc(s, e)
    [] OTHER -> Bad(s, "unknown event " \o e.op)
=============================================================================
