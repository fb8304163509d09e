------------------------------- MODULE Queues -------------------------------
(* hyperion/utils/queues.py, hyperion/io/queues.py, utils/multithreading.py.  *)
(* Background queues.  An event is what happens in the real code under one    *)
(* schedule, in its order of time: the consumer starts, asks, stops; workers  *)
(* ask the generator for the next item.  Items are numbered from 1 in the     *)
(* order in which the generator makes them; 0 stands for None, which is       *)
(* skipped by the consumer.                                                   *)
EXTENDS Util

(* st: phase   0 never started or stopped, 1 running                          *)
(*     kind    1 queue of a generator, 2 ordered queue of a sequence          *)
(*     q       items made for the present start and not yet delivered         *)
(*     made    items made so far (all starts)                                 *)
(*     ended   0, 1 the generator ended, 2 it raised                          *)
(*     left    workers that a stop with time limit left behind; spare: those of *)
(*             them that may still be on their way to ask for one item        *)
InitSt(x) == [phase |-> 0, kind |-> x.kind, w |-> 0, max |-> 0, q |-> <<>>, made |-> {}, ended |-> 0, asked |-> FALSE, ep |-> 0,
              left |-> {}, spare |-> {}, seq |-> x.seq, rand |-> x.rand, pos |-> 0, block |-> {}]
Del(q, x) == SelectSeq(q, LAMBDA y : y # x)
Hand(s) == IF s.asked THEN 1 ELSE 0          \* the consumer may have taken one that it has not returned yet
ItemsOf(seq) == {i \in DOMAIN seq : seq[i] # 0}

Judge(s, e) ==
  CASE e.op = "start" ->
         IF e.exc # "" THEN Bad(s, "start raised " \o e.exc)
         ELSE Good([s EXCEPT !.phase = 1, !.w = e.w, !.max = e.max, !.q = <<>>, !.ep = e.ep, !.asked = FALSE, !.pos = 0, !.block = {}])
    \* a worker asks the generator for an item
    [] e.op = "next" ->
         IF e.ep = s.ep /\ s.phase = 1 THEN Good(s)
         ELSE IF e.t \in s.spare THEN Good([s EXCEPT !.spare = @ \ {e.t}])
         ELSE Bad(s, "a worker goes on after the queue was stopped")
    [] e.op = "made" ->
         IF e.k \in s.made THEN Bad(s, "an item was made twice")
         ELSE LET n == [s EXCEPT !.made = IF e.k = 0 THEN @ ELSE @ \cup {e.k},
                                 !.q = IF e.k # 0 /\ e.ep = s.ep /\ s.phase = 1 THEN Append(@, e.k) ELSE @]
              IN IF Len(n.q) > s.max + s.w - 1 + Hand(s) THEN Bad(s, "more items wait than the size of the queue: " \o ToString(Len(n.q))) ELSE Good(n)
    [] e.op = "fin" -> Good([s EXCEPT !.ended = Max2(@, 1)])
    [] e.op = "err" -> Good([s EXCEPT !.ended = 2])
    [] e.op = "ask" -> Good([s EXCEPT !.asked = TRUE])
    [] e.op = "got" ->
         IF s.kind = 1
         THEN IF e.k \notin Rng(s.q) THEN Bad(s, "an item that was not waiting was delivered: " \o ToString(e.k))
              ELSE IF s.w = 1 /\ e.k # s.q[1] THEN Bad(s, "items out of order")
              ELSE Good([s EXCEPT !.q = Del(@, e.k), !.asked = FALSE])
         ELSE LET its == ItemsOf(s.seq) IN      \* in rounds over the sequence
              IF e.k \notin its \ s.block THEN Bad(s, "an item of the sequence came twice in a round, or another one: " \o ToString(e.k))
              ELSE IF ~s.rand /\ \E i \in its \ s.block : i < e.k THEN Bad(s, "items out of order")
              ELSE Good([s EXCEPT !.asked = FALSE, !.pos = @ + 1, !.block = IF @ \cup {e.k} = its THEN {} ELSE @ \cup {e.k}])
    \* computing the items of an ordered queue
    [] e.op = "item" ->
         IF s.phase # 1 THEN (IF e.ep = s.ep /\ s.phase = 1 THEN Good(s) ELSE Bad(s, "a worker goes on after the queue was stopped"))
         ELSE LET n == s.pos + s.max + 2 + Hand(s) IN      \* delivered, waiting, one being put, one in hand
              IF ItemsOf(s.seq) = DOMAIN s.seq /\ e.n > n THEN Bad(s, "more items wait than the size of the queue: " \o ToString(e.n - s.pos)) ELSE Good(s)
    [] e.op = "end" ->
         IF s.phase = 0 THEN Good([s EXCEPT !.asked = FALSE])
         ELSE IF s.ended = 0 THEN Bad(s, "the consumer was told the end while the queue was running")
         ELSE IF s.q # <<>> THEN Bad(s, "items were lost at the end: " \o ToString(s.q))
         ELSE Good([s EXCEPT !.asked = FALSE])
    [] e.op = "cerr" -> IF s.ended = 2 /\ s.q = <<>> THEN Good([s EXCEPT !.asked = FALSE, !.phase = IF s.kind = 2 THEN 0 ELSE @])
                        ELSE Bad(s, "the consumer got an error: " \o e.exc)
    [] e.op = "stop" ->
         IF e.exc # "" THEN Bad(s, "stop raised " \o e.exc)
         ELSE IF ~e.limit /\ ~(Rng(e.alive) \subseteq s.left) THEN Bad(s, "workers survive the stop")
         ELSE IF e.running THEN Bad(s, "running after stop")
         ELSE Good([s EXCEPT !.phase = 0, !.q = <<>>, !.left = @ \cup Rng(e.alive), !.spare = @ \cup (Rng(e.alive) \ s.left), !.asked = FALSE])
    [] e.op = "run" -> IF e.exc # "" THEN Bad(s, "is_running raised " \o e.exc)
                       ELSE IF e.res = (s.phase = 1) \/ s.ended # 0 THEN Good(s) ELSE Bad(s, "is_running is wrong")
    [] e.op = "stuck" -> Bad(s, "nobody can go on: " \o e.exc)
    [] OTHER -> Bad(s, "unknown event " \o e.op)
=============================================================================
