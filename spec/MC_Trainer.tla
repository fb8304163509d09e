----------------------------- MODULE MC_Trainer ----------------------------
(* Bounded model of training: epochs of two batches, validation, a scheduler, *)
(* and up to KILLS kills at any point, each followed by a new start from the  *)
(* last checkpoint.                                                           *)
EXTENDS Trainer, Json
CONSTANTS EPOCHS, KILLS, EVERY
VARIABLES s, hist
vars == <<s, hist>>
Sc == [base |-> <<16, 4>>, min |-> <<1, 1>>, onb |-> FALSE, warm |-> 0, kind |-> 0, rk |-> 1, ds |-> 1, hold |-> 0, T |-> 3, mul |-> 1, wr |-> FALSE, gk |-> 1,
       f |-> 2, pat |-> 0, thr |-> 0, rel |-> FALSE, max |-> FALSE, cool |-> 0, eps |-> 0]
Scs == {[Sc EXCEPT !.kind = 0], [Sc EXCEPT !.kind = 3, !.warm = 1], [Sc EXCEPT !.kind = 3, !.cool = 1], [Sc EXCEPT !.kind = 2, !.onb = TRUE, !.wr = TRUE, !.warm = 1], [Sc EXCEPT !.kind = 1, !.hold = 1]}
Cfgs == {[tr |-> <<<<<<3>>, <<5, 1>>>>, <<<<2, 9>>>>>>, va |-> v, met |-> b, mon |-> IF v = <<>> THEN "loss" ELSE "val", s |-> k] : v \in {<<>>, <<<<7>>, <<4, 4>>>>}, b \in BOOLEAN, k \in Scs}
Init == /\ \E x \in Cfgs : s = [InitSt(x) EXCEPT !.ph = "ready", !.target = EPOCHS]
        /\ hist = <<>>
Mid(iv) == [i \in 1..Len(iv) |-> (iv[i][1] + iv[i][2]) \div 2]
\* what the code does at each point, as the event that is observed
StepEv(x) == LET q1 == LrBatch(x.c, x.q)
                 d == Data(x.c, x.ep, x.j + 1)
                 lr == Mid(q1.iv)
                 m == TrainBatch(x.m, d, lr[1]).m
             IN [d |-> d, train |-> TRUE, grad |-> TRUE, lr |-> lr, w |-> m.w, b |-> m.b, r |-> m.r, l |-> m.l]
\* averages are judged in millionths on the traces only: the model closes the epoch itself
EndSt(x) == LET want == Logs(x.c, x.acc, x.vacc, x.q.z.lr[1])
                num == IF x.c.mon = "loss" THEN (x.acc.loss * 2520) \div x.acc.n ELSE (x.vacc.loss * 2520) \div x.vacc.n
                q1 == LrEnd(x.c, x.q, num)
                q2 == Known(q1, Mid(q1.iv))
            IN [x EXCEPT !.ph = "el", !.ep = @ + 1, !.q = q2, !.snap = Append(@, [m |-> x.m, q |-> q2, logs |-> want]), !.rows = Append(@, [epoch |-> x.ep + 1, want |-> want, must |-> TRUE])]
Step(x) ==
  IF CanBegin(x) THEN EBegin(x, [epoch |-> x.ep]).st
  ELSE IF x.ph = "train" /\ x.j < NBat(x.c, x.ep) THEN TStep(x, StepEv(x)).st
  ELSE IF x.ph = "train" /\ NVal(x.c) > 0 THEN VStep(x, [d |-> x.c.va[1], train |-> FALSE, grad |-> FALSE]).st
  ELSE IF x.ph = "val" /\ x.j < NVal(x.c) THEN VStep(x, [d |-> x.c.va[x.j + 1], train |-> FALSE, grad |-> FALSE]).st
  ELSE IF x.ph \in {"train", "val"} THEN EndSt(x)
  ELSE IF x.ph = "el" /\ x.sv < 2 THEN [x EXCEPT !.sv = @ + 1]
  ELSE x
Over(x) == x.ep = EPOCHS /\ (x.ph = "ready" \/ (x.ph = "el" /\ x.sv = 2))
Point(x) == IF x.ph = "train" THEN (IF x.j < NBat(x.c, x.ep) THEN <<"load", x.ep, x.j>> ELSE <<"step1", x.ep, x.j - 1>>)
            ELSE IF x.ph = "val" THEN <<"vfwd", x.ep, x.j - 1>>
            ELSE IF x.ph = "el" THEN <<IF x.sv = 0 THEN "eend" ELSE IF x.sv = 1 THEN "save1" ELSE "save2", x.ep - 1, 0>>
            ELSE <<"ebegin", x.ep, 0>>
Again(x, k) == LET p == x.snap[k + 1] IN
   Restart(x, [exc |-> "", cur |-> k, w |-> p.m.w, b |-> p.m.b, r |-> p.m.r, l |-> p.m.l, lr |-> Mid(p.q.iv), haslogs |-> k > 0, epochs |-> EPOCHS,
               logs |-> IF k = 0 THEN [none |-> TRUE] ELSE
                        [loss |-> (p.logs.loss * 1000000) \div p.logs.n, met |-> (p.logs.met * 1000000) \div p.logs.n, lr |-> p.logs.lr,
                         vloss |-> (p.logs.vloss * 1000000) \div Max2(1, p.logs.vn), vmet |-> (p.logs.vmet * 1000000) \div Max2(1, p.logs.vn),
                         keys |-> <<"loss", "lr">> \o (IF x.c.met THEN <<"met">> ELSE <<>>) \o (IF NVal(x.c) > 0 THEN <<"val_loss">> ELSE <<>>) \o (IF NVal(x.c) > 0 /\ x.c.met THEN <<"val_met">> ELSE <<>>)]]).st
Next == \/ ~Over(s) /\ s' = Step(s) /\ UNCHANGED hist
        \/ /\ Len(hist) < KILLS /\ ~(s.ph = "ready" /\ s.ep = EPOCHS)
           /\ hist' = Append(hist, Point(s))
           /\ \E k \in Allowed(s) : s' = Again(s, k)
Spec == Init /\ [][Next]_vars
\* training without any kill
RECURSIVE Alone(_, _)
Alone(x, e) == IF x.ep = e /\ x.ph \in {"ready", "el"} THEN x ELSE Alone(Step(x), e)
Fine(x, e) == Alone([InitSt(x.c) EXCEPT !.ph = "ready", !.target = EPOCHS], e)
Uninterrupted == s.ph \in {"ready", "el"} => LET f == Fine(s, s.ep) IN s.m = f.m /\ s.q.z = f.q.z /\ s.snap = f.snap
Rows == \A k \in 1..s.ep : Cardinality({i \in 1..Len(s.rows) : s.rows[i].epoch = k /\ s.rows[i].must}) = 1
NoRepeat == s.ep >= s.disk
Emit == (Over(s) /\ Len(ToJson(<<s.c, hist>>)) % EVERY = 0) => PrintT("@@BEH " \o ToJson([c |-> s.c, h |-> hist, e |-> EPOCHS]))
=============================================================================
