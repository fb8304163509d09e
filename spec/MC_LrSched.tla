---------------------------- MODULE MC_LrSched -----------------------------
(* Bounded model of training histories: epochs of one or two batches, metrics *)
(* of three values, a save and a restore at any point.                        *)
EXTENDS LrSched, Json
CONSTANTS DEPTH, KIND, EVERY
VARIABLES c, z, hist, saved, since, mode
vars == <<c, z, hist, saved, since, mode>>
Common == [base |-> <<16>>, min |-> <<1>>, onb |-> FALSE, warm |-> 0, kind |-> KIND, rk |-> 1, ds |-> 1, hold |-> 0, T |-> 2, mul |-> 1, wr |-> FALSE, gk |-> 0,
           f |-> 2, pat |-> 0, thr |-> 1, rel |-> FALSE, max |-> FALSE, cool |-> 0, eps |-> 0]
Cfgs == IF KIND = 1 THEN {[Common EXCEPT !.onb = a, !.warm = w, !.rk = k, !.ds = d, !.hold = h] : a \in BOOLEAN, w \in {0, 1, 2}, k \in {1, 3}, d \in {1, 2}, h \in {0, 1}}
        ELSE IF KIND = 2 THEN {[Common EXCEPT !.onb = a, !.warm = w, !.T = t, !.mul = m, !.wr = r, !.gk = g] : a, r \in BOOLEAN, w \in {0, 2}, t \in {1, 2, 3}, m \in {1, 2}, g \in {0, 2}}
        ELSE {[Common EXCEPT !.warm = w, !.pat = p, !.cool = k, !.max = x, !.rel = l] : w \in {0, 2}, p \in {0, 1}, k \in {0, 2}, x, l \in BOOLEAN}
Init == /\ c \in Cfgs /\ z = Fresh(c) /\ hist = <<>> /\ saved = <<>> /\ since = 0 /\ mode = "end"
Mid(o) == [o.z EXCEPT !.lr = [i \in DOMAIN o.lr |-> (o.lr[i][1] + o.lr[i][2]) \div 2]]
Do(o, h, m) == z' = Mid(o) /\ hist' = Append(hist, h) /\ mode' = m
Next == /\ Len(hist) < DEPTH
        /\ \/ mode = "end" /\ Do(Begin(c, z, -1), [op |-> "begin"], "begin") /\ UNCHANGED <<saved, since>>
           \/ mode \in {"begin", "batch"} /\ Do(Batch(c, z), [op |-> "batch"], IF mode = "begin" THEN "batch" ELSE "batch2") /\ UNCHANGED <<saved, since>>
           \/ /\ mode \in {"batch", "batch2"}
              /\ \E m \in (IF KIND = 3 THEN {2, 4, 5} ELSE {2}) :
                   /\ Do(End(c, z, m), [op |-> "end", m |-> m], "end")
                   /\ since' = IF KIND = 3 /\ End(c, z, m).lr[1][1] < z.lr[1] - 2 THEN 0 ELSE since + 1
              /\ UNCHANGED saved
           \/ saved = <<>> /\ saved' = <<z, since, mode>> /\ hist' = Append(hist, [op |-> "save"]) /\ UNCHANGED <<z, since, mode>>
           \/ Len(saved) = 3 /\ z' = saved[1] /\ since' = saved[2] /\ mode' = saved[3] /\ hist' = Append(hist, [op |-> "restore"]) /\ saved' = <<z>>
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Bounded == \A i \in DOMAIN z.lr : z.lr[i] >= (c.min[i] * 1000) - 2 /\ z.lr[i] <= (c.base[i] * 1000) + Tol(c, i)
\* a drop resets the counters: epochs without improvement are needed again, and the cool-down has passed
Patience == KIND = 3 => z.bad <= c.pat /\ z.bad <= since /\ (z.cool > 0 => z.bad = 0)
InPeriod == (KIND = 2 /\ c.wr) => z.t >= 1 /\ z.restart <= Max2(0, Max2(z.epoch, z.batch))
Emit == (Len(hist) = DEPTH /\ Len(ToJson(<<c, hist>>)) % EVERY = 0) => PrintT("@@BEH " \o ToJson([c |-> c, h |-> hist]))
=============================================================================
