------------------------------ MODULE MC_Queues ------------------------------
(* The queue of a generator as an algorithm: workers that check the size, ask *)
(* the generator (under a lock) and put, a consumer that asks, stops and      *)
(* starts again, all interleaved.  Checked: what the property promises.       *)
EXTENDS Util, Json
CONSTANTS W, MAX, N, STARTS, HIST, STOPS
VARIABLES g,        \* next item of the generator (N + 1: it ends)
          run, q,   \* stop event not set; the queue
          wk,       \* state of the workers: <<pc, held>>
          pc, more, \* consumer
          got, dropped, starts, hist
vars == <<g, run, q, wk, pc, more, got, dropped, starts, hist>>
Ws == 1..W
Init == /\ g = 1 /\ run = FALSE /\ q = <<>> /\ wk = [i \in Ws |-> <<"done", 0>>] /\ pc = "idle" /\ more = 0
        /\ got = <<>> /\ dropped = {} /\ starts = 0 /\ hist = <<>>
H(x) == hist' = IF HIST = 0 THEN <<>> ELSE Append(hist, x)
Room == HIST = 0 \/ Len(hist) < HIST
Wk(i) == wk[i][1]
Worker(i) ==
  /\ Room /\ H(i)
  /\ UNCHANGED <<pc, more, got, dropped, starts>>
  /\ \/ Wk(i) = "chk" /\ wk' = [wk EXCEPT ![i] = <<IF run THEN "size" ELSE "done", 0>>] /\ UNCHANGED <<g, run, q>>
     \/ Wk(i) = "size" /\ wk' = [wk EXCEPT ![i] = <<IF Len(q) < MAX THEN "next" ELSE "chk", 0>>] /\ UNCHANGED <<g, run, q>>
     \/ Wk(i) = "next" /\ (IF g > N THEN /\ run' = FALSE /\ wk' = [wk EXCEPT ![i] = <<"done", 0>>] /\ UNCHANGED <<g, q>>
                           ELSE /\ wk' = [wk EXCEPT ![i] = <<"put", g>>] /\ g' = g + 1 /\ UNCHANGED <<run, q>>)
     \/ Wk(i) = "put" /\ q' = Append(q, wk[i][2]) /\ wk' = [wk EXCEPT ![i] = <<"chk", 0>>] /\ UNCHANGED <<g, run>>
Started == starts > 0 /\ pc # "off"
Alive == {i \in Ws : Wk(i) # "done"}
Held == {wk[i][2] : i \in {i \in Ws : Wk(i) = "put"}}
Consumer ==
  /\ Room /\ UNCHANGED <<g>>
  /\ \/ /\ pc \in {"idle", "off"} /\ starts < STARTS /\ (starts = 0 \/ pc = "off") /\ H(102)
        /\ run' = TRUE /\ q' = <<>> /\ wk' = [i \in Ws |-> <<"chk", 0>>] /\ starts' = starts + 1 /\ pc' = "idle"
        /\ UNCHANGED <<more, got, dropped>>
     \/ pc = "idle" /\ starts > 0 /\ pc' = "isrun" /\ H(100) /\ UNCHANGED <<run, q, wk, more, got, dropped, starts>>
     \/ pc = "isrun" /\ pc' = (IF run THEN "poll" ELSE "alive") /\ H(0) /\ UNCHANGED <<run, q, wk, more, got, dropped, starts>>
     \/ pc = "alive" /\ pc' = (IF Alive # {} THEN "poll" ELSE "last") /\ H(0) /\ UNCHANGED <<run, q, wk, more, got, dropped, starts>>
     \/ pc = "last" /\ pc' = (IF q = <<>> THEN "end" ELSE "get") /\ H(0) /\ UNCHANGED <<run, q, wk, more, got, dropped, starts>>
     \/ pc = "poll" /\ pc' = (IF q = <<>> THEN "isrun" ELSE "get") /\ H(0) /\ UNCHANGED <<run, q, wk, more, got, dropped, starts>>
     \/ pc = "get" /\ got' = Append(got, q[1]) /\ q' = Tail(q) /\ pc' = "idle" /\ H(0) /\ UNCHANGED <<run, wk, more, dropped, starts>>
     \/ STOPS /\ pc = "idle" /\ starts > 0 /\ run' = FALSE /\ pc' = "join" /\ H(101) /\ UNCHANGED <<q, wk, more, got, dropped, starts>>
     \/ pc = "join" /\ Alive = {} /\ dropped' = dropped \cup Rng(q) /\ q' = <<>> /\ pc' = "off" /\ H(0) /\ UNCHANGED <<run, wk, more, got, starts>>
Next == (\E i \in Ws : Worker(i)) \/ Consumer
Spec == Init /\ [][Next]_vars /\ WF_vars(Consumer) /\ \A i \in Ws : WF_vars(Worker(i))
(* what is promised *)
Bound == Len(q) + Cardinality(Held) <= MAX + W - 1
OnceOnly == IsInj(got \o q) /\ Rng(got) \cap dropped = {}
InOrder == W = 1 => \A i \in 1..(Len(got) - 1) : got[i] < got[i + 1]
NothingLost == pc = "end" => Rng(got) \cup dropped = 1..N
AfterStop == pc = "off" => Alive = {} /\ ~run
ComesToEnd == STOPS \/ <>(pc = "end")
View == <<g, run, q, wk, pc, more, got, dropped, starts>>
Emit == (HIST > 0 /\ Len(hist) = HIST) => PrintT("@@BEH " \o ToJson(hist))
=============================================================================
