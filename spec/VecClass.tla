------------------------------ MODULE VecClass ------------------------------
(* hyperion/helpers/vector_class_reader.py, vector_reader.py                  *)
(* The list gives the class of vector u at position u.  A read hands out      *)
(* groups (one per class label): sequences of vectors.                        *)
(* c: cls, min, max, mode (1 random 2 last 3 first: which are pruned), cmin,  *)
(* cmax, cmode (1 sequential 2 random 3 random_1part), ov, once, map          *)
EXTENDS Util

CeilDiv(a, b) == (a + b - 1) \div b
Elems(c, k) == SelectSeq([i \in 1..Len(c.cls) |-> i], LAMBDA u : c.cls[u] = k)
Classes(c) == Rng(c.cls)
N0(c, k) == Len(Elems(c, k))
N1(c, k) == IF N0(c, k) < c.min THEN 0 ELSE IF c.max = 0 THEN N0(c, k) ELSE Min2(N0(c, k), c.max)
Incr(q) == \A i \in 1..(Len(q) - 1) : q[i] < q[i + 1]
\* what pruning leaves of a class: known, or known but for the choice
Known(c, k) == c.mode # 1 \/ N1(c, k) \in {0, N0(c, k)}
PoolSeq(c, k) == LET e == Elems(c, k) IN IF c.mode = 3 THEN SubSeq(e, Len(e) - N1(c, k) + 1, Len(e)) ELSE SubSeq(e, 1, N1(c, k))
InPool(c, k, q) == IF Known(c, k) THEN Rng(q) \subseteq Rng(PoolSeq(c, k)) ELSE Rng(q) \subseteq Rng(Elems(c, k))
Splits(c) == c.cmax > 0 /\ c.cmode # 3 /\ \E k \in Classes(c) : N1(c, k) > c.cmax
\* one group of a class: its size after a limit
N2(c, k) == IF c.cmax = 0 THEN N1(c, k)
            ELSE IF N1(c, k) < c.cmin THEN 0
            ELSE IF c.cmode = 3 THEN Min2(N1(c, k), c.cmax) ELSE N1(c, k)
One(c, k, gs) == IF N2(c, k) = 0 THEN gs = <<>>
                 ELSE /\ Len(gs) = 1 /\ Len(gs[1]) = N2(c, k) /\ Incr(gs[1]) /\ InPool(c, k, gs[1])
                      /\ (Known(c, k) /\ N2(c, k) = N1(c, k)) => gs[1] = PoolSeq(c, k)
Shift(c) == c.cmax - c.ov
NSub(c, k) == CeilDiv(N1(c, k) - c.cmax, Shift(c)) + 1
LastLen(c, k) == N1(c, k) - ((NSub(c, k) - 1) * Shift(c))
RECURSIVE Union1(_, _)
Union1(gs, ov) == IF gs = <<>> THEN <<>> ELSE IF Len(gs) = 1 THEN gs[1]
                  ELSE Union1(SubSeq(gs, 1, Len(gs) - 1), ov) \o SubSeq(gs[Len(gs)], ov + 1, Len(gs[Len(gs)]))
Windows(c, k, gs) ==
  LET K == IF c.cmax < c.cmin THEN 0 ELSE IF LastLen(c, k) < c.cmin THEN NSub(c, k) - 1 ELSE NSub(c, k)
      q == Union1(gs, c.ov)
  IN /\ Len(gs) = K
     /\ \A i \in 1..K : /\ Len(gs[i]) = (IF i = NSub(c, k) THEN LastLen(c, k) ELSE c.cmax)
                        /\ gs[i] = SubSeq(q, ((i - 1) * Shift(c)) + 1, ((i - 1) * Shift(c)) + Len(gs[i]))
     /\ Incr(q) /\ InPool(c, k, q)
     /\ Known(c, k) => q = SubSeq(PoolSeq(c, k), 1, Len(q))
RandomSubs(c, k, gs) == /\ Len(gs) = (IF c.cmax < c.cmin THEN 0 ELSE NSub(c, k))
                        /\ \A i \in DOMAIN gs : Len(gs[i]) = c.cmax /\ IsInj(gs[i]) /\ InPool(c, k, gs[i])
\* groups of a class, in the order of their first vector
RECURSIVE SortG(_)
SortG(gs) == IF gs = <<>> THEN <<>>
             ELSE LET m == CHOOSE i \in DOMAIN gs : \A j \in DOMAIN gs : gs[i][1] < gs[j][1] \/ (gs[i][1] = gs[j][1] /\ i <= j)
                  IN <<gs[m]>> \o SortG([j \in 1..(Len(gs) - 1) |-> IF j < m THEN gs[j] ELSE gs[j + 1]])
OfClass(c, gs, k) == SortG(SelectSeq(gs, LAMBDA q : q # <<>> /\ c.cls[q[1]] = k))
Single(c, gs) == \A i \in DOMAIN gs : \A j \in DOMAIN gs[i] : c.cls[gs[i][j]] = c.cls[gs[i][1]]
ClassOk(c, k, gs) == IF Splits(c) /\ N1(c, k) > c.cmax THEN (IF c.cmode = 1 THEN Windows(c, k, gs) ELSE RandomSubs(c, k, gs))
                     ELSE IF Splits(c) THEN One([c EXCEPT !.cmode = 1], k, gs) ELSE One(c, k, gs)
ReadOk(c, gs) == Single(c, gs) /\ \A k \in Classes(c) : ClassOk(c, k, OfClass(c, gs, k))
Bound(c, k) == N1(c, k)

(*------------------------------ judging events ------------------------------*)
InitSt(x) == [c |-> x, rs |-> <<>>, log |-> <<>>]
Groups(xs, ids, n) == [i \in 1..n |-> LET p == SelectSeq([j \in 1..Len(xs) |-> j], LAMBDA j : ids[j] = i - 1) IN [j \in 1..Len(p) |-> xs[p[j]]]]
Empty(c) == \A k \in Classes(c) : IF Splits(c) THEN FALSE ELSE N2(c, k) = 0
Fixed(c) == c.once \/ ~(c.cmax > 0 /\ c.cmode # 1)
Judge(s, e) ==
  LET c == s.c IN
  CASE e.op = "make" -> IF e.exc # "" THEN Bad(s, "the reader could not be made: " \o e.exc) ELSE Good([s EXCEPT !.rs = Append(@, [first |-> <<>>, seen |-> {}, n |-> 0])])
    [] e.op = "read" ->
         IF e.exc # "" THEN Bad(s, "read raised " \o e.exc)
         ELSE IF \E i \in DOMAIN e.xs : e.xs[i] \notin 1..Len(c.cls) THEN Bad(s, "not a stored vector")
         ELSE IF ~e.ok THEN Bad(s, "padding, weights or values")
         ELSE LET n == IF c.map # <<>> THEN Len(c.map) ELSE IF e.ids = <<>> THEN 0 ELSE MaxS(Rng(e.ids)) + 1
                  gs == Groups(e.xs, e.ids, n)
                  r == s.rs[e.r] seen == r.seen \cup Rng(e.xs)
              IN IF ~(\A i \in DOMAIN e.ids : e.ids[i] \in 0..(n - 1)) THEN Bad(s, "class label")
                 ELSE IF c.map = <<>> /\ \E i \in 1..n : gs[i] = <<>> THEN Bad(s, "a class label without vectors")
                 ELSE IF c.map # <<>> /\ \E i \in DOMAIN e.xs : c.map[e.ids[i] + 1] # c.cls[e.xs[i]] THEN Bad(s, "class label of another class than the file says")
                 ELSE IF ~ReadOk(c, gs) THEN Bad(s, "vectors of the classes: " \o ToString(gs))
                 ELSE IF ~Splits(c) /\ e.flat /\ ~Incr(e.xs) THEN Bad(s, "not in the order of the list")
                 ELSE IF \E k \in Classes(c) : Cardinality({u \in seen : c.cls[u] = k}) > Bound(c, k) THEN Bad(s, "more vectors of a class than its limit over several reads")
                 ELSE IF e.names # <<>> /\ ~Splits(c) /\ ~(Len(e.names) = n /\ \A i \in DOMAIN e.xs : e.names[e.ids[i] + 1] = c.cls[e.xs[i]]) THEN Bad(s, "class names do not agree with the labels: " \o ToString(e.names))
                 ELSE IF e.names # <<>> /\ Splits(c) /\ ~(Len(e.names) = n /\ IsInj(e.names)) THEN Bad(s, "class names of the parts: " \o ToString(e.names))
                 ELSE IF e.counts # <<>> /\ c.map = <<>> /\ e.counts # [i \in 1..n |-> Len(gs[i])] THEN Bad(s, "samples per class: " \o ToString(e.counts))
                 ELSE IF r.n > 0 /\ Fixed(c) /\ r.first # gs THEN Bad(s, "another read of a fixed division gave other vectors")
                 ELSE IF s.log # <<>> /\ (\E l \in DOMAIN s.log : s.log[l].n = r.n /\ s.log[l].r # e.r /\ s.log[l].gs # gs) THEN Bad(s, "a reader built alike gave other vectors")
                 ELSE Good([s EXCEPT !.rs[e.r] = [first |-> gs, seen |-> seen, n |-> r.n + 1], !.log = IF r.n < 4 THEN Append(@, [r |-> e.r, n |-> r.n, gs |-> gs]) ELSE @])
    \* over many reads every vector that may come has come
    [] e.op = "tally" -> IF \E k \in Classes(c) : Cardinality({u \in s.rs[e.r].seen : c.cls[u] = k}) # N1(c, k) THEN Bad(s, "vectors never drawn") ELSE Good(s)
    [] e.op = "args" -> IF e.exc # "" THEN Bad(s, "options: " \o e.exc) ELSE IF ~e.same THEN Bad(s, "options are lost: " \o ToString(e.lost)) ELSE Good(s)
    [] e.op = "vread" -> IF e.exc # "" THEN Bad(s, "read raised " \o e.exc) ELSE IF e.xs # [i \in 1..Len(c.cls) |-> i] \/ ~e.ok THEN Bad(s, "vectors of the list: " \o ToString(e.xs)) ELSE Good(s)
    [] OTHER -> Bad(s, "unknown event " \o e.op)
=============================================================================
