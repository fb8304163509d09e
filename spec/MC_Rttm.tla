------------------------------ MODULE MC_Rttm ------------------------------
(* Bounded model of diarization marks: all lists of up to MAXROWS marks of    *)
(* one or two files and two speakers, histories of DEPTH operations.          *)
EXTENDS Rttm, Json
CONSTANTS DEPTH, MAXROWS, NT, EVERY
VARIABLES pool, hist
vars == <<pool, hist>>
SPANS == {<<<<0, 32>>, <<16, 16>>, <<16, 64>>, <<32, 32>>, <<64, 16>>, <<0, 96>>>>[i] : i \in 1..NT}   \* begin, duration
Mark(f, sp, n, ty) == [ty |-> ty, f |-> f, ch |-> 1, tb |-> sp[1], td |-> sp[2], n |-> <<n>>, cf |-> -1]
Marks == {Mark(f, sp, n, 1) : f \in {1, 2}, sp \in SPANS, n \in {1, 2}} \cup {Mark(1, sp, 1, 2) : sp \in SPANS}
RECURSIVE SomeRows(_)
SomeRows(n) == IF n = 1 THEN {<<m>> : m \in Marks}
               ELSE {h \o <<m>> : h \in SomeRows(n - 1), m \in Marks}
Lists == {rows \in UNION {SomeRows(n) : n \in 1..MAXROWS} : \A f \in Files(rows) : Ordered(OfFile(rows, f))}
Init == \E rows \in Lists, by \in {1, 2} : pool = <<R(by, rows)>> /\ hist = <<[op |-> "new", r |-> 1, list |-> R(by, rows)]>>
Add(x, ev) == pool' = Append(pool, x) /\ hist' = Append(hist, ev)
Same(ev) == pool' = pool /\ hist' = Append(hist, ev)
Set(r, x, ev) == pool' = [pool EXCEPT ![r] = x] /\ hist' = Append(hist, ev)

\* removing overlaps: cut in the middle, marks inside an earlier one vanish
RECURSIVE ElimR(_, _, _)
ElimR(rows, i, acc) ==      \* acc: <<kept rows (with original end in o), ..>>
  IF i > Len(rows) THEN acc
  ELSE LET prev == {j \in DOMAIN acc : acc[j].r.f = rows[i].f /\ acc[j].r.ty = rows[i].ty} IN
       IF prev = {} THEN ElimR(rows, i + 1, Append(acc, [r |-> rows[i], o |-> End(rows[i])]))
       ELSE LET j == MaxS(prev) IN
            IF End(rows[i]) <= acc[j].o THEN ElimR(rows, i + 1, acc)
            ELSE IF rows[i].tb < acc[j].o
            THEN LET cut == (rows[i].tb + acc[j].o) \div 2 IN
                 ElimR(rows, i + 1, Append([acc EXCEPT ![j].r.td = cut - acc[j].r.tb], [r |-> [rows[i] EXCEPT !.tb = cut, !.td = End(rows[i]) - cut], o |-> End(rows[i])]))
            ELSE ElimR(rows, i + 1, Append(acc, [r |-> rows[i], o |-> End(rows[i])]))
\* a cut can move a mark behind others of its file: sorted again within each stretch of one file
Blk(q, i) == Cardinality({j \in 2..i : q[j].f # q[j - 1].f})
Resort(q) == LET t == SortSeq([i \in 1..Len(q) |-> <<Blk(q, i), q[i].tb, i>>],
                     LAMBDA u, v : u[1] < v[1] \/ (u[1] = v[1] /\ (u[2] < v[2] \/ (u[2] = v[2] /\ u[3] < v[3]))))
             IN [i \in 1..Len(q) |-> q[t[i][3]]]
Elim(rows) == LET a == ElimR(rows, 1, <<>>) IN Resort([i \in 1..Len(a) |-> a[i].r])

Small == Len(pool) <= 2
Next == /\ Len(hist) <= DEPTH
        /\ \E r \in DOMAIN pool : LET x == pool[r] IN
             /\ x.rows # <<>>
             /\ \/ \E m \in {0, 16} : Set(r, R(x.by, Adjacent(x.rows, m)), [op |-> "adjacent", r |-> r, m |-> m])
                \/ Set(r, R(x.by, Elim(x.rows)), [op |-> "elim", r |-> r])
                \/ Same([op |-> "counts", r |-> r]) \/ Same([op |-> "names", r |-> r]) \/ Same([op |-> "matrix", r |-> r, key |-> 1])
                \/ Same([op |-> "iter", r |-> r]) \/ Same([op |-> "get", r |-> r, key |-> 1]) \/ Same([op |-> "tosegs", r |-> r])
                \/ Set(r, R(3 - x.by, x.rows), [op |-> "setby", r |-> r, by |-> 3 - x.by])
                \/ Small /\ x.by = 2 /\ \E k \in BOOLEAN : Add(R(2, SelectSeq(x.rows, LAMBDA q : (q.f = 1) = k)), [op |-> "filter", r |-> r, keys |-> <<1>>, keep |-> k])
                \/ Small /\ Add(x, [op |-> "saveload", r |-> r, by |-> x.by])
Spec == Init /\ [][Next]_vars
JoinFillsGapsOnly == \A p \in DOMAIN pool : \A m \in {0, 16, 32} : AdjacentOk(Adjacent(pool[p].rows, m), pool[p].rows, m)
ElimIsExclusive == \A p \in DOMAIN pool : NoOverlapOk(Elim(pool[p].rows), pool[p].rows)
ElimIdempotent == \A p \in DOMAIN pool : LET e == Elim(pool[p].rows) IN Elim(e) = e
Emit == (Len(hist) = DEPTH + 1 /\ (EVERY = 1 \/ Len(ToJson(hist)) % EVERY = 0)) => PrintT("@@BEH " \o ToJson(hist))
=============================================================================
