----------------------------- MODULE MC_ScpList -----------------------------
(* Bounded model of the table algebra: every history of DEPTH operations on  *)
(* small tables.  Invariants: rows are never torn apart, no operation invents *)
(* or loses rows, splitting partitions.  Each history is emitted as a script. *)
EXTENDS ScpList, Json
CONSTANTS DEPTH, MAXROWS, EMIT
VARIABLES pool, hist, orig
vars == <<pool, hist, orig>>
KEYS == 1..2

Mk(ks, off, rng) == Tab([i \in 1..Len(ks) |-> <<ks[i], 10 + (i % 3), IF off THEN 20 + i ELSE 0,
                                   IF rng THEN i - 1 ELSE 0, IF rng /\ i > 1 THEN i ELSE 0>>], off, rng)
Tables == {Mk(ks, f[1], f[2]) : ks \in SeqUpTo(KEYS, MAXROWS) \ {<<>>}, f \in {<<FALSE, FALSE>>, <<TRUE, TRUE>>, <<FALSE, TRUE>>}}

Init == \E t \in Tables : pool = <<t>> /\ orig = t /\ hist = <<[op |-> "new", r |-> 1, tab |-> t]>>

Add(t, ev) == pool' = Append(pool, t) /\ hist' = Append(hist, ev) /\ UNCHANGED orig
Same(ev) == pool' = pool /\ hist' = Append(hist, ev) /\ UNCHANGED orig
Set(r, t, ev) == pool' = [pool EXCEPT ![r] = t] /\ hist' = Append(hist, ev) /\ UNCHANGED orig

StableSort(rows) == SortSeq([i \in 1..Len(rows) |-> <<rows[i], i>>], LAMBDA a, c : K(a[1]) < K(c[1]) \/ (K(a[1]) = K(c[1]) /\ a[2] < c[2]))
SortTab(t) == LET s == StableSort(t.rows) IN WithRows(t, [i \in 1..Len(s) |-> s[i][1]])

(* the split as designed: boundaries at floor(i N / n), rows or keys *)
Bound(i, N, n) == (i * N) \div n
SplitRows(t, n) == [i \in 1..n |-> WithRows(t, SubSeq(t.rows, Bound(i - 1, Len(t.rows), n) + 1, Bound(i, Len(t.rows), n)))]
UniqKeys(t) == SetToSortSeq2(Rng(Keys(t)))
SplitKeys(t, n) == LET u == UniqKeys(t) IN
   [i \in 1..n |-> LET ks == {u[j] : j \in (Bound(i - 1, Len(u), n) + 1)..Bound(i, Len(u), n)}
                   IN SortTab(FilterKey(t, ks, TRUE))]
Splitted(t, n, g) == IF g THEN SplitKeys(t, n) ELSE SplitRows(t, n)

Small == Len(pool) <= 3
Sort(r) == Set(r, SortTab(pool[r]), [op |-> "sort", r |-> r])
Shuffle(r, seed) == Same([op |-> "shuffle", r |-> r, seed |-> seed])   \* the order is the code's choice
Lookup(r, k) == Same([op |-> "lookup", r |-> r, key |-> k])
Filter(r, ks, keep) == FilterKeyOk(pool[r], ks, keep) /\ Add(FilterKey(pool[r], ks, keep), [op |-> "filter", r |-> r, keys |-> SetToSortSeq2(ks), keep |-> keep])
FilterP(r, ks, keep) == FilterPathOk(pool[r], ks, keep) /\ Add(FilterPath(pool[r], ks, keep), [op |-> "filter_paths", r |-> r, keys |-> SetToSortSeq2(ks), keep |-> keep])
FilterI(r, idx, keep) == (\A i \in DOMAIN idx : idx[i] < Len(pool[r].rows)) /\ Add(FilterIndex(pool[r], idx, keep), [op |-> "filter_index", r |-> r, idx |-> idx, keep |-> keep])
Split(r, n, g) == /\ pool[r].rows # <<>>
                  /\ pool' = pool \o Splitted(pool[r], n, g)
                  /\ hist' = Append(hist, [op |-> "split", r |-> r, n |-> n, group |-> g]) /\ UNCHANGED orig
Merge(rs) == /\ \A i, j \in DOMAIN rs : pool[rs[i]].off = pool[rs[j]].off
             /\ Add(Concat([i \in 1..Len(rs) |-> pool[rs[i]]]), [op |-> "merge", r |-> 1, regs |-> rs])
SaveLoad(r) == pool[r].rows # <<>> /\ Add(Reloaded(pool[r]), [op |-> "saveload", r |-> r])
Eq(r, q) == Same([op |-> "eq", r |-> r, r2 |-> q])
Copy(r) == Add(pool[r], [op |-> "copy", r |-> r])

Next == /\ Len(hist) <= DEPTH
        /\ \E r \in DOMAIN pool :
             \/ Sort(r)
             \/ Shuffle(r, 1)
             \/ \E k \in 1..3 : Lookup(r, k)
             \/ Small /\ \E ks \in SUBSET KEYS, keep \in BOOLEAN : Filter(r, ks, keep)
             \/ Small /\ \E ks \in {{10}, {11}, {10, 12}}, keep \in BOOLEAN : FilterP(r, ks, keep)
             \/ Small /\ \E idx \in {<<0>>, <<1, 0>>, <<2>>, <<>>}, keep \in BOOLEAN : FilterI(r, idx, keep)
             \/ Small /\ \E n \in 1..3, g \in BOOLEAN : Split(r, n, g)
             \/ Small /\ \E q \in DOMAIN pool : Merge(<<r, q>>)
             \/ Small /\ SaveLoad(r)
             \/ \E q \in DOMAIN pool : Eq(r, q)
             \/ Small /\ Copy(r)

Spec == Init /\ [][Next]_vars

(* Rows are never torn: every row of every table is a row of the original.   *)
RowsIntact == \A i \in DOMAIN pool : Rng(pool[i].rows) \subseteq Rng(orig.rows)
SplitsPartition == \A i \in DOMAIN pool : pool[i].rows = <<>> \/ \A n \in 1..4, g \in BOOLEAN :
     LET parts == Splitted(pool[i], n, g) IN Partition(pool[i], parts, g) /\ Balanced(parts, g) /\ (g => KeyWhole(parts) /\ KeyOrder(pool[i], parts))
FilterComplements == \A i \in DOMAIN pool : \A ks \in SUBSET KEYS :
     SameBag(FilterKey(pool[i], ks, TRUE).rows \o FilterKey(pool[i], ks, FALSE).rows, pool[i].rows)
ReloadIdempotent == \A i \in DOMAIN pool : Reloaded(Reloaded(pool[i])) = Reloaded(pool[i])
Emit == (EMIT /\ Len(hist) = DEPTH + 1) => PrintT("@@BEH " \o ToJson(hist))
=============================================================================
