---------------------------- MODULE MC_Utt2Info ----------------------------
(* Bounded model of the table algebra of Utt2Info: every history of DEPTH     *)
(* operations on small tables, emitted as scripts.                           *)
EXTENDS Utt2Info, Json
CONSTANTS DEPTH, MAXROWS
VARIABLES pool, hist, orig
vars == <<pool, hist, orig>>
KEYS == 1..2

Mk(ks, n) == Tab([i \in 1..Len(ks) |-> <<ks[i]>> \o [c \in 1..n |-> 10 * c + ((i + c) % 2)]], n)
Tables == {Mk(ks, n) : ks \in SeqUpTo(KEYS, MAXROWS) \ {<<>>}, n \in 1..2}

Init == \E t \in Tables : pool = <<t>> /\ orig = t /\ hist = <<[op |-> "new", r |-> 1, tab |-> t]>>
Add(t, ev) == pool' = Append(pool, t) /\ hist' = Append(hist, ev) /\ UNCHANGED orig
Same(ev) == pool' = pool /\ hist' = Append(hist, ev) /\ UNCHANGED orig
Set(r, t, ev) == pool' = [pool EXCEPT ![r] = t] /\ hist' = Append(hist, ev) /\ UNCHANGED orig

SortTab(t, f) == LET s == SortSeq([i \in 1..Len(t.rows) |-> <<t.rows[i], i>>],
                          LAMBDA a, c : a[1][f + 1] < c[1][f + 1] \/ (a[1][f + 1] = c[1][f + 1] /\ a[2] < c[2]))
                 IN WithRows(t, [i \in 1..Len(s) |-> s[i][1]])
Drop(t, ks) == SortTab(WithRows(t, SelectSeq(t.rows, LAMBDA r : r[1] \notin Rng(ks))), 0)

Bound(i, N, n) == (i * N) \div n
SplitRows(t, n) == [i \in 1..n |-> WithRows(t, SubSeq(t.rows, Bound(i - 1, Len(t.rows), n) + 1, Bound(i, Len(t.rows), n)))]
SplitGroups(t, n, f) == LET u == SetToSortSeq2(Rng(Col(t, f))) IN
   [i \in 1..n |-> LET vs == [j \in 1..(Bound(i, Len(u), n) - Bound(i - 1, Len(u), n)) |-> u[Bound(i - 1, Len(u), n) + j]]
                   IN SortTab(FilterInfo(t, vs, f, TRUE), f)]
Splitted(t, n, f) == IF f > 0 THEN SplitGroups(t, n, f) ELSE SplitRows(t, n)

Small == Len(pool) <= 3
Sort(r, f) == f <= pool[r].n /\ Set(r, SortTab(pool[r], f), [op |-> "sort", r |-> r, f |-> f])
Shuffle(r) == Same([op |-> "shuffle", r |-> r, seed |-> 1])
Index(r, k) == Same([op |-> "index", r |-> r, key |-> k])
Get(r, k) == Count(Keys(pool[r]), k) <= 1 /\ Same([op |-> "get", r |-> r, key |-> k])
Filter(r, ks) == Rng(ks) \subseteq Rng(Keys(pool[r])) /\ Add(FilterKeys(pool[r], ks), [op |-> "filter", r |-> r, keys |-> ks, keep |-> TRUE])
FilterOut(r, ks) == Add(Drop(pool[r], ks), [op |-> "filter", r |-> r, keys |-> ks, keep |-> FALSE])
FilterV(r, vs, f, keep) == f <= pool[r].n /\ (~keep \/ Rng(vs) \subseteq Rng(Col(pool[r], f)))
     /\ Add(FilterInfo(pool[r], vs, f, keep), [op |-> "filter_info", r |-> r, keys |-> vs, f |-> f, keep |-> keep])
FilterI(r, idx, keep) == (\A i \in DOMAIN idx : idx[i] < Len(pool[r].rows)) /\ Add(FilterIndex(pool[r], idx, keep), [op |-> "filter_index", r |-> r, idx |-> idx, keep |-> keep])
Split(r, n, f) == /\ pool[r].rows # <<>> /\ f <= pool[r].n
                  /\ pool' = pool \o Splitted(pool[r], n, f)
                  /\ hist' = Append(hist, [op |-> "split", r |-> r, n |-> n, f |-> f]) /\ UNCHANGED orig
Merge(rs) == (\A i \in DOMAIN rs : pool[rs[i]].n = pool[rs[1]].n) /\ Add(Concat([i \in 1..Len(rs) |-> pool[rs[i]]]), [op |-> "merge", r |-> 1, regs |-> rs])
SaveLoad(r) == pool[r].rows # <<>> /\ Add(pool[r], [op |-> "saveload", r |-> r])
Eq(r, q) == Same([op |-> "eq", r |-> r, r2 |-> q])
Copy(r) == Add(pool[r], [op |-> "copy", r |-> r])

Next == /\ Len(hist) <= DEPTH
        /\ \E r \in DOMAIN pool :
             \/ \E f \in 0..2 : Sort(r, f)
             \/ Shuffle(r)
             \/ \E k \in 1..3 : Index(r, k) \/ Get(r, k)
             \/ Small /\ \E ks \in {<<>>, <<1>>, <<2>>, <<2, 1>>, <<1, 2>>} : Filter(r, ks) \/ FilterOut(r, ks)
             \/ Small /\ \E vs \in {<<10>>, <<21>>, <<11, 10>>}, f \in 1..2, keep \in BOOLEAN : FilterV(r, vs, f, keep)
             \/ Small /\ \E idx \in {<<0>>, <<1, 0>>, <<2>>, <<>>}, keep \in BOOLEAN : FilterI(r, idx, keep)
             \/ Small /\ \E n \in 1..3, f \in 0..2 : Split(r, n, f)
             \/ Small /\ \E q \in DOMAIN pool : Merge(<<r, q>>)
             \/ Small /\ SaveLoad(r)
             \/ \E q \in DOMAIN pool : Eq(r, q)
             \/ Small /\ Copy(r)
Spec == Init /\ [][Next]_vars

RowsIntact == \A i \in DOMAIN pool : Rng(pool[i].rows) \subseteq Rng(orig.rows)
SplitsPartition == \A i \in DOMAIN pool : pool[i].rows = <<>> \/ \A n \in 1..4, f \in 0..pool[i].n :
     LET parts == Splitted(pool[i], n, f) IN Partition(pool[i], parts, f) /\ Balanced(parts, f) /\ (f > 0 => GroupWhole(parts, f) /\ GroupOrder(pool[i], parts, f))
DropIsComplement == \A i \in DOMAIN pool : \A ks \in {<<>>, <<1>>, <<2>>, <<2, 1>>} :
     /\ IsDrop(Drop(pool[i], ks), pool[i], ks)
     /\ SameBag(FilterKeys(pool[i], ks).rows \o Drop(pool[i], ks).rows, pool[i].rows)
Emit == (Len(hist) = DEPTH + 1) => PrintT("@@BEH " \o ToJson(hist))
=============================================================================
