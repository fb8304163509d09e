------------------------------ MODULE Utt2Info ------------------------------
(* hyperion/utils/utt2info.py.                                              *)
(* State: a pool of tables [rows, n]; a row is <<key, value 1, .., value n>>. *)
EXTENDS Util

Tab(rows, n) == [rows |-> rows, n |-> n]
Col(t, f) == [i \in 1..Len(t.rows) |-> t.rows[i][f + 1]]     \* f = 0 is the key
Keys(t) == Col(t, 0)
SameTab(a, c) == a.rows = c.rows /\ (a.rows = <<>> \/ a.n = c.n)
SamePool(p, q) == Len(p) = Len(q) /\ \A i \in DOMAIN p : SameTab(p[i], q[i])
WithRows(t, rows) == Tab(rows, t.n)

RowsOf(t, k) == SelectSeq(t.rows, LAMBDA r : r[1] = k)
\* keep: the rows of each requested key, in the order of the request
FilterKeys(t, ks) == WithRows(t, FlatSeq([i \in 1..Len(ks) |-> RowsOf(t, ks[i])]))
\* drop: everything else; within a key the order is kept
IsDrop(n, t, ks) == /\ n.n = t.n \/ n.rows = <<>>
                    /\ SameBag(n.rows, SelectSeq(t.rows, LAMBDA r : r[1] \notin Rng(ks)))
                    /\ \A k \in Rng(Keys(n)) : RowsOf(n, k) = RowsOf(t, k)
FilterInfo(t, vs, f, keep) == WithRows(t, SelectSeq(t.rows, LAMBDA r : (r[f + 1] \in Rng(vs)) = keep))
FilterIndex(t, idx, keep) ==
  IF keep THEN WithRows(t, [i \in 1..Len(idx) |-> t.rows[idx[i] + 1]])
  ELSE WithRows(t, AtSet(t.rows, {i \in 1..Len(t.rows) : ~\E j \in DOMAIN idx : idx[j] = i - 1}))
Concat(ts) == Tab(FlatSeq([i \in 1..Len(ts) |-> ts[i].rows]), ts[1].n)

SortedBy(rows, f) == \A i \in 1..(Len(rows) - 1) : rows[i][f + 1] <= rows[i + 1][f + 1]
IsSortOf(new, old, f) == SameBag(new.rows, old.rows) /\ SortedBy(new.rows, f)
PermBy(t, idx) == WithRows(t, [i \in 1..Len(idx) |-> t.rows[idx[i] + 1]])

Partition(t, parts, f) ==
  /\ SameBag(FlatSeq([i \in 1..Len(parts) |-> parts[i].rows]), t.rows)
  /\ f = 0 => FlatSeq([i \in 1..Len(parts) |-> parts[i].rows]) = t.rows
GroupWhole(parts, f) == \A i, j \in DOMAIN parts : i # j => Rng(Col(parts[i], f)) \cap Rng(Col(parts[j], f)) = {}
GroupOrder(t, parts, f) == \A i \in DOMAIN parts : \A v \in Rng(Col(parts[i], f)) :
     SelectSeq(parts[i].rows, LAMBDA r : r[f + 1] = v) = SelectSeq(t.rows, LAMBDA r : r[f + 1] = v)
Units(p, f) == IF f > 0 THEN Cardinality(Rng(Col(p, f))) ELSE Len(p.rows)
Balanced(parts, f) == LET u == {Units(parts[i], f) : i \in DOMAIN parts} IN MaxS(u) - MinS(u) <= 1
Equal(a, c) == (a.rows = <<>> /\ c.rows = <<>>) \/ (a.rows = c.rows /\ a.n = c.n)

(*------------------------------ judging events ------------------------------*)
InitSt(x) == [pool |-> <<>>, shuf |-> {}]
Adopt(s, e) == [s EXCEPT !.pool = e.pool]
Last(q) == q[Len(q)]

NewIf(s, e, clause, Ok(_)) ==
  IF e.exc # "" THEN Bad(s, clause \o ": raised " \o e.exc)
  ELSE IF Len(e.pool) # Len(s.pool) + 1 \/ ~SamePool(SubSeq(e.pool, 1, Len(s.pool)), s.pool)
       THEN Bad(s, clause \o ": another table changed")
  ELSE IF ~Ok(Last(e.pool)) THEN Bad(s, clause \o ": wrong table " \o ToString(Last(e.pool)))
  ELSE Good(Adopt(s, e))
NewTab(s, e, t, clause) == NewIf(s, e, clause, LAMBDA n : SameTab(n, t))
NoChange(s, e, cond, clause) ==
  IF e.exc # "" THEN Bad(s, clause \o ": raised " \o e.exc)
  ELSE IF ~SamePool(e.pool, s.pool) THEN Bad(s, clause \o ": a table changed")
  ELSE IF ~cond THEN Bad(s, clause \o ": wrong answer " \o ToString(e.res))
  ELSE Good(Adopt(s, e))
MustRaise(s, e, clause) ==
  IF e.exc = "" THEN Bad(s, clause \o ": an error was expected")
  ELSE IF ~SamePool(e.pool, s.pool) THEN Bad(s, clause \o ": a table changed")
  ELSE Good(Adopt(s, e))
InPlace(s, e, r, clause, Ok(_)) ==
  IF e.exc # "" THEN Bad(s, clause \o ": raised " \o e.exc)
  ELSE IF Len(e.pool) # Len(s.pool) \/ \E i \in DOMAIN s.pool : i # r /\ ~SameTab(e.pool[i], s.pool[i])
       THEN Bad(s, clause \o ": another table changed")
  ELSE IF ~Ok(e.pool[r]) THEN Bad(s, clause \o ": wrong table " \o ToString(e.pool[r]))
  ELSE Good(Adopt(s, e))

Judge(s, e) ==
  LET t == s.pool[e.r]
  IN CASE e.op = "new"    -> NewTab(s, e, e.tab, "new table holds the given rows")
       [] e.op = "copy"   -> NewTab(s, e, t, "a copy equals its original")
       [] e.op = "sort"   -> InPlace(s, e, e.r, "sort permutes whole rows into order", LAMBDA n : IsSortOf(n, t, e.f))
       [] e.op = "shuffle" ->
            IF e.exc # "" THEN Bad(s, "shuffle raised " \o e.exc)
            ELSE IF ~IsPerm0(e.res, Len(t.rows)) THEN Bad(s, "shuffle returns a permutation " \o ToString(e.res))
            ELSE IF \E x \in s.shuf : x[1] = e.seed /\ x[2] = Len(t.rows) /\ x[3] # e.res
                 THEN Bad(s, "shuffling with the same seed gives the same order")
            ELSE LET j == InPlace(s, e, e.r, "shuffle reorders whole rows by the returned index",
                                  LAMBDA n : SameTab(n, PermBy(t, e.res)))
                 IN [j EXCEPT !.st.shuf = @ \cup {<<e.seed, Len(t.rows), e.res>>}]
       [] e.op = "len"    -> NoChange(s, e, e.res = <<Len(t.rows), t.n>>, "length and number of columns")
       [] e.op = "at"     -> NoChange(s, e, e.res = t.rows[e.i + 1], "row by position")
       [] e.op = "index" ->       \* position of a key, membership
            IF e.key \in Rng(Keys(t))
            THEN NoChange(s, e, /\ e.has
                                /\ e.res \in 0..(Len(t.rows) - 1)
                                /\ t.rows[e.res + 1][1] = e.key, "position of a key")
            ELSE IF e.has THEN Bad(s, "contains: reports an absent key")
            ELSE MustRaise(s, e, "position of an absent key")
       [] e.op = "get" ->         \* values of a key that occurs once
            IF e.key \in Rng(Keys(t))
            THEN NoChange(s, e, <<e.key>> \o e.res = RowsOf(t, e.key)[1], "values of a key")
            ELSE MustRaise(s, e, "values of an absent key")
       [] e.op = "filter" ->
            IF e.keep
            THEN IF Rng(e.keys) \subseteq Rng(Keys(t)) THEN NewTab(s, e, FilterKeys(t, e.keys), "filter by key")
                 ELSE MustRaise(s, e, "filter by an absent key")
            ELSE NewIf(s, e, "filter out keys", LAMBDA n : IsDrop(n, t, e.keys))
       [] e.op = "filter_info" ->
            IF ~e.keep \/ Rng(e.keys) \subseteq Rng(Col(t, e.f))
            THEN NewTab(s, e, FilterInfo(t, e.keys, e.f, e.keep), "filter by value")
            ELSE MustRaise(s, e, "filter by an absent value")
       [] e.op = "filter_index" -> NewTab(s, e, FilterIndex(t, e.idx, e.keep), "filter by position")
       [] e.op = "merge" -> NewTab(s, e, Concat([i \in 1..Len(e.regs) |-> s.pool[e.regs[i]]]), "merge concatenates")
       [] e.op = "saveload" -> NewTab(s, e, t, "a saved table loads back")
       [] e.op = "eq" -> NoChange(s, e, e.res = <<Equal(t, s.pool[e.r2]), ~Equal(t, s.pool[e.r2])>>, "equality")
       [] e.op = "split" ->
            IF e.exc # "" THEN Bad(s, "split raised " \o e.exc)
            ELSE IF ~SamePool(SubSeq(e.pool, 1, Len(s.pool)), s.pool) THEN Bad(s, "split: another table changed")
            ELSE IF Len(e.pool) # Len(s.pool) + e.n THEN Bad(s, "split: number of parts")
            ELSE LET parts == SubSeq(e.pool, Len(s.pool) + 1, Len(e.pool))
                 IN IF ~Partition(t, parts, e.f) THEN Bad(s, "split: parts do not make up the table " \o ToString(parts))
                    ELSE IF e.f > 0 /\ ~GroupWhole(parts, e.f) THEN Bad(s, "split: a group straddles two parts")
                    ELSE IF e.f > 0 /\ ~GroupOrder(t, parts, e.f) THEN Bad(s, "split: order within a group changed")
                    ELSE IF ~Balanced(parts, e.f) THEN Bad(s, "split: parts are not balanced")
                    ELSE Good(Adopt(s, e))
       [] OTHER -> Bad(s, "unknown event " \o e.op)
=============================================================================
