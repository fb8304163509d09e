------------------------------- MODULE ScpList -------------------------------
(* hyperion/utils/scp_list.py.                                               *)
(* State: a pool of tables.  A table is an ordered list of rows              *)
(*   <<key, file path, offset, range start, range length>>                   *)
(* plus two flags telling whether the offset and the range columns exist     *)
(* (absent columns hold 0).  Keys, paths and offsets are abstract values;     *)
(* keys are integers ordered like the strings they stand for.                *)
(* Every operation is described by the effect it has on the whole pool, so   *)
(* that an operation that leaks into another table is an error too.          *)
EXTENDS Util

Tab(rows, off, rng) == [rows |-> rows, off |-> off, rng |-> rng]
K(r) == r[1]
P(r) == r[2]
Keys(t) == [i \in 1..Len(t.rows) |-> t.rows[i][1]]
Paths(t) == [i \in 1..Len(t.rows) |-> t.rows[i][2]]
Norm(t) == Tab(t.rows, t.off, t.rng)

\* an empty table remembers no range column; offsets are kept as they are
SameTab(a, c) == IF a.rows = <<>> /\ c.rows = <<>> THEN TRUE
                 ELSE a.rows = c.rows /\ a.off = c.off /\ a.rng = c.rng

SamePool(p, q) == Len(p) = Len(q) /\ \A i \in DOMAIN p : SameTab(p[i], q[i])

WithRows(t, rows) == Tab(rows, t.off, t.rng)

(*------------------------------ functional part -----------------------------*)
FilterKey(t, ks, keep) ==
  WithRows(t, SelectSeq(t.rows, LAMBDA r : (K(r) \in ks) = keep))
FilterPath(t, ps, keep) ==
  WithRows(t, SelectSeq(t.rows, LAMBDA r : (P(r) \in ps) = keep))
FilterIndex(t, idx, keep) ==
  IF keep THEN WithRows(t, [i \in 1..Len(idx) |-> t.rows[idx[i] + 1]])
  ELSE WithRows(t, AtSet(t.rows, {i \in 1..Len(t.rows) : ~\E j \in DOMAIN idx : idx[j] = i - 1}))
FilterKeyOk(t, ks, keep) == ~keep \/ ks \subseteq Rng(Keys(t))
FilterPathOk(t, ps, keep) == ~keep \/ ps \subseteq Rng(Paths(t))

Concat(ts) == LET ne == SelectSeq(ts, LAMBDA t : t.rows # <<>>)
              IN IF ne = <<>> THEN ts[1]
                 ELSE Tab(FlatSeq([i \in 1..Len(ts) |-> ts[i].rows]), ne[1].off,
                          \E i \in DOMAIN ne : ne[i].rng)

(* Saving and loading: a range column in which no row selects anything is not *)
(* written, everything else survives.                                        *)
Reloaded(t) == LET some == \E i \in DOMAIN t.rows : t.rows[i][4] # 0 \/ t.rows[i][5] # 0
               IN IF t.rng /\ ~some THEN Tab([i \in 1..Len(t.rows) |-> t.rows[i]], t.off, FALSE) ELSE t

Sorted(rows) == \A i \in 1..(Len(rows) - 1) : K(rows[i]) <= K(rows[i + 1])
IsSortOf(new, old) == SameBag(new.rows, old.rows) /\ Sorted(new.rows) /\ new.off = old.off /\ new.rng = old.rng
PermBy(t, idx) == WithRows(t, [i \in 1..Len(idx) |-> t.rows[idx[i] + 1]])

(* Partition of a table in n parts *)
Partition(t, parts, group) ==
  /\ SameBag(FlatSeq([i \in 1..Len(parts) |-> parts[i].rows]), t.rows)
  /\ ~group => FlatSeq([i \in 1..Len(parts) |-> parts[i].rows]) = t.rows
PartFlags(t, parts) == \A i \in DOMAIN parts : parts[i].rows = <<>> \/ (parts[i].off = t.off /\ parts[i].rng = t.rng)
\* a key never straddles two parts
KeyWhole(parts) == \A i, j \in DOMAIN parts : i # j => Rng(Keys(parts[i])) \cap Rng(Keys(parts[j])) = {}
\* rows with the same key keep their relative order
KeyOrder(t, parts) == \A i \in DOMAIN parts : \A k \in Rng(Keys(parts[i])) :
     SelectSeq(parts[i].rows, LAMBDA r : K(r) = k) = SelectSeq(t.rows, LAMBDA r : K(r) = k)
Units(p, group) == IF group THEN Cardinality(Rng(Keys(p))) ELSE Len(p.rows)
Balanced(parts, group) == LET u == {Units(parts[i], group) : i \in DOMAIN parts} IN MaxS(u) - MinS(u) <= 1

Equal(a, c) == (a.rows = <<>> /\ c.rows = <<>>) \/ (a.rows = c.rows /\ a.off = c.off /\ a.rng = c.rng)

(*------------------------------ judging events ------------------------------*)
(* Abstract state: pool of tables and the permutations seen per (seed, n).    *)
InitSt(x) == [pool |-> <<>>, shuf |-> {}]

Adopt(s, e) == [s EXCEPT !.pool = e.pool]

NewTab(s, e, t, clause) ==      \* the event must append table t and touch nothing else
  IF e.exc # "" THEN Bad(s, clause \o ": raised " \o e.exc)
  ELSE IF Len(e.pool) # Len(s.pool) + 1 \/ ~SamePool(SubSeq(e.pool, 1, Len(s.pool)), s.pool)
       THEN Bad(s, clause \o ": another table changed")
  ELSE IF ~SameTab(e.pool[Len(e.pool)], t)
       THEN Bad(s, clause \o ": expected " \o ToString(t) \o " got " \o ToString(e.pool[Len(e.pool)]))
  ELSE Good(Adopt(s, e))

NoChange(s, e, cond, clause) ==
  IF e.exc # "" THEN Bad(s, clause \o ": raised " \o e.exc)
  ELSE IF ~SamePool(e.pool, s.pool) THEN Bad(s, clause \o ": a table changed")
  ELSE IF ~cond THEN Bad(s, clause \o ": wrong answer " \o ToString(e.res))
  ELSE Good(Adopt(s, e))

MustRaise(s, e, clause) ==
  IF e.exc = "" THEN Bad(s, clause \o ": an error was expected")
  ELSE IF ~SamePool(e.pool, s.pool) THEN Bad(s, clause \o ": a table changed")
  ELSE Good(Adopt(s, e))

InPlace(s, e, r, clause, Ok(_)) ==
  IF e.exc # "" THEN Bad(s, clause \o ": raised " \o e.exc)
  ELSE IF Len(e.pool) # Len(s.pool) \/ \E i \in DOMAIN s.pool : i # r /\ ~SameTab(e.pool[i], s.pool[i])
       THEN Bad(s, clause \o ": another table changed")
  ELSE IF ~Ok(e.pool[r]) THEN Bad(s, clause \o ": wrong table " \o ToString(e.pool[r]))
  ELSE Good(Adopt(s, e))

Judge(s, e) ==
  LET T(i) == s.pool[i]
      t == s.pool[e.r]
  IN CASE e.op = "new"    -> NewTab(s, e, Norm(e.tab), "new table holds the given rows")
       [] e.op = "copy"   -> NewTab(s, e, t, "a copy equals its original")
       [] e.op = "sort"   -> InPlace(s, e, e.r, "sort permutes whole rows into key order", LAMBDA n : IsSortOf(n, t))
       [] e.op = "shuffle" ->
            IF e.exc # "" THEN Bad(s, "shuffle raised " \o e.exc)
            ELSE IF ~IsPerm0(e.res, Len(t.rows)) THEN Bad(s, "shuffle returns a permutation " \o ToString(e.res))
            ELSE IF \E x \in s.shuf : x[1] = e.seed /\ x[2] = Len(t.rows) /\ x[3] # e.res
                 THEN Bad(s, "shuffling with the same seed gives the same order")
            ELSE LET j == InPlace(s, e, e.r, "shuffle reorders whole rows by the returned index",
                                  LAMBDA n : SameTab(n, PermBy(t, e.res)))
                 IN [j EXCEPT !.st.shuf = @ \cup {<<e.seed, Len(t.rows), e.res>>}]
       [] e.op = "len"    -> NoChange(s, e, e.res = Len(t.rows), "length")
       [] e.op = "at"     -> NoChange(s, e, e.res = t.rows[e.i + 1], "row by position")
       [] e.op = "lookup" ->    \* <<contains, index, row by key>>
            IF e.key \in Rng(Keys(t))
            THEN NoChange(s, e, /\ e.has
                                /\ e.res[1] \in 0..(Len(t.rows) - 1)
                                /\ K(t.rows[e.res[1] + 1]) = e.key
                                /\ \E r \in Rng(t.rows) : K(r) = e.key /\ SubSeq(r, 2, 5) = SubSeq(e.res, 2, 5),
                          "lookup by key")
            ELSE IF e.has THEN Bad(s, "contains: reports an absent key")
            ELSE MustRaise(s, e, "lookup of an absent key")
       [] e.op = "filter" ->
            IF FilterKeyOk(t, Rng(e.keys), e.keep)
            THEN NewTab(s, e, FilterKey(t, Rng(e.keys), e.keep), "filter by key")
            ELSE MustRaise(s, e, "filter by an absent key")
       [] e.op = "filter_paths" ->
            IF FilterPathOk(t, Rng(e.keys), e.keep)
            THEN NewTab(s, e, FilterPath(t, Rng(e.keys), e.keep), "filter by path")
            ELSE MustRaise(s, e, "filter by an absent path")
       [] e.op = "filter_index" -> NewTab(s, e, FilterIndex(t, e.idx, e.keep), "filter by index")
       [] e.op = "merge" -> NewTab(s, e, Concat([i \in 1..Len(e.regs) |-> T(e.regs[i])]), "merge concatenates")
       [] e.op = "saveload" -> NewTab(s, e, Reloaded(t), "a saved list loads back")
       [] e.op = "eq" -> NoChange(s, e, e.res = <<Equal(t, T(e.r2)), ~Equal(t, T(e.r2))>>, "equality")
       [] e.op = "prefix" -> InPlace(s, e, e.r, "prefix is added to every path and nothing else",
              LAMBDA n : SameTab(n, WithRows(t, [i \in 1..Len(t.rows) |->
                   [t.rows[i] EXCEPT ![2] = (CHOOSE m \in Rng(e.map) : m[1] = t.rows[i][2])[2]]])))
       [] e.op = "split" ->
            IF e.exc # "" THEN Bad(s, "split raised " \o e.exc)
            ELSE IF ~SamePool(SubSeq(e.pool, 1, Len(s.pool)), s.pool) THEN Bad(s, "split: another table changed")
            ELSE IF Len(e.pool) # Len(s.pool) + e.n THEN Bad(s, "split: number of parts")
            ELSE LET parts == SubSeq(e.pool, Len(s.pool) + 1, Len(e.pool))
                 IN IF ~Partition(t, parts, e.group) THEN Bad(s, "split: parts do not make up the list " \o ToString(parts))
                    ELSE IF ~PartFlags(t, parts) THEN Bad(s, "split: a column is lost")
                    ELSE IF e.group /\ ~KeyWhole(parts) THEN Bad(s, "split: a key straddles two parts")
                    ELSE IF e.group /\ ~KeyOrder(t, parts) THEN Bad(s, "split: order within a key changed")
                    ELSE IF ~Balanced(parts, e.group) THEN Bad(s, "split: parts are not balanced")
                    ELSE Good(Adopt(s, e))
       [] OTHER -> Bad(s, "unknown event " \o e.op)
=============================================================================
