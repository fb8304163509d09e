---------------------------- MODULE MC_Segments ----------------------------
(* Bounded model of segment lists: every history of DEPTH operations on small *)
(* lists of two files, emitted as scripts; the algebra of masks, of splitting *)
(* and of merging neighbours.                                                 *)
EXTENDS Segments, Json
CONSTANTS DEPTH, MAXROWS, EVERY, NT, NN
VARIABLES pool, hist
vars == <<pool, hist>>

TIMES == {<<<<0, 20>>, <<10, 30>>, <<20, 20>>, <<40, 70>>>>[i] : i \in 1..NT}
NMS == {<<<<1>>, <<1, 2>>, <<1, 0>>>>[i] : i \in 1..NN}
\* rows of n segments; the extended list needs time order inside a file
RowsOf(n, c) == [i \in 1..n |-> <<i, c[i][1], c[i][2][1], c[i][2][2], 0>>]
Choices(n) == [1..n -> {1, 2} \X TIMES]
PlainRows == UNION {{RowsOf(n, c) : c \in Choices(n)} : n \in 1..MAXROWS}
FileOrdered(rows) == \A f \in {1, 2} : LET r == RowsWith(rows, FILE, f) IN \A i \in 1..(Len(r) - 1) : r[i][TB] <= r[i + 1][TB]
ExtRows == {rows \in UNION {{RowsOf(n, c) : c \in Choices(n)} : n \in 1..MAXROWS} : FileOrdered(rows)}
WithExt(rows, how) == [i \in 1..Len(rows) |-> SubSeq(rows[i], 1, 4) \o <<IF how = 1 THEN i ELSE (i + 1) \div 2>>]
NameTab(rows, nm) == [i \in 1..Len(DropDup(ColOf(rows, EXT))) |-> <<DropDup(ColOf(rows, EXT))[i], nm[(i % Len(nm)) + 1], -1>>]
FileTab(rows, sr) == [i \in 1..Len(DropDup(ColOf(rows, FILE))) |-> LET f == DropDup(ColOf(rows, FILE))[i] IN <<f, IF sr THEN 1 ELSE f>>]

Init == \/ \E rows \in PlainRows, by \in {1, 2} : LET x == Seg(by, rows) IN
             pool = <<x>> /\ hist = <<[op |-> "new", r |-> 1, list |-> x]>>
        \/ \E rows \in ExtRows, how \in {1, 2}, by \in {1, 2, 5, 6}, nm \in NMS :
             LET r == WithExt(rows, how) x == Ext(by, r, NameTab(r, nm), FileTab(r, by = 6)) IN
             pool = <<x>> /\ hist = <<[op |-> "new", r |-> 1, list |-> x]>>
Add(x, ev) == pool' = Append(pool, x) /\ hist' = Append(hist, ev)
Same(ev) == pool' = pool /\ hist' = Append(hist, ev)
Set(r, x, ev) == pool' = [pool EXCEPT ![r] = x] /\ hist' = Append(hist, ev)

SegDrop(x, ks) == LET u == SelectSeq(Uniq(KeysOf(x)), LAMBDA k : k \notin Rng(ks)) IN SegKeep(x, u)
Flt(x, ks, keep) == IF x.t = "ext" THEN ExtFilter(x, ks, keep) ELSE IF keep THEN SegKeep(x, ks) ELSE SegDrop(x, ks)
Bound(i, N, n) == (i * N) \div n
Parts(x, n) == LET u == IF x.by = SEG THEN ColOf(x.rows, SEG) ELSE Uniq(KeysOf(x)) IN
   [i \in 1..n |-> Flt(x, SubSeq(u, Bound(i - 1, Len(u), n) + 1, Bound(i, Len(u), n)), TRUE)]
Adjacent(x, m) == LET g == Groups(x, m)
                      rows == [i \in 1..Len(x.rows) |-> SubSeq(x.rows[i], 1, 4) \o <<100 + g[i]>>]
                      ids == DropDup(ColOf(rows, EXT))
                  IN [x EXCEPT !.rows = rows,
                       !.ext = [j \in 1..Len(ids) |-> <<ids[j], NameOf(x, x.rows[MinS({i \in DOMAIN rows : rows[i][EXT] = ids[j]})][EXT]), -1>>]]
Bys(x) == IF x.t = "seg" THEN {1, 2} ELSE {1, 2, 5, 6}
Small == Len(pool) <= 3
Next == /\ Len(hist) <= DEPTH
        /\ \E r \in DOMAIN pool : LET x == pool[r] IN
             \/ x.rows # <<>> /\ \E k \in KeysOf(x) \cup {77} : Same([op |-> "get", r |-> r, key |-> k]) \/ Same([op |-> "mask", r |-> r, key |-> k])
             \/ Same([op |-> "iter", r |-> r])
             \/ Same([op |-> "names", r |-> r])
             \/ \E i \in 0..2 : Same([op |-> "at", r |-> r, i |-> i])
             \/ \E f \in {1, 2} : Same([op |-> "ofile", r |-> r, key |-> f])
             \/ \E by \in Bys(x) : Set(r, [x EXCEPT !.by = by], [op |-> "setby", r |-> r, by |-> by])
             \/ x.t = "ext" /\ x.rows # <<>> /\ \E m \in {0, 1, 2} : Set(r, Adjacent(x, m), [op |-> "adjacent", r |-> r, max |-> m])
             \/ x.rows # <<>> /\ Small /\ \E S \in SUBSET KeysOf(x), keep \in BOOLEAN :
                   Add(Flt(x, Uniq(S), keep), [op |-> "filter", r |-> r, keys |-> Uniq(S), keep |-> keep])
             \/ x.rows # <<>> /\ Small /\ \E n \in 1..3 : pool' = pool \o Parts(x, n) /\ hist' = Append(hist, [op |-> "split", r |-> r, n |-> n])
             \/ x.rows # <<>> /\ Small /\ \E by \in Bys(x) : Add([x EXCEPT !.by = by], [op |-> "saveload", r |-> r, by |-> by])
             \/ x.t = "seg" /\ Small /\ \E by \in {1, 2} : Add([x EXCEPT !.by = by], [op |-> "rebuild", r |-> r, by |-> by])
Spec == Init /\ [][Next]_vars

\* instants of a file (named) covered by a list, in steps of 5 ms
Covered(x, f) == {t \in 0..16 : \E i \in DOMAIN x.rows : x.rows[i][FILE] = f /\ x.rows[i][TB] <= 5 * t /\ 5 * t <= x.rows[i][TE]}
CoveredN(x, f, n) == {t \in 0..16 : \E i \in DOMAIN x.rows : x.rows[i][FILE] = f /\ NameOf(x, x.rows[i][EXT]) = n /\ x.rows[i][TB] <= 5 * t /\ 5 * t <= x.rows[i][TE]}
AdjacentKeepsTime == \A p \in DOMAIN pool : LET x == pool[p] IN (x.t = "ext" /\ x.rows # <<>>) => \A m \in 0..2 :
     /\ IsAdjacent(Adjacent(x, m), x, m)
     /\ \A f \in {1, 2}, n \in {0, 1, 2} : CoveredN(Adjacent(x, m), f, n) = CoveredN(x, f, n)
     /\ m = 0 => Groups(Adjacent(x, 0), 0) = Groups(x, 0)
SplitsPartition == \A p \in DOMAIN pool : LET x == pool[p] IN x.rows # <<>> => \A n \in 1..3 :
     /\ SplitVerdict([pool |-> pool], [exc |-> "", n |-> n, pool |-> pool \o Parts(x, n)], x).ok
     /\ \A f \in {1, 2} : Covered(x, f) = UNION {Covered(Parts(x, n)[i], f) : i \in 1..n}
FilterComplement == \A p \in DOMAIN pool : LET x == pool[p] IN \A S \in SUBSET KeysOf(x) :
     SameBag(Flt(x, Uniq(S), TRUE).rows \o Flt(x, Uniq(S), FALSE).rows, x.rows)
\* the mask of a file is the union of the masks of its segments
TheMask(rows, n) == [k \in 1..n |-> IF \E i \in DOMAIN rows : rows[i][TB] <= 10 * (k - 1) /\ 10 * (k - 1) <= rows[i][TE] THEN 1 ELSE 0]
MaskIsTime == \A p \in DOMAIN pool : \A f \in Rng(ColOf(pool[p].rows, FILE)) : LET rows == RowsWith(pool[p].rows, FILE, f) IN
     MaskOk(rows, 10, 8, TheMask(rows, 8)) /\ (\A k \in 1..8 : ~MaskOk(rows, 10, 8, [TheMask(rows, 8) EXCEPT ![k] = 1 - @]))
Emit == (Len(hist) = DEPTH + 1 /\ (EVERY = 1 \/ Len(ToJson(hist)) % EVERY = 0)) => PrintT("@@BEH " \o ToJson(hist))
=============================================================================
