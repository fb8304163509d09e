------------------------------ MODULE Segments ------------------------------
(* hyperion/utils/segment_list.py and ext_segment_list.py.  Times are in ms.  *)
(* State: a pool of lists.                                                    *)
(*  [t |-> "seg", by, rows]       by = 2 lookups by file, 1 by segment id     *)
(*  [t |-> "ext", by, rows, ext, files]  by also 5 (ext. segment), 6 (series) *)
(* A row is <<segment, file, begin, end, extended segment>> (0 in plain       *)
(* lists); ext holds <<extended segment, name, score>> (name 0: none) and     *)
(* files <<file, series>>.                                                    *)
EXTENDS Util

SEG == 1  FILE == 2  TB == 3  TE == 4  EXT == 5  SERIES == 6
Seg(by, rows) == [t |-> "seg", by |-> by, rows |-> rows, ext |-> <<>>, files |-> <<>>]
Ext(by, rows, ext, files) == [t |-> "ext", by |-> by, rows |-> rows, ext |-> ext, files |-> files]

Bag(q, r) == SameBag(q, r)
SameList(a, c) == a.t = c.t /\ a.by = c.by /\ a.rows = c.rows /\ Bag(a.ext, c.ext) /\ Bag(a.files, c.files)
SamePool(p, q) == Len(p) = Len(q) /\ \A i \in DOMAIN p : SameList(p[i], q[i])

SeriesOf(x, f) == LET M == {i \in DOMAIN x.files : x.files[i][1] = f} IN IF M = {} THEN -1 ELSE x.files[MinS(M)][2]
NameOf(x, e) == LET M == {i \in DOMAIN x.ext : x.ext[i][1] = e} IN IF M = {} THEN -1 ELSE x.ext[MinS(M)][2]
ScoreOf(x, e) == LET M == {i \in DOMAIN x.ext : x.ext[i][1] = e} IN IF M = {} THEN -1 ELSE x.ext[MinS(M)][3]
\* the key of a row under index column by
KeyIn(x, r, by) == IF by = SERIES THEN SeriesOf(x, r[FILE]) ELSE r[by]
Key(x, r) == KeyIn(x, r, x.by)
ColOf(rows, c) == [i \in 1..Len(rows) |-> rows[i][c]]
KeysOf(x) == {Key(x, x.rows[i]) : i \in DOMAIN x.rows}
Uniq(S) == SetToSortSeq2(S)
RowsWith(rows, c, v) == SelectSeq(rows, LAMBDA r : r[c] = v)

RECURSIVE DropDup(_)
DropDup(q) == IF q = <<>> THEN <<>> ELSE LET h == SubSeq(q, 1, Len(q) - 1) l == q[Len(q)] IN
              IF l \in Rng(h) THEN DropDup(h) ELSE DropDup(h) \o <<l>>

\* the extended segments and files that rows refer to
Restrict(x, rows) == [x EXCEPT !.rows = rows,
     !.ext = SelectSeq(x.ext, LAMBDA q : q[1] \in Rng(ColOf(rows, EXT))),
     !.files = SelectSeq(x.files, LAMBDA q : q[1] \in Rng(ColOf(rows, FILE)))]
TimeOrdered(rows) == \A i \in 1..(Len(rows) - 1) : rows[i][FILE] = rows[i + 1][FILE] => rows[i][TB] <= rows[i + 1][TB]
Spans(rows) == \A i \in DOMAIN rows : rows[i][TB] <= rows[i][TE]

(* filtering *)
SegKeep(x, ks) == [x EXCEPT !.rows = FlatSeq([i \in 1..Len(ks) |-> RowsWith(x.rows, x.by, ks[i])])]
SegIsDrop(n, x, ks) == /\ n.t = "seg" /\ n.by = x.by
                       /\ SameBag(n.rows, SelectSeq(x.rows, LAMBDA r : Key(x, r) \notin Rng(ks)))
                       /\ \A k \in Rng(ColOf(n.rows, x.by)) : RowsWith(n.rows, x.by, k) = RowsWith(x.rows, x.by, k)
ExtFilter(x, ks, keep) == Restrict(x, SelectSeq(x.rows, LAMBDA r : (Key(x, r) \in Rng(ks)) = keep))

(* frames: k*fs ms is marked if it lies in a segment; ties of rounding are open *)
FrLo(t, fs) == (2 * t - fs + 2 * fs - 1) \div (2 * fs)
FrHi(t, fs) == (2 * t + fs) \div (2 * fs)
MaskOk(rows, fs, nf, res) ==
  LET lim == {Max2(FrLo(rows[i][TE], fs), 0) : i \in DOMAIN rows}
      lim2 == {FrHi(rows[i][TE], fs) : i \in DOMAIN rows}
  IN /\ IF nf >= 0 THEN Len(res) = nf ELSE Len(res) \in MaxS(lim)..MaxS(lim2)
     /\ \A k \in 0..(Len(res) - 1) :
          /\ res[k + 1] \in {0, 1}
          /\ (\E i \in DOMAIN rows : FrHi(rows[i][TB], fs) <= k /\ k <= FrLo(rows[i][TE], fs)) => res[k + 1] = 1
          /\ res[k + 1] = 1 => \E i \in DOMAIN rows : FrLo(rows[i][TB], fs) <= k /\ k <= FrHi(rows[i][TE], fs)

(* merging neighbouring segments: group number of every row *)
Joins(x, i) == /\ x.rows[i][FILE] = x.rows[i - 1][FILE]
               /\ NameOf(x, x.rows[i][EXT]) = NameOf(x, x.rows[i - 1][EXT])
               /\ NameOf(x, x.rows[i][EXT]) > 0
RECURSIVE GroupsR(_, _, _, _)
GroupsR(x, m, i, acc) ==      \* acc = <<group of rows 1..i-1, size of the last group>>
  IF i > Len(x.rows) THEN acc[1]
  ELSE IF i > 1 /\ Joins(x, i) /\ acc[2] # m
       THEN GroupsR(x, m, i + 1, <<Append(acc[1], acc[1][i - 1]), acc[2] + 1>>)
       ELSE GroupsR(x, m, i + 1, <<Append(acc[1], IF i = 1 THEN 1 ELSE acc[1][i - 1] + 1), 1>>)
Groups(x, m) == GroupsR(x, m, 1, <<<<>>, 0>>)
IsAdjacent(n, x, m) ==
  LET g == Groups(x, m) IN
  /\ n.t = "ext" /\ n.by = x.by /\ Bag(n.files, x.files) /\ Len(n.rows) = Len(x.rows)
  /\ \A i \in DOMAIN x.rows : SubSeq(n.rows[i], 1, 4) = SubSeq(x.rows[i], 1, 4)
  /\ \A i, j \in DOMAIN x.rows : (n.rows[i][EXT] = n.rows[j][EXT]) <=> (g[i] = g[j])
  /\ Len(n.ext) = Cardinality(Rng(ColOf(n.rows, EXT)))
  /\ \A i \in DOMAIN x.rows : NameOf(n, n.rows[i][EXT]) = NameOf(x, x.rows[i][EXT])

(*------------------------------ judging events ------------------------------*)
InitSt(x) == [pool |-> <<>>]
Adopt(s, e) == [s EXCEPT !.pool = e.pool]
Last(q) == q[Len(q)]
NewIf(s, e, clause, Ok(_)) ==
  IF e.exc # "" THEN Bad(s, clause \o ": raised " \o e.exc)
  ELSE IF Len(e.pool) # Len(s.pool) + 1 \/ ~SamePool(SubSeq(e.pool, 1, Len(s.pool)), s.pool)
       THEN Bad(s, clause \o ": another list changed")
  ELSE IF ~Ok(Last(e.pool)) THEN Bad(s, clause \o ": wrong list " \o ToString(Last(e.pool)))
  ELSE Good(Adopt(s, e))
NewList(s, e, x, clause) == NewIf(s, e, clause, LAMBDA n : SameList(n, x))
NoChange(s, e, cond, clause) ==
  IF e.exc # "" THEN Bad(s, clause \o ": raised " \o e.exc)
  ELSE IF ~SamePool(e.pool, s.pool) THEN Bad(s, clause \o ": a list changed")
  ELSE IF ~cond THEN Bad(s, clause \o ": wrong answer " \o ToString(e.res))
  ELSE Good(Adopt(s, e))
MustRaise(s, e, clause) ==
  IF e.exc = "" THEN Bad(s, clause \o ": an error was expected")
  ELSE IF ~SamePool(e.pool, s.pool) THEN Bad(s, clause \o ": a list changed")
  ELSE Good(Adopt(s, e))
InPlace(s, e, r, clause, Ok(_)) ==
  IF e.exc # "" THEN Bad(s, clause \o ": raised " \o e.exc)
  ELSE IF Len(e.pool) # Len(s.pool) \/ \E i \in DOMAIN s.pool : i # r /\ ~SameList(e.pool[i], s.pool[i])
       THEN Bad(s, clause \o ": another list changed")
  ELSE IF ~Ok(e.pool[r]) THEN Bad(s, clause \o ": wrong list " \o ToString(e.pool[r]))
  ELSE Good(Adopt(s, e))

\* a constructor of extended lists accepts exactly ordered, non-negative spans
MadeExt(s, e, x, clause) ==
  IF Spans(x.rows) /\ TimeOrdered(x.rows) THEN NewList(s, e, x, clause) ELSE MustRaise(s, e, clause \o " out of order")

Units(x) == IF x.by \in {FILE, EXT, SERIES} THEN KeysOf(x) ELSE 1..Len(x.rows)
SplitVerdict(s, e, x) ==
  IF e.exc # "" THEN Bad(s, "split raised " \o e.exc)
  ELSE IF ~SamePool(SubSeq(e.pool, 1, Len(s.pool)), s.pool) THEN Bad(s, "split: another list changed")
  ELSE IF Len(e.pool) # Len(s.pool) + e.n THEN Bad(s, "split: number of parts")
  ELSE LET parts == SubSeq(e.pool, Len(s.pool) + 1, Len(e.pool))
           un == [i \in DOMAIN parts |-> IF x.by = SEG THEN Len(parts[i].rows)
                                         ELSE Cardinality({KeyIn(x, parts[i].rows[j], x.by) : j \in DOMAIN parts[i].rows})]
       IN IF ~SameBag(FlatSeq([i \in 1..e.n |-> parts[i].rows]), x.rows) THEN Bad(s, "split: parts do not make up the list")
          ELSE IF \E i, j \in DOMAIN parts : i # j /\ \E p \in DOMAIN parts[i].rows, q \in DOMAIN parts[j].rows :
                      KeyIn(x, parts[i].rows[p], x.by) = KeyIn(x, parts[j].rows[q], x.by) THEN Bad(s, "split: a group straddles two parts")
          ELSE IF x.by # SERIES /\ \E i \in DOMAIN parts : \E f \in Rng(ColOf(parts[i].rows, x.by)) :
                      RowsWith(parts[i].rows, x.by, f) # RowsWith(x.rows, x.by, f) THEN Bad(s, "split: order within a group changed")
          ELSE IF MaxS(Rng(un)) - MinS(Rng(un)) > 1 THEN Bad(s, "split: parts are not balanced")
          ELSE IF x.t = "ext" /\ \E i \in DOMAIN parts : ~SameList(parts[i], Restrict(x, parts[i].rows)) THEN Bad(s, "split: names or files of a part")
          ELSE IF \E i \in DOMAIN parts : parts[i].by # x.by THEN Bad(s, "split: index column of a part")
          ELSE Good(Adopt(s, e))

Judge(s, e) ==
  IF e.op = "new" THEN
       IF e.list.t = "seg" THEN IF Spans(e.list.rows) THEN NewList(s, e, e.list, "a new list holds the given segments")
                                ELSE MustRaise(s, e, "a segment that ends before it begins")
       ELSE MadeExt(s, e, e.list, "a new extended list holds the given segments")
  ELSE LET x == s.pool[e.r] IN
  CASE e.op = "copy" -> NewList(s, e, x, "a copy equals its original")
    [] e.op = "rebuild" -> NewList(s, e, [x EXCEPT !.by = e.by], "a list built from the table of another")
    [] e.op = "setby" -> InPlace(s, e, e.r, "changing the index column", LAMBDA n : SameList(n, [x EXCEPT !.by = e.by]))
    [] e.op = "fromseg" -> MadeExt(s, e, Ext(e.by, [i \in 1..Len(x.rows) |-> SubSeq(x.rows[i], 1, 4) \o <<x.rows[i][SEG]>>],
                                             [i \in 1..Len(x.rows) |-> <<x.rows[i][SEG], IF e.names = <<>> THEN 0 ELSE e.names[i], -1>>],
                                             [i \in 1..Len(DropDup(ColOf(x.rows, FILE))) |-> LET f == DropDup(ColOf(x.rows, FILE))[i] IN <<f, f>>]),
                                 "extended list made of a list")
    [] e.op = "filter" ->
         IF e.keep /\ ~(Rng(e.keys) \subseteq (IF x.by = SERIES THEN Rng([i \in 1..Len(x.files) |-> x.files[i][2]]) ELSE KeysOf(x)))
         THEN MustRaise(s, e, "filter by an absent key")
         ELSE IF x.t = "seg" THEN (IF e.keep THEN NewList(s, e, SegKeep(x, e.keys), "filter")
                                   ELSE NewIf(s, e, "filter out", LAMBDA n : SegIsDrop(n, x, e.keys)))
         ELSE NewList(s, e, ExtFilter(x, e.keys, e.keep), "filter of an extended list")
    [] e.op = "split" -> SplitVerdict(s, e, x)
    [] e.op = "merge" ->
         LET xs == [i \in 1..Len(e.regs) |-> s.pool[e.regs[i]]]
             rows == FlatSeq([i \in 1..Len(xs) |-> xs[i].rows])
         IN IF x.t = "seg" THEN NewList(s, e, Seg(e.by, rows), "merge joins the lists")
            ELSE MadeExt(s, e, Ext(e.by, DropDup(rows), DropDup(FlatSeq([i \in 1..Len(xs) |-> xs[i].ext])),
                                   DropDup(FlatSeq([i \in 1..Len(xs) |-> xs[i].files]))), "merge joins the extended lists")
    [] e.op = "saveload" -> NewList(s, e, [x EXCEPT !.by = e.by], "a saved list loads back")
    [] e.op = "adjacent" -> InPlace(s, e, e.r, "merging neighbouring segments keeps every file, span and name", LAMBDA n : IsAdjacent(n, x, e.max))
    [] e.op = "assign" -> InPlace(s, e, e.r, "assigning names",
             LAMBDA n : SameList(n, [x EXCEPT !.ext = [i \in 1..Len(x.ext) |->
                  LET M == {j \in DOMAIN e.keys : e.keys[j] = x.ext[i][1]} IN
                  IF M = {} THEN x.ext[i] ELSE <<x.ext[i][1], e.names[MinS(M)], e.scores[MinS(M)]>>]]))
    [] e.op = "len" -> NoChange(s, e, e.res = <<Len(x.rows), IF x.t = "ext" THEN Len(x.ext) ELSE Cardinality(Rng(ColOf(x.rows, FILE)))>>, "length")
    [] e.op = "get" ->           \* lookup by name
         IF e.key \notin (IF x.by = SERIES THEN {x.files[i][2] : i \in DOMAIN x.files} ELSE KeysOf(x)) THEN MustRaise(s, e, "lookup of an absent key")
         ELSE IF x.t = "seg" /\ x.by = SEG THEN NoChange(s, e, e.res = RowsWith(x.rows, SEG, e.key), "the segment of an id")
         ELSE IF x.t = "seg" THEN NewList(s, e, Seg(SEG, RowsWith(x.rows, FILE, e.key)), "the segments of a file")
         ELSE IF x.by = SEG THEN NoChange(s, e, e.res = [i \in 1..Len(RowsWith(x.rows, SEG, e.key)) |-> LET r == RowsWith(x.rows, SEG, e.key)[i] IN
                                              r \o <<NameOf(x, r[EXT])>>], "the segment of an id")
         ELSE NewList(s, e, ExtFilter(x, <<e.key>>, TRUE), "the segments of a key")
    [] e.op = "at" ->            \* lookup by position
         IF x.by = SEG THEN (IF e.i < Len(x.rows) THEN NoChange(s, e, e.res = <<x.rows[e.i + 1]>>, "segment by position") ELSE MustRaise(s, e, "position outside the list"))
         ELSE IF e.i < Cardinality(KeysOf(x)) THEN NewList(s, e, Seg(SEG, RowsWith(x.rows, FILE, Uniq(KeysOf(x))[e.i + 1])), "file by position")
              ELSE MustRaise(s, e, "position outside the list")
    [] e.op = "in" -> NoChange(s, e, e.res = <<e.key \in (IF x.by = SERIES THEN Rng(ColOf(x.rows, FILE)) ELSE KeysOf(x))>>, "membership")
    [] e.op = "iter" ->
         LET u == Uniq(KeysOf(x)) IN
         IF x.by = SEG THEN NoChange(s, e, e.res = [i \in 1..Len(x.rows) |-> <<SubSeq(x.rows[i], 1, 5)>>], "iteration over segments")
         ELSE IF x.t = "seg" THEN NoChange(s, e, e.res = [i \in 1..Len(u) |-> RowsWith(x.rows, FILE, u[i])], "iteration over files")
         ELSE NoChange(s, e, SameBag(e.res, [i \in 1..Len(u) |-> SelectSeq(x.rows, LAMBDA r : Key(x, r) = u[i])]), "iteration over groups")
    [] e.op = "ofile" ->         \* segment ids (and extended ids) of a file
         NoChange(s, e, /\ e.res[1] = ColOf(RowsWith(x.rows, FILE, e.key), SEG)
                        /\ x.t = "ext" => (IsInj(e.res[2]) /\ Rng(e.res[2]) = Rng(ColOf(RowsWith(x.rows, FILE, e.key), EXT))), "segments of a file")
    [] e.op = "names" ->
         NoChange(s, e, /\ e.res[1] = [i \in 1..Len(x.rows) |-> NameOf(x, x.rows[i][EXT])]
                        /\ e.res[2] = [i \in 1..Len(x.rows) |-> ScoreOf(x, x.rows[i][EXT])]
                        /\ \A i \in DOMAIN x.rows : e.res[3][i] \in 0..(Len(x.ext) - 1) /\ e.res[4][e.res[3][i] + 1] = x.rows[i][EXT], "names, scores and positions of the segments")
    [] e.op = "mask" ->
         LET rows == RowsWith(x.rows, x.by, e.key)
         IN IF rows = <<>> THEN MustRaise(s, e, "frame mask of an absent key")
            ELSE IF x.by = SEG /\ e.nf < 0       \* as long as the file
            THEN NoChange(s, e, \E n \in {Len(e.res)} :
                     /\ \A k \in {MaxS({FrLo(y[TE], e.fs) : y \in {x.rows[i] : i \in {i \in DOMAIN x.rows : x.rows[i][FILE] = rows[1][FILE]}}})} : n >= Max2(k, 0)
                     /\ n <= MaxS({FrHi(y[TE], e.fs) : y \in {x.rows[i] : i \in {i \in DOMAIN x.rows : x.rows[i][FILE] = rows[1][FILE]}}})
                     /\ MaskOk(rows, e.fs, n, e.res), "frame mask of a segment")
            ELSE NoChange(s, e, MaskOk(rows, e.fs, e.nf, e.res), "frame mask")
    [] e.op = "eq" -> NoChange(s, e, e.res = <<x.rows = s.pool[e.r2].rows /\ x.by = s.pool[e.r2].by, ~(x.rows = s.pool[e.r2].rows /\ x.by = s.pool[e.r2].by)>>, "equality")
    [] OTHER -> Bad(s, "unknown event " \o e.op)
=============================================================================
