-------------------------------- MODULE Rttm --------------------------------
(* hyperion/utils/rttm.py.  Times are in 1/64 s.                             *)
(* State: a pool of lists [by, rows], by = 2 index by file, 1 by position; a  *)
(* row is [ty, f, ch, tb, td, n, cf]: type, file, channel, begin, duration,   *)
(* name (a sequence: prefixes put before it, then the name; <<>> is missing)  *)
(* and confidence (-1: missing).                                             *)
EXTENDS Util

R(by, rows) == [by |-> by, rows |-> rows]
SPK == 1                                  \* type SPEAKER
End(r) == r.tb + r.td
SamePool(p, q) == Len(p) = Len(q) /\ \A i \in DOMAIN p : p[i] = q[i]
Files(rows) == {rows[i].f : i \in DOMAIN rows}
RECURSIVE FilesSeq(_)
FilesSeq(rows) == IF rows = <<>> THEN <<>> ELSE LET h == FilesSeq(SubSeq(rows, 1, Len(rows) - 1)) l == rows[Len(rows)].f IN
                  IF l \in Rng(h) THEN h ELSE Append(h, l)
OfFile(rows, f) == SelectSeq(rows, LAMBDA r : r.f = f)
Ordered(rows) == \A i \in 1..(Len(rows) - 1) : rows[i].f = rows[i + 1].f => rows[i].tb <= rows[i + 1].tb
Spk(rows, f) == {rows[i].n : i \in {i \in DOMAIN rows : rows[i].ty = SPK /\ rows[i].f = f}}
AllSpk(rows) == {rows[i].n : i \in {i \in DOMAIN rows : rows[i].ty = SPK}}

(* who speaks when, on a grid of 1/8 s *)
GRID(rows) == 0..(MaxS({0} \cup {End(rows[i]) : i \in DOMAIN rows}) \div 8)
At(r, c) == r.tb <= 8 * c + 4 /\ 8 * c + 4 < End(r)
Cov(rows, P(_)) == {c \in GRID(rows) : \E i \in DOMAIN rows : P(rows[i]) /\ At(rows[i], c)}
Kinds(rows) == {<<rows[i].f, rows[i].ty>> : i \in DOMAIN rows}
Who(rows) == {<<rows[i].f, rows[i].ty, rows[i].n>> : i \in DOMAIN rows}
CovK(rows, k) == Cov(rows, LAMBDA r : r.f = k[1] /\ r.ty = k[2])
CovW(rows, w) == Cov(rows, LAMBDA r : r.f = w[1] /\ r.ty = w[2] /\ r.n = w[3])

(* joining marks of one speaker that follow each other with a gap of at most m *)
Joined(rows, m, i) == /\ i > 1
                      /\ rows[i].f = rows[i - 1].f /\ rows[i].ty = rows[i - 1].ty /\ rows[i].n = rows[i - 1].n
                      /\ rows[i].tb - End(rows[i - 1]) <= m
RECURSIVE AdjR(_, _, _, _)
AdjR(rows, m, i, acc) ==
  IF i > Len(rows) THEN acc
  ELSE IF Joined(rows, m, i)
       THEN LET p == acc[Len(acc)] IN AdjR(rows, m, i + 1, [acc EXCEPT ![Len(acc)] = [p EXCEPT !.td = Max2(End(rows[i]), End(p)) - p.tb]])
       ELSE AdjR(rows, m, i + 1, Append(acc, rows[i]))
Adjacent(rows, m) == AdjR(rows, m, 1, <<>>)
FilledGaps(rows, m, w) == UNION {{c \in GRID(rows) : End(rows[i - 1]) <= 8 * c + 4 /\ 8 * c + 4 < rows[i].tb}
                                 : i \in {i \in 2..Len(rows) : Joined(rows, m, i) /\ <<rows[i].f, rows[i].ty, rows[i].n>> = w}}
\* the same speakers at the same times, plus the gaps
AdjacentOk(n, rows, m) == /\ Who(n) = Who(rows)
                          /\ \A w \in Who(rows) : CovW(n, w) = CovW(rows, w) \cup FilledGaps(rows, m, w)

(* removing overlaps *)
NoOverlapOk(n, rows) ==
  /\ Who(n) \subseteq Who(rows) /\ Ordered(n)
  /\ \A i \in DOMAIN n : n[i].td > 0
  /\ \A w \in Who(n) : CovW(n, w) \subseteq CovW(rows, w)
  /\ \A k \in Kinds(rows) : CovK(n, k) = CovK(rows, k)
  /\ \A i, j \in DOMAIN n : (i < j /\ n[i].f = n[j].f /\ n[i].ty = n[j].ty) => (End(n[i]) <= n[j].tb \/ End(n[j]) <= n[i].tb)

(* names of a time span of a file *)
Overlap(r, a, b) == (r.tb < b /\ End(r) > a) \/ (a = b /\ r.tb <= a /\ End(r) > a)
Touch(r, a, b) == r.tb <= b /\ End(r) >= a
NamesMust(rows, ty, q) == {rows[i].n : i \in {i \in DOMAIN rows : rows[i].ty = ty /\ rows[i].f = q[1] /\ Overlap(rows[i], q[2], q[3])}}
NamesMay(rows, ty, q) == IF q[2] < q[3] THEN NamesMust(rows, ty, q)
                         ELSE {rows[i].n : i \in {i \in DOMAIN rows : rows[i].ty = ty /\ rows[i].f = q[1] /\ Touch(rows[i], q[2], q[3])}}

(*------------------------------ judging events ------------------------------*)
InitSt(x) == [pool |-> <<>>]
Adopt(s, e) == [s EXCEPT !.pool = e.pool]
Last(q) == q[Len(q)]
NewIf(s, e, clause, Ok(_)) ==
  IF e.exc # "" THEN Bad(s, clause \o ": raised " \o e.exc)
  ELSE IF Len(e.pool) # Len(s.pool) + 1 \/ ~SamePool(SubSeq(e.pool, 1, Len(s.pool)), s.pool)
       THEN Bad(s, clause \o ": another list changed")
  ELSE IF ~Ok(Last(e.pool)) THEN Bad(s, clause \o ": wrong list " \o ToString(Last(e.pool)))
  ELSE Good(Adopt(s, e))
NewList(s, e, x, clause) == NewIf(s, e, clause, LAMBDA n : n = x)
NoChange(s, e, cond, clause) ==
  IF e.exc # "" THEN Bad(s, clause \o ": raised " \o e.exc)
  ELSE IF ~SamePool(e.pool, s.pool) THEN Bad(s, clause \o ": a list changed")
  ELSE IF ~cond THEN Bad(s, clause \o ": wrong answer " \o ToString(e.res))
  ELSE Good(Adopt(s, e))
MustRaise(s, e, clause) ==
  IF e.exc = "" THEN Bad(s, clause \o ": an error was expected")
  ELSE IF ~SamePool(e.pool, s.pool) THEN Bad(s, clause \o ": a list changed")
  ELSE Good(Adopt(s, e))
InPlace(s, e, r, clause, Ok(_)) ==
  IF e.exc # "" THEN Bad(s, clause \o ": raised " \o e.exc)
  ELSE IF Len(e.pool) # Len(s.pool) \/ \E i \in DOMAIN s.pool : i # r /\ e.pool[i] # s.pool[i]
       THEN Bad(s, clause \o ": another list changed")
  ELSE IF ~Ok(e.pool[r]) THEN Bad(s, clause \o ": wrong list " \o ToString(e.pool[r]))
  ELSE Good(Adopt(s, e))
Made(s, e, x, clause) == IF Ordered(x.rows) THEN NewList(s, e, x, clause) ELSE MustRaise(s, e, clause \o " out of order")

KeepFiles(x, fs) == R(x.by, FlatSeq([i \in 1..Len(fs) |-> OfFile(x.rows, fs[i])]))
KeepPos(x, ps) == R(x.by, [i \in 1..Len(ps) |-> x.rows[ps[i] + 1]])
MatrixOk(rows, f, e) ==
  LET q == OfFile(rows, f) fr(t) == (t * e.num) \div e.den IN       \* frames per unit: exact
  /\ IsInj(e.cols) /\ Rng(e.cols) = {q[i].n : i \in DOMAIN q}
  /\ Len(e.res) = MaxS({fr(End(q[i])) : i \in DOMAIN q})
  /\ \A k \in DOMAIN e.res : /\ Len(e.res[k]) = Len(e.cols)
                             /\ \A c \in DOMAIN e.cols : e.res[k][c] = (IF \E i \in DOMAIN q : q[i].n = e.cols[c] /\ fr(q[i].tb) <= k - 1 /\ k - 1 < fr(End(q[i])) THEN 1 ELSE 0)

SplitVerdict(s, e, x) ==
  IF e.exc # "" THEN Bad(s, "split raised " \o e.exc)
  ELSE IF ~SamePool(SubSeq(e.pool, 1, Len(s.pool)), s.pool) THEN Bad(s, "split: another list changed")
  ELSE IF Len(e.pool) # Len(s.pool) + e.n THEN Bad(s, "split: number of parts")
  ELSE LET parts == SubSeq(e.pool, Len(s.pool) + 1, Len(e.pool))
           un == [i \in DOMAIN parts |-> IF x.by = 1 THEN Len(parts[i].rows) ELSE Cardinality(Files(parts[i].rows))]
       IN IF ~SameBag(FlatSeq([i \in 1..e.n |-> parts[i].rows]), x.rows) THEN Bad(s, "split: parts do not make up the list")
          ELSE IF x.by = 1 /\ FlatSeq([i \in 1..e.n |-> parts[i].rows]) # x.rows THEN Bad(s, "split: order of the marks")
          ELSE IF x.by = 2 /\ \E i \in DOMAIN parts : \E f \in Files(parts[i].rows) : OfFile(parts[i].rows, f) # OfFile(x.rows, f) THEN Bad(s, "split: a file straddles two parts")
          ELSE IF MaxS(Rng(un)) - MinS(Rng(un)) > 1 THEN Bad(s, "split: parts are not balanced")
          ELSE IF \E i \in DOMAIN parts : parts[i].by # x.by THEN Bad(s, "split: index of a part")
          ELSE Good(Adopt(s, e))

Judge(s, e) ==
  IF e.op = "new" THEN Made(s, e, e.list, "a new list holds the given marks")
  ELSE LET x == s.pool[e.r] rows == x.rows IN
  CASE e.op = "copy" -> NewList(s, e, x, "a copy equals its original")
    [] e.op = "rebuild" -> NewList(s, e, R(e.by, rows), "a list built from the table of another")
    [] e.op = "setby" -> InPlace(s, e, e.r, "changing the index", LAMBDA n : n = R(e.by, rows))
    [] e.op = "filter" ->
         IF x.by = 2
         THEN IF e.keep THEN (IF ~(Rng(e.keys) \subseteq Files(rows)) THEN MustRaise(s, e, "filter by an absent file")
                              ELSE Made(s, e, KeepFiles(x, e.keys), "filter by file"))
              ELSE NewIf(s, e, "filter out files", LAMBDA n : n.by = 2 /\ SameBag(n.rows, SelectSeq(rows, LAMBDA r : r.f \notin Rng(e.keys)))
                                                              /\ \A f \in Files(n.rows) : OfFile(n.rows, f) = OfFile(rows, f))
         ELSE IF e.keep THEN (IF \E i \in DOMAIN e.keys : e.keys[i] >= Len(rows) THEN MustRaise(s, e, "filter by an absent position")
                              ELSE Made(s, e, KeepPos(x, e.keys), "filter by position"))
              ELSE Made(s, e, R(1, AtSet(rows, {i \in DOMAIN rows : (i - 1) \notin Rng(e.keys)})), "filter out positions")
    [] e.op = "split" -> SplitVerdict(s, e, x)
    [] e.op = "merge" -> Made(s, e, R(e.by, FlatSeq([i \in 1..Len(e.regs) |-> s.pool[e.regs[i]].rows])), "merge joins the lists")
    [] e.op = "saveload" -> NewList(s, e, R(e.by, rows), "a saved list loads back")
    [] e.op = "adjacent" -> InPlace(s, e, e.r, "joining adjacent marks", LAMBDA n : n = R(x.by, Adjacent(rows, e.m)) /\ AdjacentOk(n.rows, rows, e.m))
    [] e.op = "elim" -> InPlace(s, e, e.r, "removing overlaps", LAMBDA n : n.by = x.by /\ NoOverlapOk(n.rows, rows))
    [] e.op = "prepend" -> InPlace(s, e, e.r, "the file before the name",
           LAMBDA n : n = R(x.by, [i \in 1..Len(rows) |-> IF rows[i].ty = e.ty THEN [rows[i] EXCEPT !.n = <<rows[i].f>> \o @] ELSE rows[i]]))
    [] e.op = "len" -> NoChange(s, e, e.res = <<Len(rows), Cardinality(Files(rows))>>, "length and number of files")
    [] e.op = "counts" ->
         NoChange(s, e, /\ e.res[1] = Cardinality(AllSpk(rows))
                        /\ SameBag(e.res[2], [i \in 1..Len(FilesSeq(rows)) |-> <<FilesSeq(rows)[i], Cardinality(Spk(rows, FilesSeq(rows)[i]))>>])
                        /\ e.res[3] = SumSeq([i \in 1..Len(FilesSeq(rows)) |-> Cardinality(Spk(rows, FilesSeq(rows)[i]))]), "number of speakers")
    [] e.op = "stats" -> NoChange(s, e, e.res = <<MinS({rows[i].td : i \in DOMAIN rows}), MaxS({rows[i].td : i \in DOMAIN rows}),
                                                  SumSeq([i \in 1..Len(rows) |-> rows[i].td]), Len(rows), Cardinality({rows[i].n : i \in DOMAIN rows})>>, "statistics")
    [] e.op = "names" ->
         NoChange(s, e, /\ Len(e.res) = Len(e.spans)
                        /\ \A i \in DOMAIN e.res : /\ IsInj(e.res[i][1]) /\ e.res[i][2] = Len(e.res[i][1])
                                                   /\ NamesMust(rows, e.ty, e.spans[i]) \subseteq Rng(e.res[i][1])
                                                   /\ Rng(e.res[i][1]) \subseteq NamesMay(rows, e.ty, e.spans[i]), "names of time spans")
    [] e.op = "diff" ->
         LET own == {rows[i].n : i \in {i \in DOMAIN rows : rows[i].ty = e.ty /\ rows[i].f = e.key}} IN
         NoChange(s, e, IsInj(e.res) /\ Rng(e.res) = {rows[i].f : i \in {i \in DOMAIN rows : rows[i].ty = e.ty /\ rows[i].n \notin own}}, "files with other names")
    [] e.op = "matrix" -> NoChange(s, e, MatrixOk(rows, e.key, e), "matrix of speakers and frames")
    [] e.op = "tosegs" ->
         NoChange(s, e, /\ Len(e.res) = Len(rows)
                        /\ \A i \in DOMAIN rows : SubSeq(e.res[i], 1, 3) = <<rows[i].f, rows[i].tb, End(rows[i])>>
                        /\ \A i, j \in DOMAIN rows : SubSeq(e.res[i], 1, 3) # SubSeq(e.res[j], 1, 3) => e.res[i][4] # e.res[j][4], "segments of the marks")
    [] e.op = "get" ->
         IF x.by = 2 THEN (IF e.key \notin Files(rows) THEN MustRaise(s, e, "marks of an absent file") ELSE Made(s, e, R(1, OfFile(rows, e.key)), "marks of a file"))
         ELSE IF e.key < Len(rows) THEN NoChange(s, e, e.res = <<rows[e.key + 1]>>, "mark by position") ELSE MustRaise(s, e, "mark outside the list")
    [] e.op = "in" -> NoChange(s, e, e.res = <<IF x.by = 2 THEN e.key \in Files(rows) ELSE e.key < Len(rows)>>, "membership")
    [] e.op = "iter" -> NoChange(s, e, e.res = (IF x.by = 2 THEN [i \in 1..Len(FilesSeq(rows)) |-> OfFile(rows, FilesSeq(rows)[i])]
                                                ELSE [i \in 1..Len(rows) |-> <<rows[i]>>]), "iteration")
    [] e.op = "eq" -> NoChange(s, e, e.res = <<x = s.pool[e.r2], x # s.pool[e.r2]>>, "equality")
    [] OTHER -> Bad(s, "unknown event " \o e.op)
=============================================================================
