-------------------------------- MODULE Trials --------------------------------
(* hyperion/utils/trial_ndx.py, trial_key.py, trial_scores.py.               *)
(* State: a pool of objects                                                 *)
(*   k   "ndx", "key" or "scr"                                              *)
(*   m   sequence of model names, s  sequence of segment names (distinct)   *)
(*   lab matrix: ndx 0/1; key 0 no trial, 1 target, 2 non-target, 3 both;   *)
(*       scr a value or NA                                                  *)
(*   mc, sc, tc  conditions of models, segments, trials as bit sets         *)
(*       (<<>> if there are none), nm their names                           *)
EXTENDS Util

NA == -999999
Pos(q, x) == CHOOSE i \in DOMAIN q : q[i] = x
Idx(q, xs) == [i \in 1..Len(xs) |-> Pos(q, xs[i])]
Sub1(v, ix) == IF v = <<>> THEN <<>> ELSE [i \in 1..Len(ix) |-> v[ix[i]]]
Sub2(w, ix, jx) == IF w = <<>> THEN <<>> ELSE [i \in 1..Len(ix) |-> [j \in 1..Len(jx) |-> w[ix[i]][jx[j]]]]
SelI(o, ix, jx) == [o EXCEPT !.m = Sub1(o.m, ix), !.s = Sub1(o.s, jx), !.lab = Sub2(o.lab, ix, jx),
                             !.mc = Sub1(o.mc, ix), !.sc = Sub1(o.sc, jx), !.tc = Sub2(o.tc, ix, jx)]
Sel(o, ms, ss) == SelI(o, Idx(o.m, ms), Idx(o.s, ss))
None(k) == IF k = "scr" THEN NA ELSE 0
At(o, x, y) == IF x \in Rng(o.m) /\ y \in Rng(o.s) THEN o.lab[Pos(o.m, x)][Pos(o.s, y)] ELSE None(o.k)
Trials(o) == {p \in Rng(o.m) \X Rng(o.s) : At(o, p[1], p[2]) # None(o.k)}

RECURSIVE Or(_, _)
Or(a, c) == IF a <= 0 THEN c ELSE IF c <= 0 THEN a
            ELSE (IF a % 2 = 1 \/ c % 2 = 1 THEN 1 ELSE 0) + 2 * Or(a \div 2, c \div 2)
Comb(k, a, c) == IF k = "scr" THEN (IF a = NA THEN c ELSE a) ELSE Or(a, c)

Sorted(S) == SetToSortSeq2(S)
SortObj(o) == Sel(o, Sorted(Rng(o.m)), Sorted(Rng(o.s)))

\* the same mapping, whatever the order of models and segments
SameMap(a, c) == /\ a.k = c.k /\ Len(a.m) = Len(c.m) /\ Len(a.s) = Len(c.s)
                 /\ Rng(a.m) = Rng(c.m) /\ Rng(a.s) = Rng(c.s)
                 /\ a.nm = c.nm
                 /\ Sel(c, a.m, a.s) = a
Same(a, c) == a = c
SamePool(p, q) == Len(p) = Len(q) /\ \A i \in DOMAIN p : Same(p[i], q[i])

FilterKeep(o, ms, ss) == Sel(o, ms, ss)
FilterDrop(o, ms, ss) == Sel(o, SelectSeq(o.m, LAMBDA x : x \notin Rng(ms)), SelectSeq(o.s, LAMBDA x : x \notin Rng(ss)))
\* scores with absent models or segments allowed
FilterFill(o, ms, ss) == [o EXCEPT !.m = ms, !.s = ss,
                            !.lab = [i \in 1..Len(ms) |-> [j \in 1..Len(ss) |-> At(o, ms[i], ss[j])]]]

Bound(i, N, n) == (i * N) \div n
Range(i, N, n) == [j \in 1..(Bound(i, N, n) - Bound(i - 1, N, n)) |-> Bound(i - 1, N, n) + j]
Parts(o, nm, ns) == [q \in 1..(nm * ns) |-> SelI(o, Range(((q - 1) \div ns) + 1, Len(o.m), nm), Range(((q - 1) % ns) + 1, Len(o.s), ns))]
Cover(o, parts) ==
  /\ \A p \in Rng(o.m) \X Rng(o.s) :
       Cardinality({i \in DOMAIN parts : p[1] \in Rng(parts[i].m) /\ p[2] \in Rng(parts[i].s)}) = 1
  /\ \A i \in DOMAIN parts : /\ Rng(parts[i].m) \subseteq Rng(o.m) /\ Rng(parts[i].s) \subseteq Rng(o.s)
                             /\ SameMap(parts[i], Sel(o, parts[i].m, parts[i].s))

Merge2(a, c) ==
  LET ms == Sorted(Rng(a.m) \cup Rng(c.m))   ss == Sorted(Rng(a.s) \cup Rng(c.s))
      M(o, x) == IF x \in Rng(o.m) /\ o.mc # <<>> THEN o.mc[Pos(o.m, x)] ELSE 0
      S(o, x) == IF x \in Rng(o.s) /\ o.sc # <<>> THEN o.sc[Pos(o.s, x)] ELSE 0
      T(o, x, y) == IF x \in Rng(o.m) /\ y \in Rng(o.s) /\ o.tc # <<>> THEN o.tc[Pos(o.m, x)][Pos(o.s, y)] ELSE 0
      h == a.nm
  IN [k |-> a.k, m |-> ms, s |-> ss, nm |-> a.nm,
      lab |-> [i \in 1..Len(ms) |-> [j \in 1..Len(ss) |-> Comb(a.k, At(a, ms[i], ss[j]), At(c, ms[i], ss[j]))]],
      mc |-> IF h[1] = 0 THEN <<>> ELSE [i \in 1..Len(ms) |-> Or(M(a, ms[i]), M(c, ms[i]))],
      sc |-> IF h[2] = 0 THEN <<>> ELSE [j \in 1..Len(ss) |-> Or(S(a, ss[j]), S(c, ss[j]))],
      tc |-> IF h[3] = 0 THEN <<>> ELSE [i \in 1..Len(ms) |-> [j \in 1..Len(ss) |-> Or(T(a, ms[i], ss[j]), T(c, ms[i], ss[j]))]]]
RECURSIVE MergeAll(_)
MergeAll(os) == IF Len(os) = 1 THEN os[1] ELSE MergeAll(<<Merge2(os[1], os[2])>> \o SubSeq(os, 3, Len(os)))
\* scores may be merged only if no pair has a score in two of them
Disjoint(os) == \A i, j \in DOMAIN os : i < j => Trials(os[i]) \cap Trials(os[j]) = {}

\* a text file lists trials only: models and segments without any are gone
Restrict(o) == Sel(o, SelectSeq(o.m, LAMBDA x : \E y \in Rng(o.s) : At(o, x, y) # None(o.k)),
                      SelectSeq(o.s, LAMBDA y : \E x \in Rng(o.m) : At(o, x, y) # None(o.k)))
NoCond(o) == [o EXCEPT !.mc = <<>>, !.sc = <<>>, !.tc = <<>>, !.nm = <<0, 0, 0>>]
ToNdx(o) == [NoCond(o) EXCEPT !.k = "ndx", !.lab = [i \in DOMAIN o.m |-> [j \in DOMAIN o.s |-> IF o.lab[i][j] = 0 THEN 0 ELSE 1]]]
AllTrials(ms, ss) == [k |-> "ndx", m |-> ms, s |-> ss, lab |-> [i \in DOMAIN ms |-> [j \in DOMAIN ss |-> 1]],
                      mc |-> <<>>, sc |-> <<>>, tc |-> <<>>, nm |-> <<0, 0, 0>>]

\* alignment of scores with a list of trials
Wanted(n) == Trials(n)
AlignFill(o, n, val) == [k |-> "scr", m |-> n.m, s |-> n.s, mc |-> <<>>, sc |-> <<>>, tc |-> <<>>, nm |-> <<0, 0, 0>>,
   lab |-> [i \in DOMAIN n.m |-> [j \in DOMAIN n.s |->
             IF n.lab[i][j] = 0 THEN NA
             ELSE LET v == At(o, n.m[i], n.s[j]) IN IF v = NA THEN val ELSE v]]]
Align(o, n) == AlignFill(o, n, NA)
Complete(o, n) == /\ Rng(n.m) \subseteq Rng(o.m) /\ Rng(n.s) \subseteq Rng(o.s)
                  /\ \A p \in Wanted(n) : At(o, p[1], p[2]) # NA
ScoresOf(o, n, bit) == LET F(i) == [j \in DOMAIN n.s |-> IF (n.lab[i][j] \div bit) % 2 = 1 THEN <<At(o, n.m[i], n.s[j])>> ELSE <<>>]
                       IN FlatSeq([i \in 1..Len(n.m) |-> FlatSeq(F(i))])
Fn(f, v) == IF v = NA THEN NA ELSE IF f = "neg" THEN -v ELSE v + 100
Transform(o, f) == [o EXCEPT !.lab = [i \in DOMAIN o.m |-> [j \in DOMAIN o.s |-> Fn(f, o.lab[i][j])]]]

\* segs[j]: the segments that replace test segment j
Segmented(o, segs) == [o EXCEPT !.s = FlatSeq(segs),
   !.lab = [i \in DOMAIN o.m |-> FlatSeq([j \in 1..Len(o.s) |-> [q \in 1..Len(segs[j]) |-> o.lab[i][j]]])]]

\* preparation of an evaluation: rows of the enrolment table are <<file, model>>
EvalNdx(o, enr, tst, set) ==
  LET e == [i \in 1..Len(enr) |-> enr[i][1]]  t == [i \in 1..Len(tst) |-> tst[i][1]]
  IN CASE set = "enroll-test" -> o
       [] set = "enroll-coh"  -> AllTrials(o.m, t)
       [] set = "coh-test"    -> AllTrials(e, o.s)
       [] OTHER               -> AllTrials(e, t)
EvalEnr(o, enr, set) == IF set \in {"enroll-test", "enroll-coh"} THEN SelectSeq(enr, LAMBDA r : r[2] \in Rng(o.m)) ELSE enr

(*------------------------------ judging events ------------------------------*)
InitSt(x) == <<>>
LastOf(q) == q[Len(q)]
NewIf(s, e, clause, Ok(_)) ==
  IF e.exc # "" THEN Bad(s, clause \o ": raised " \o e.exc)
  ELSE IF Len(e.pool) # Len(s) + 1 \/ ~SamePool(SubSeq(e.pool, 1, Len(s)), s) THEN Bad(s, clause \o ": another object changed")
  ELSE IF ~Ok(LastOf(e.pool)) THEN Bad(s, clause \o ": wrong result " \o ToString(LastOf(e.pool)))
  ELSE Good(e.pool)
NewIs(s, e, o, clause) == NewIf(s, e, clause, LAMBDA n : Same(n, o))
NewMap(s, e, o, clause) == NewIf(s, e, clause, LAMBDA n : SameMap(n, o))
NoChange(s, e, cond, clause) ==
  IF e.exc # "" THEN Bad(s, clause \o ": raised " \o e.exc)
  ELSE IF ~SamePool(e.pool, s) THEN Bad(s, clause \o ": an object changed")
  ELSE IF ~cond THEN Bad(s, clause \o ": wrong answer " \o ToString(e.res))
  ELSE Good(s)
MustRaise(s, e, clause) ==
  IF e.exc = "" THEN Bad(s, clause \o ": an error was expected")
  ELSE IF ~SamePool(e.pool, s) THEN Bad(s, clause \o ": an object changed")
  ELSE Good(s)
InPlace(s, e, o, clause) ==
  IF e.exc # "" THEN Bad(s, clause \o ": raised " \o e.exc)
  ELSE IF Len(e.pool) # Len(s) \/ \E i \in DOMAIN s : i # e.r /\ ~Same(e.pool[i], s[i]) THEN Bad(s, clause \o ": another object changed")
  ELSE IF ~Same(e.pool[e.r], o) THEN Bad(s, clause \o ": wrong result " \o ToString(e.pool[e.r]))
  ELSE Good(e.pool)

Judge(s, e) ==
  LET o == s[e.r]
  IN CASE e.op = "new"   -> NewIs(s, e, e.obj, "a new object holds what it was given")
       [] e.op = "copy"  -> NewIs(s, e, o, "a copy equals its original")
       [] e.op = "sort"  -> InPlace(s, e, SortObj(o), "sorting moves rows and columns with their names")
       [] e.op = "poke"  -> InPlace(s, e, [o EXCEPT !.lab[e.i][e.j] = e.v], "changing one object")
       [] e.op = "filter" ->
            IF ~e.keep THEN NewMap(s, e, FilterDrop(o, e.ms, e.ss), "filtering names out")
            ELSE IF Rng(e.ms) \subseteq Rng(o.m) /\ Rng(e.ss) \subseteq Rng(o.s) THEN NewIs(s, e, FilterKeep(o, e.ms, e.ss), "filtering by name")
            ELSE IF o.k = "scr" /\ ~e.rm THEN NewIs(s, e, FilterFill(o, e.ms, e.ss), "filtering by name with some absent")
            ELSE MustRaise(s, e, "filtering by an absent name")
       [] e.op = "split" ->
            IF e.exc # "" THEN Bad(s, "split raised " \o e.exc)
            ELSE IF ~SamePool(SubSeq(e.pool, 1, Len(s)), s) THEN Bad(s, "split: another object changed")
            ELSE IF Len(e.pool) # Len(s) + e.nm * e.ns THEN Bad(s, "split: number of parts")
            ELSE LET parts == SubSeq(e.pool, Len(s) + 1, Len(e.pool))
                 IN IF ~Cover(o, parts) THEN Bad(s, "split: parts do not make up the whole " \o ToString(parts)) ELSE Good(e.pool)
       [] e.op = "merge" ->
            LET os == [i \in 1..Len(e.regs) |-> s[e.regs[i]]]
            IN IF o.k = "scr" /\ ~Disjoint(os) THEN MustRaise(s, e, "merging two scores of one trial")
               ELSE NewMap(s, e, MergeAll(os), "merging unites the labels")
       [] e.op = "saveload" ->
            IF e.fmt = "txt" THEN NewMap(s, e, Restrict(NoCond(o)), "an object saved as text loads back")
            ELSE NewIs(s, e, o, "an object saved as hdf5 loads back")
       [] e.op = "to_ndx" -> NewIs(s, e, ToNdx(o), "index of a key")
       [] e.op = "eq" ->
            LET q == s[e.r2]
            IN IF o.k # "scr" THEN NoChange(s, e, e.res = <<Same(o, q), ~Same(o, q)>>, "equality")
               ELSE NoChange(s, e, e.res[1] # e.res[2] /\ (~Same(o, q) => ~e.res[1]), "equality")
       [] e.op = "align" ->
            LET n == s[e.r2]
            IN IF e.rm /\ ~Complete(o, n) THEN MustRaise(s, e, "aligning with a trial that has no score")
               ELSE NewIs(s, e, Align(o, n), "aligning scores with trials")
       [] e.op = "setmiss" -> NewIs(s, e, AlignFill(o, s[e.r2], e.val), "filling missing scores")
       [] e.op = "tarnon" ->
            LET n == s[e.r2]
            IN IF ~Complete(o, n) THEN MustRaise(s, e, "target scores of trials without score")
               ELSE NoChange(s, e, SameBag(e.res[1], ScoresOf(o, n, 1)) /\ SameBag(e.res[2], ScoresOf(o, n, 2)), "target and non-target scores")
       [] e.op = "transform" -> InPlace(s, e, Transform(o, e.f), "transforming scores")
       [] e.op = "segment" -> NewIs(s, e, Segmented(o, e.segs), "trials of the segments of a test file")
       [] e.op = "eval" ->
            IF e.set \in {"enroll-test", "enroll-coh"} /\ ~(Rng(o.m) \subseteq {e.enr[i][2] : i \in DOMAIN e.enr})
            THEN MustRaise(s, e, "enrolment of a model without files")
            ELSE IF e.exc = "" /\ ~SameBag(e.res, EvalEnr(o, e.enr, e.set)) THEN Bad(s, "enrolment files of the evaluation " \o ToString(e.res))
            ELSE NewIs(s, e, EvalNdx(o, e.enr, e.tst, e.set), "trials of the evaluation")
       [] OTHER -> Bad(s, "unknown event " \o e.op)
=============================================================================
