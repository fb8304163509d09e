------------------------------ MODULE MC_Trials ------------------------------
(* Bounded model of the trial algebra: every history of DEPTH operations on   *)
(* a pair of small objects of every kind, emitted as scripts.                *)
EXTENDS Trials, Json
CONSTANTS DEPTH, KINDS, PATTERNS, EVERY
VARIABLES pool, hist, base
vars == <<pool, hist, base>>

\* labels by pattern number, so that the pair <<x, y>> has a label of its own
Lab(k, p, x, y) ==
  LET h == (7 * x + 3 * y + 5 * p + x * y * p) % 11
  IN CASE k = "ndx" -> IF h % 3 = 0 THEN 0 ELSE 1
       [] k = "key" -> h % 3
       [] OTHER     -> IF p % 2 = 0 /\ h % 4 = 0 THEN NA ELSE 10 * x + y + 1000 * (p % 2)
Obj(k, p, ms, ss, c) ==
  [k |-> k, m |-> ms, s |-> ss,
   lab |-> [i \in 1..Len(ms) |-> [j \in 1..Len(ss) |-> Lab(k, p, ms[i], ss[j])]],
   nm |-> IF c THEN <<2, 1, 2>> ELSE <<0, 0, 0>>,
   mc |-> IF c THEN [i \in 1..Len(ms) |-> ms[i] % 4] ELSE <<>>,
   sc |-> IF c THEN [j \in 1..Len(ss) |-> ss[j] % 2] ELSE <<>>,
   tc |-> IF c THEN [i \in 1..Len(ms) |-> [j \in 1..Len(ss) |-> (ms[i] + 2 * ss[j]) % 4]] ELSE <<>>]
MSETS == {<<1>>, <<2, 1>>, <<3, 1, 2>>}
SSETS == {<<2>>, <<1, 2>>, <<3, 2, 1>>}

New(o) == [op |-> "new", r |-> 1, obj |-> o]
Init == \E k \in KINDS, k2 \in {"ndx", "key", "scr"}, p \in PATTERNS, ms \in MSETS, ss \in SSETS, c \in BOOLEAN, ms2 \in {<<1, 2>>, <<3, 1, 2>>}, ss2 \in {<<1, 2>>, <<3, 2, 1>>} :
          /\ c => k = "key"
          /\ k # "scr" => k2 = k
          /\ LET a == Obj(k, p, ms, ss, c)   d == Obj(k2, p + 1, ms2, ss2, c /\ k2 = "key")
             IN pool = <<a, d>> /\ base = <<a, d>> /\ hist = <<New(a), New(d)>>
Add(o, ev) == pool' = Append(pool, o) /\ hist' = Append(hist, ev) /\ UNCHANGED base
Keep(ev) == pool' = pool /\ hist' = Append(hist, ev) /\ UNCHANGED base
Set(r, o, ev) == pool' = [pool EXCEPT ![r] = o] /\ hist' = Append(hist, ev) /\ UNCHANGED base

Small == Len(pool) <= 4
Sort(r) == Set(r, SortObj(pool[r]), [op |-> "sort", r |-> r])
Copy(r) == Add(pool[r], [op |-> "copy", r |-> r])
Filter(r, ms, ss) == /\ Rng(ms) \subseteq Rng(pool[r].m) /\ Rng(ss) \subseteq Rng(pool[r].s)
                     /\ Add(FilterKeep(pool[r], ms, ss), [op |-> "filter", r |-> r, ms |-> ms, ss |-> ss, keep |-> TRUE, rm |-> TRUE])
Fill(r, ms, ss) == /\ pool[r].k = "scr"
                   /\ Add(FilterFill(pool[r], ms, ss), [op |-> "filter", r |-> r, ms |-> ms, ss |-> ss, keep |-> TRUE, rm |-> FALSE])
Drop(r, ms, ss) == Add(FilterDrop(pool[r], ms, ss), [op |-> "filter", r |-> r, ms |-> ms, ss |-> ss, keep |-> FALSE, rm |-> TRUE])
Split(r, nm, ns) == /\ pool' = pool \o Parts(pool[r], nm, ns)
                    /\ hist' = Append(hist, [op |-> "split", r |-> r, nm |-> nm, ns |-> ns]) /\ UNCHANGED base
Merge(rs) == LET os == [i \in 1..Len(rs) |-> pool[rs[i]]]
             IN /\ \A i \in DOMAIN os : os[i].k = os[1].k /\ os[i].nm = os[1].nm
                /\ IF os[1].k = "scr" /\ ~Disjoint(os) THEN Keep([op |-> "merge", r |-> rs[1], regs |-> rs])
                   ELSE Add(MergeAll(os), [op |-> "merge", r |-> rs[1], regs |-> rs])
SaveLoad(r, f) == Add(IF f = "txt" THEN SortObj(Restrict(NoCond(pool[r]))) ELSE pool[r], [op |-> "saveload", r |-> r, fmt |-> f])
Conv(r) == pool[r].k = "key" /\ Add(ToNdx(pool[r]), [op |-> "to_ndx", r |-> r])
Eq(r, q) == pool[r].k = pool[q].k /\ Keep([op |-> "eq", r |-> r, r2 |-> q])
AlignA(r, q, rm) == /\ pool[r].k = "scr" /\ pool[q].k # "scr"
                    /\ IF rm /\ ~Complete(pool[r], pool[q]) THEN Keep([op |-> "align", r |-> r, r2 |-> q, rm |-> rm])
                       ELSE Add(Align(pool[r], pool[q]), [op |-> "align", r |-> r, r2 |-> q, rm |-> rm])
SetMiss(r, q) == /\ pool[r].k = "scr" /\ pool[q].k # "scr"
                 /\ Add(AlignFill(pool[r], pool[q], -7), [op |-> "setmiss", r |-> r, r2 |-> q, val |-> -7])
TarNon(r, q) == pool[r].k = "scr" /\ pool[q].k = "key" /\ Keep([op |-> "tarnon", r |-> r, r2 |-> q])
Trans(r, f) == pool[r].k = "scr" /\ Set(r, Transform(pool[r], f), [op |-> "transform", r |-> r, f |-> f])
SegMap(o) == [j \in 1..Len(o.s) |-> [q \in 1..(o.s[j] % 3) |-> 100 * o.s[j] + q]]
Seg(r) == pool[r].k = "ndx" /\ Add(Segmented(pool[r], SegMap(pool[r])), [op |-> "segment", r |-> r, segs |-> SegMap(pool[r])])
ENR == <<<<50, 1>>, <<51, 2>>, <<52, 3>>, <<53, 1>>, <<54, 9>>>>
TST == <<<<60, 7>>, <<61, 8>>>>
Eval(r, set) == pool[r].k = "ndx" /\ (set \in {"enroll-test", "enroll-coh"} => Rng(pool[r].m) \subseteq {1, 2, 3, 9})
                /\ Add(EvalNdx(pool[r], ENR, TST, set), [op |-> "eval", r |-> r, enr |-> ENR, tst |-> TST, set |-> set])
Poke(r) == /\ pool[r].m # <<>> /\ pool[r].s # <<>> /\ Len(hist) >= 3 /\ hist[Len(hist)].op = "copy" /\ r \in {hist[Len(hist)].r, Len(pool)}
           /\ Set(r, [pool[r] EXCEPT !.lab[1][1] = 1], [op |-> "poke", r |-> r, i |-> 1, j |-> 1, v |-> 1])

Next == /\ Len(hist) < DEPTH + 2
        /\ \E r \in DOMAIN pool :
             \/ Sort(r)
             \/ Poke(r)
             \/ \E q \in DOMAIN pool : Eq(r, q) \/ TarNon(r, q)
             \/ \E f \in {"neg", "add"} : Trans(r, f)
             \/ Small /\ \/ Copy(r)
                         \/ \E ms \in {<<1>>, <<2, 1>>, <<>>, <<3, 1>>}, ss \in {<<2>>, <<1, 2>>, <<2, 3>>, <<>>} : Filter(r, ms, ss) \/ Drop(r, ms, ss)
                         \/ \E ms \in {<<4, 1>>, <<2>>}, ss \in {<<2, 5>>, <<1>>} : Fill(r, ms, ss)
                         \/ \E nm \in 1..2, ns \in {1, 3} : Split(r, nm, ns)
                         \/ \E q \in DOMAIN pool : Merge(<<r, q>>)
                         \/ \E f \in {"h5", "txt"} : SaveLoad(r, f)
                         \/ Conv(r) \/ Seg(r)
                         \/ \E q \in DOMAIN pool, rm \in BOOLEAN : AlignA(r, q, rm)
                         \/ \E q \in DOMAIN pool : SetMiss(r, q)
                         \/ \E set \in {"enroll-test", "enroll-coh", "coh-test", "coh-coh"} : Eval(r, set)
             \/ Len(pool) >= 4 /\ Len(hist) = DEPTH + 1 /\ hist[Len(hist)].op = "split" /\ r = 1 /\ Merge([i \in 1..(Len(pool) - 2) |-> i + 2])
Spec == Init /\ [][Next]_vars

\* splitting covers every pair once and merging the parts restores the object
Touched == {1, Len(pool)}
SplitMerge == \A i \in Touched : \A nm \in 1..2, ns \in {1, 3} :
   LET ps == Parts(pool[i], nm, ns) IN Cover(pool[i], ps) /\ SameMap(MergeAll(ps), pool[i])
\* keeping and removing are complementary
KeepDrop == \A i \in Touched : LET o == pool[i] IN \A ms \in {<<1>>, <<2, 1>>}, ss \in {<<2>>, <<1, 2>>} :
   LET d == FilterDrop(o, ms, ss) IN \A x \in Rng(d.m), y \in Rng(d.s) : x \notin Rng(ms) /\ y \notin Rng(ss) /\ At(d, x, y) = At(o, x, y)
\* an aligned table has only scores of the trials, and the right ones
AlignRight == \A i \in Touched, j \in DOMAIN pool : (pool[i].k = "scr" /\ pool[j].k # "scr") =>
   /\ Trials(Align(pool[i], pool[j])) = Trials(pool[i]) \cap Trials(pool[j])
   /\ Trials(AlignFill(pool[i], pool[j], -7)) = Trials(pool[j])
   /\ Complete(pool[i], pool[j]) => SameMap(Align(pool[i], pool[j]), AlignFill(pool[i], pool[j], -7))
\* labels never move to another pair (kinds without merging of conflicting labels)
LabelKept == \A i \in DOMAIN pool : \A p \in Trials(pool[i]) :
   (pool[i].k = "key") => At(pool[i], p[1], p[2]) \in {Or(At(base[a], p[1], p[2]), At(base[d], p[1], p[2])) : a, d \in {q \in DOMAIN base : base[q].k = "key"}} \cup {1}
Emit == (Len(hist) = DEPTH + 2) => LET j == ToJson(hist) IN IF EVERY > 1 /\ Len(j) % EVERY # 0 THEN TRUE ELSE PrintT("@@BEH " \o j)
=============================================================================
