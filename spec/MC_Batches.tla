----------------------------- MODULE MC_Batches -----------------------------
(* Bounded model of a pass over a list: all lists of up to N utterances of up *)
(* to MAXLEN frames, all ways of cutting, every order and length the          *)
(* generator may choose, up to DEPTH examples.                                *)
EXTENDS Batches, Json
CONSTANTS N, MAXLEN, DEPTH, MODE, EVERY, CFGONLY
VARIABLES c, g, out, fin
vars == <<c, g, out, fin>>
Cfg(lens, mode, mn, mx, ov, sb, sh) ==
  [kind |-> 1, mode |-> mode, lens |-> lens, min |-> mn, max |-> mx, overlap |-> ov, seqbal |-> sb, shuffle |-> sh,
   bal |-> FALSE, imb |-> 2, prune |-> 0, iters |-> 1, cls |-> [i \in 1..Len(lens) |-> 1], list |-> [i \in 1..Len(lens) |-> i]]
Rows(x) == x.list
Init == /\ \E k \in 1..N : \E lens \in [1..k -> 1..MAXLEN], mn, mx \in 1..MAXLEN, ov \in 0..(MAXLEN - 1), sb, sh \in BOOLEAN :
             /\ mn <= mx
             /\ MODE # 3 => (ov = 0 /\ ~sb)
             /\ MODE = 1 => (mn = 1 /\ mx = MAXLEN)
             /\ MODE = 3 => ov < (mn + mx) \div 2 /\ ov < mn
             /\ c = Cfg(lens, MODE, mn, mx, ov, sb, sh)
             /\ g = Fresh(Cfg(lens, MODE, mn, mx, ov, sb, sh), k, 0, lens)
        /\ out = <<>> /\ fin = 0
Ex(u, f, n) == [k |-> u, u |-> u, first |-> f, n |-> n, ok |-> TRUE, y |-> 0, z |-> -1]
Full(q) == Len(q.order) = q.nrows /\ \A i \in DOMAIN q.cnt : q.cnt[i] = q.chunks[i]
Next == /\ Len(out) < DEPTH /\ ~CFGONLY
        /\ \E u \in DOMAIN c.lens : \E f \in 0..(c.lens[u] - 1) : \E n \in 1..(c.lens[u] - f) :
             LET v == Visit(c, Rows(c), g, Ex(u, f, n)) IN
             /\ v.ok
             /\ g' = v.g /\ out' = Append(out, <<u, f, n>>)
             /\ fin' = fin + (IF c.mode = 3 /\ ~c.seqbal /\ Full(v.g) THEN 1 ELSE 0)
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
\* there is always an example to give
NeverStuck == (Len(out) < DEPTH /\ ~CFGONLY) => ENABLED Next
CntU(u) == Cardinality({i \in DOMAIN out : out[i][1] = u})
InBounds == \A i \in DOMAIN out : out[i][2] + out[i][3] <= c.lens[out[i][1]]
\* passes complete one after the other: no utterance is more than a pass ahead
Even == c.mode # 3 => \A u, w \in DOMAIN c.lens : CntU(u) - CntU(w) \in -1..1
EvenSeq == (c.mode = 3 /\ c.seqbal) => \A u, w \in DOMAIN c.lens : CntU(u) - CntU(w) \in -1..1
Share == (c.mode = 3 /\ ~c.seqbal) => \A u \in DOMAIN c.lens : CntU(u) >= fin * Chunks(c, Rows(c), u) /\ CntU(u) <= (fin + 1) * Chunks(c, Rows(c), u)
\* chunks of an utterance leave no gap: each begins inside or right after the one before, or at 0
NoGap == c.mode = 3 => \A i, j \in DOMAIN out : (i < j /\ out[i][1] = out[j][1] /\ \A m \in (i + 1)..(j - 1) : out[m][1] # out[i][1])
                         => out[j][2] <= out[i][2] + out[i][3]
ShortFirst == c.mode = 3 => \A i \in DOMAIN out : (\A m \in 1..(i - 1) : out[m][1] # out[i][1]) => out[i][2] = 0
Emit == (EVERY > 0 /\ Len(out) = (IF CFGONLY THEN 0 ELSE DEPTH) /\ Len(ToJson(<<c, out>>)) % EVERY = 0)
        => PrintT("@@BEH " \o ToJson([lens |-> c.lens, mode |-> c.mode, min |-> c.min, max |-> c.max, overlap |-> c.overlap, seqbal |-> c.seqbal, shuffle |-> c.shuffle]))
=============================================================================
