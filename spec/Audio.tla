-------------------------------- MODULE Audio --------------------------------
(* hyperion/io/audio_reader.py, audio_writer.py.  A recording is a sequence    *)
(* of integer samples with a rate; a segment is a recording with begin and     *)
(* end times in 64ths of a second.  State: recordings in list order, segments  *)
(* in list order, and the sequential readers with their position.              *)
EXTENDS Util

NoSeg == <<>>
\* samples of a segment of recording r; the end is cut at the end of the recording
Beg(r, g) == (g.tb * r.fs) \div 64
End(r, g) == Min2(Len(r.x), (g.te * r.fs) \div 64)
Outside(r, g) == Beg(r, g) >= Len(r.x)
Cut(r, g) == SubSeq(r.x, Beg(r, g) + 1, End(r, g))
RecOf(s, k) == s.recs[CHOOSE i \in DOMAIN s.recs : s.recs[i].key = k]
HasRec(s, k) == \E i \in DOMAIN s.recs : s.recs[i].key = k
\* items of a reader: [key, x, fs, ok]
Whole(s, i) == [key |-> s.recs[i].key, x |-> s.recs[i].x, fs |-> s.recs[i].fs, ok |-> TRUE]
Piece(s, g) == IF ~HasRec(s, g.file) THEN [key |-> g.key, x |-> <<>>, fs |-> 0, ok |-> FALSE]
               ELSE LET r == RecOf(s, g.file) IN [key |-> g.key, x |-> IF Outside(r, g) THEN <<>> ELSE Cut(r, g), fs |-> r.fs, ok |-> ~Outside(r, g)]
Items(s, seg) == IF seg THEN [i \in DOMAIN s.segs |-> Piece(s, s.segs[i])] ELSE [i \in DOMAIN s.recs |-> Whole(s, i)]
\* samples times the scale
Scaled(x, c) == [i \in DOMAIN x |-> x[i] * c]
Agree(item, key, x, fs, c) == item.key = key /\ item.fs = fs /\ Scaled(item.x, c) = x

At(items, k) == CHOOSE a \in DOMAIN items : items[a].key = k
\* the items in the order of the keys
ByKeys(items, q) == [i \in DOMAIN q |-> items[At(items, q[i])]]
(*------------------------------- judging events -----------------------------*)
\* reader: items still to deliver are those after pos; lost once a read failed
InitSt(x) == [recs |-> x.recs, segs |-> x.segs, rd |-> <<>>, parts |-> <<>>]
R(s, e) == s.rd[e.r]
\* parts 1..n of a division: sizes differ by one at most, segments stay in order (recordings are divided by key)
PartOk(items, q, n, seg) == /\ seg => \A i, j \in DOMAIN q : i < j => At(items, q[i]) < At(items, q[j])
                            /\ Len(q) \in {Len(items) \div n, (Len(items) \div n) + 1}
Judge(s, e) ==
  CASE e.op = "write" ->
         IF e.exc # "" THEN (IF e.maybe THEN Good(s) ELSE Bad(s, "writing raised " \o e.exc))
         ELSE IF e.scp # [i \in DOMAIN e.keys |-> e.keys[i]] THEN Bad(s, "the script does not list the recordings in the order written")
         ELSE Good(s)
    [] e.op = "open" -> IF e.exc # "" THEN Bad(s, "opening raised " \o e.exc)
                        ELSE IF ~IsInj(e.keys) \/ \E i \in DOMAIN e.keys : ~\E j \in DOMAIN Items(s, e.seg) : Items(s, e.seg)[j].key = e.keys[i] THEN Bad(s, "the part has other items")
                        ELSE Good([s EXCEPT !.rd = Append(@, [items |-> ByKeys(Items(s, e.seg), e.keys), pos |-> 0, lost |-> FALSE, c |-> e.c])])
    [] e.op = "parts" -> \* the keys of all parts of a division
         IF e.exc # "" THEN Bad(s, "reading the parts raised " \o e.exc)
         ELSE LET it == Items(s, e.seg)
                  all == FlatSeq(e.keys)
              IN IF ~SameBag(all, [i \in DOMAIN it |-> it[i].key]) THEN Bad(s, "the parts do not deliver every item exactly once")
                 ELSE IF \E p \in DOMAIN e.keys : ~PartOk(it, e.keys[p], Len(e.keys), e.seg) THEN Bad(s, "the parts are not in order or not of equal size")
                 ELSE Good(s)
    [] e.op = "reset" -> IF e.exc # "" THEN Bad(s, "reset raised " \o e.exc) ELSE Good([s EXCEPT !.rd[e.r].pos = 0, !.rd[e.r].lost = FALSE])
    [] e.op = "eof" -> IF R(s, e).lost THEN Good(s)
                       ELSE IF e.exc # "" \/ e.eof # (R(s, e).pos = Len(R(s, e).items)) THEN Bad(s, "end of file is reported wrongly") ELSE Good(s)
    [] e.op = "read" -> LET r == R(s, e)
                            left == Len(r.items) - r.pos
                            k == IF e.n = 0 THEN left ELSE Min2(e.n, left)
                            want == SubSeq(r.items, r.pos + 1, r.pos + k)
                        IN IF r.lost THEN Good(s)
                           ELSE IF \E i \in DOMAIN want : ~want[i].ok THEN
                             (IF e.exc = "" THEN Bad(s, "a segment outside of its recording was delivered") ELSE Good([s EXCEPT !.rd[e.r].lost = TRUE]))
                           ELSE IF e.exc # "" THEN Bad(s, "reading raised " \o e.exc)
                           ELSE IF Len(e.keys) # k THEN Bad(s, ToString(k) \o " items are due")
                           ELSE IF \E i \in 1..k : ~Agree(want[i], e.keys[i], e.x[i], e.fs[i], r.c) THEN Bad(s, "the items are not the next ones of the list: " \o ToString([i \in 1..k |-> want[i].key]))
                           ELSE Good([s EXCEPT !.rd[e.r].pos = @ + k])
    [] e.op = "random" -> LET it == Items(s, e.seg)
                              miss == \E i \in DOMAIN e.ask : ~\E j \in DOMAIN it : it[j].key = e.ask[i] /\ it[j].ok
                          IN IF miss THEN (IF e.exc = "" THEN Bad(s, "an item that does not exist was delivered") ELSE Good(s))
                             ELSE IF e.exc # "" THEN Bad(s, "reading by key raised " \o e.exc)
                             ELSE IF Len(e.x) # Len(e.ask) \/ \E i \in DOMAIN e.ask : ~Agree(it[CHOOSE j \in DOMAIN it : it[j].key = e.ask[i]], e.ask[i], e.x[i], e.fs[i], e.c) THEN Bad(s, "reading by key delivered other samples")
                             ELSE Good(s)
    [] OTHER -> Bad(s, "unknown event " \o e.op)
=============================================================================
