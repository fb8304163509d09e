------------------------------- MODULE Archive -------------------------------
(* hyperion/io: archives of named matrices and vectors, their script files,   *)
(* sequential readers and random access readers.                              *)
(* State                                                                      *)
(*   ar    the records of the archive in the order written.  A record is      *)
(*         [k key, t "m"|"v", d rows (or the values of a vector), nc columns, *)
(*          how "exact" | compression method];  keys are integers ordered     *)
(*         like the strings they stand for.  Values are integers: data in     *)
(*         units of 1/8000.                                                   *)
(*   src   the lines of the source that is being read: <<record, first row,   *)
(*         number of rows>> (0 rows: up to the last)                          *)
(*   parts the lines of each part, when the source was divided                *)
(*   rd    the reader: lines it has to deliver, cursor, flags                 *)
EXTENDS Util

UNIT == 1000         \* D units per input unit (inputs are multiples of 1/8)

NRows(r) == IF r.t = "v" THEN Len(r.d) ELSE Len(r.d)
Shape(r) == IF r.t = "v" THEN <<Len(r.d)>> ELSE <<Len(r.d), r.nc>>

(*------------------------------ rows of a range -----------------------------*)
(* rows a, a+1, ... (n of them; n = 0: all that follow) that exist in x       *)
Cut(x, a, n) == LET last == IF n = 0 THEN Len(x) ELSE Min2(Len(x), a + n)
                IN IF a >= last THEN <<>> ELSE SubSeq(x, a + 1, last)
\* the range lies inside x
Inside(x, a, n) == IF n = 0 THEN a < Len(x) \/ a = 0 ELSE a + n <= Len(x)
Window(r, ln) == Cut(r.d, ln[2], ln[3])
Want(r, ln, o, m) == Cut(Window(r, ln), o, m)
NoRange(ln, o, m) == ln[2] = 0 /\ ln[3] = 0 /\ o = 0 /\ m = 0
\* the reader may refuse: outside, or a form for which ranges are not offered
MayRefuse(r, ln, o, m, text) ==
  \/ ~Inside(r.d, ln[2], ln[3])
  \/ ~Inside(Window(r, ln), o, m)
  \/ (text \/ r.t = "v") /\ ~NoRange(ln, o, m)

(*-------------------------------- the cursor --------------------------------*)
\* lines a sequential reader delivers when asked for n (0: all that remain)
Ahead(rd, n) == LET left == Len(rd.lines) - rd.cur
                IN IF n = 0 THEN left ELSE Min2(n, left)
Delivered(rd, n) == SubSeq(rd.lines, rd.cur + 1, rd.cur + Ahead(rd, n))

(*------------------------------ quantisation steps --------------------------*)
\* rows > 8 are compressed column by column around the quartiles of the column
Method(r) == IF r.how = "auto" THEN (IF Len(r.d) > 8 THEN "speech-feat" ELSE "2byte-auto") ELSE r.how
RECURSIVE FlatRows(_)
FlatRows(d) == IF d = <<>> THEN <<>> ELSE d[1] \o FlatRows(Tail(d))
Lo(d) == MinS(Rng(FlatRows(d)))
Hi(d) == MaxS(Rng(FlatRows(d)))
\* width of the interval the codes are spread over, in input units
Spread(d) == IF Lo(d) = Hi(d) THEN 8 + (IF Lo(d) < 0 THEN -Lo(d) ELSE Lo(d)) ELSE Hi(d) - Lo(d)
Column(d, c) == [i \in 1..Len(d) |-> d[i][c]]
Sorted(s) == SortSeq(s, LAMBDA x, y : x < y)
\* 0, 25, 75 and 100 percentile of a column
Perc(s) == LET z == Sorted(s) n == Len(s) q == n \div 4
           IN IF n >= 5 THEN <<z[1], z[q + 1], z[3 * q + 1], z[n]>>
              ELSE <<z[1], z[Min2(2, n)], z[Min2(3, n)], z[Min2(4, n)]>>
\* largest step among the segments of the column that hold v; g: step of the 16 bit header
FeatStep(p, v, g) ==
  LET in(lo, hi) == UNIT * v >= UNIT * lo - 5 * g /\ UNIT * v <= UNIT * hi + 5 * g
      w(lo, hi, k) == IF in(lo, hi) THEN (UNIT * (hi - lo) + 5 * g) \div k ELSE 0
  IN MaxS({w(p[1], p[2], 64), w(p[2], p[3], 128), w(p[3], p[4], 63)}) + 5 * g
Step(r, i, c) ==
  LET m == Method(r) g == (UNIT * Spread(r.d)) \div 65535 + 1
  IN CASE m = "2byte-auto" -> g
     [] m = "1byte-auto" -> (UNIT * Spread(r.d)) \div 255 + 1
     [] m = "2byte-signed-integer" -> 8 * UNIT
     [] m = "1byte-unsigned-integer" -> 8 * UNIT
     [] m = "1byte-0-1" -> (8 * UNIT) \div 255 + 1
     [] m = "speech-feat" -> FeatStep(Perc(Column(r.d, c)), r.d[i][c], g)
     [] OTHER -> 0
Close(r, i, c, y) == LET e == y - UNIT * r.d[i][c] s == Step(r, i, c) + 2
                     IN e <= s /\ -e <= s

(* a record read whole: exact, or within the step of its compression.          *)
SameWhole(r, y) ==
  /\ y.t = r.t
  /\ Len(y.d) = Len(r.d)
  /\ IF r.t = "v" THEN \A i \in 1..Len(r.d) : y.d[i] = UNIT * r.d[i]
     ELSE /\ \A i \in 1..Len(r.d) : Len(y.d[i]) = r.nc
          /\ y.nc = r.nc
          /\ r.how = "exact" => \A i \in 1..Len(r.d) : \A c \in 1..r.nc : y.d[i][c] = UNIT * r.d[i][c]
          /\ r.how = "read" => \A i \in 1..Len(r.d) : y.d[i] = r.d[i]
          /\ ~(r.how \in {"exact", "read"}) => \A i \in 1..Len(r.d) : \A c \in 1..r.nc : Close(r, i, c, y.d[i][c])
\* what a record holds once a complete read has shown it: later reads repeat it
Known(r, y) == IF r.t = "m" THEN [r EXCEPT !.d = y.d, !.how = "read"] ELSE r
SamePart(r, x, y) ==     \* x: the rows wanted (of r, exact or read before)
  /\ y.t = r.t
  /\ Len(y.d) = Len(x)
  /\ r.t = "m" => y.nc = r.nc
  /\ IF r.t = "v" THEN \A i \in 1..Len(x) : y.d[i] = UNIT * x[i]
     ELSE \A i \in 1..Len(x) : IF r.how = "read" THEN y.d[i] = x[i]
                               ELSE r.how = "exact" => y.d[i] = [c \in 1..r.nc |-> UNIT * x[i][c]]

(*----------------------------------- events ---------------------------------*)
InitSt(x) == [ar |-> <<>>, open |-> TRUE, src |-> <<>>, parts |-> <<>>, rd |-> [kind |-> "none"],
              fmt |-> "ark", text |-> FALSE, comp |-> ""]

\* records of a group that are stored before one is refused; compression needs a matrix
Refused(s, r) == (s.comp # "" /\ r.t = "v")
                 \/ (s.fmt = "h5" /\ \E i \in DOMAIN s.ar : s.ar[i].k = r.k)
RECURSIVE Accept(_, _)
Accept(s, rs) == IF rs = <<>> \/ Refused(s, rs[1]) THEN s
                 ELSE Accept([s EXCEPT !.ar = Append(@, [rs[1] EXCEPT !.how = IF s.comp = "" THEN "exact" ELSE s.comp])], Tail(rs))
AllIn(s, rs) == Len(Accept(s, rs).ar) = Len(s.ar) + Len(rs)

WholeLines(s) == [i \in 1..Len(s.ar) |-> <<i, 0, 0>>]
ByKey(s) == LET L == WholeLines(s) IN SortSeq(L, LAMBDA x, y : s.ar[x[1]].k < s.ar[y[1]].k)
KeyOf(s, ln) == s.ar[ln[1]].k
KeysOf(s, lns) == [i \in 1..Len(lns) |-> KeyOf(s, lns[i])]
\* the first line with a key (random access looks keys up)
LineOf(s, k) == LET I == {i \in DOMAIN s.src : KeyOf(s, s.src[i]) = k} IN IF I = {} THEN <<0, 0, 0>> ELSE s.src[MinS(I)]
\* the lines of the j-th, (j+1)-th ... key of a list of keys that was taken from the source
Occ(ks, j) == Cardinality({i \in 1..j : ks[i] = ks[j]})
NthLine(s, k, n) == LET I == {i \in DOMAIN s.src : KeyOf(s, s.src[i]) = k /\ Cardinality({h \in 1..i : KeyOf(s, s.src[h]) = k}) = n}
                    IN s.src[MinS(I)]
LinesFor(s, parts) ==
  LET flat == FlatSeq(parts)
      off(i) == SumSeq([h \in 1..(i - 1) |-> Len(parts[h])])
  IN [i \in 1..Len(parts) |-> [j \in 1..Len(parts[i]) |-> NthLine(s, parts[i][j], Occ(flat, off(i) + j))]]

Offs(e, i) == IF Len(e.off) = 1 THEN e.off[1] ELSE e.off[i]
Nums(e, i) == IF Len(e.num) = 1 THEN e.num[1] ELSE e.num[i]
\* the reader raised although no line it was asked for may be refused
Rec(s, ln) == s.ar[ln[1]]
Refusable(s, lns, e) == \E i \in DOMAIN lns : lns[i][1] # 0 /\ MayRefuse(Rec(s, lns[i]), lns[i], Offs(e, i), Nums(e, i), s.text)

ItemOK(s, ln, y, o, m) ==
  LET r == Rec(s, ln)
  IN IF NoRange(ln, o, m) THEN SameWhole(r, y)
     ELSE SamePart(r, Want(r, ln, o, m), y)
Learn(s, lns, e) ==
  LET I == {i \in DOMAIN lns : lns[i][1] # 0 /\ NoRange(lns[i], Offs(e, i), Nums(e, i))}
  IN [s EXCEPT !.ar = [j \in DOMAIN s.ar |-> IF \E i \in I : lns[i][1] = j
                                             THEN Known(s.ar[j], e.data[CHOOSE i \in I : lns[i][1] = j]) ELSE s.ar[j]]]

(* ---- stacking of equal shapes ---- *)
WantShape(s, ln, e, i) == LET r == Rec(s, ln) w == Want(r, ln, Offs(e, i), Nums(e, i))
                          IN IF r.t = "v" THEN <<Len(w)>> ELSE <<Len(w), r.nc>>
Shapes2(s, lns, e) == {WantShape(s, lns[i], e, i) : i \in {h \in DOMAIN lns : lns[h][1] # 0}}
Stackable(s, lns, e) == Cardinality(Shapes2(s, lns, e)) = 1 /\ \A z \in Shapes2(s, lns, e) : z[1] > 0
\* stacking nothing: no promise
EmptyWanted(s, lns, e) == \E z \in Shapes2(s, lns, e) : z[1] = 0
IsZero(y, z) == Len(y.d) = z[1] /\ \A i \in 1..z[1] : IF Len(z) = 1 THEN y.d[i] = 0 ELSE y.d[i] = [c \in 1..z[2] |-> 0]

DataOK(s, lns, e) ==
  /\ Len(e.data) = Len(lns)
  /\ \A i \in DOMAIN lns : IF lns[i][1] # 0 THEN ItemOK(s, lns[i], e.data[i], Offs(e, i), Nums(e, i))
                           ELSE IF e.sq THEN \A z \in Shapes2(s, lns, e) : IsZero(e.data[i], z)
                           ELSE e.data[i].d = <<>>

Announced(r, ln) == LET w == Window(r, ln) IN IF r.t = "v" THEN <<Len(w)>> ELSE <<Len(w), r.nc>>
Last(x) == x[Len(x)]
Meta(what, sh) == CASE what = "shapes" -> sh
                  [] what = "numrows" -> IF Len(sh) = 2 THEN <<sh[1]>> ELSE <<1>>
                  [] OTHER -> <<Last(sh)>>
MetaSh(s, ln) == IF ln[1] = 0 THEN <<0>> ELSE Announced(Rec(s, ln), ln)
MetaOK(s, lns, e) == /\ Len(e.res) = Len(lns)
                     /\ \A i \in DOMAIN lns : e.res[i] = Meta(e.what, MetaSh(s, lns[i]))
SameDims(s, lns) == Cardinality({Last(MetaSh(s, lns[i])) : i \in DOMAIN lns}) <= 1
MetaRefuse(s, lns) == \E i \in DOMAIN lns : lns[i][1] # 0 /\ MayRefuse(Rec(s, lns[i]), lns[i], 0, 0, FALSE)

Lost(s) == [s EXCEPT !.rd.cur = -1]     \* after an error the position is not promised
Judge(s, e) ==
  CASE e.op = "create" -> IF e.exc = "" THEN Good([s EXCEPT !.fmt = e.fmt, !.text = e.text, !.comp = e.comp]) ELSE Bad(s, "an archive could not be created: " \o e.exc)
  [] e.op = "write" ->
       IF AllIn(s, e.recs) THEN IF e.exc # "" THEN Bad(s, "writing failed: " \o e.exc) ELSE Good(Accept(s, e.recs))
       ELSE IF e.exc = "" THEN Bad(s, "a record that cannot be stored was accepted") ELSE Good(Accept(s, e.recs))
  [] e.op = "close" -> IF e.exc # "" THEN Bad(s, "closing failed: " \o e.exc) ELSE Good([s EXCEPT !.open = FALSE])
  [] e.op = "script" -> IF e.exc # "" THEN Bad(s, "the script file cannot be read: " \o e.exc)
                        ELSE IF e.res # KeysOf(s, WholeLines(s)) THEN Bad(s, "the script file does not list the records written") ELSE Good(s)
  [] e.op = "source" -> Good([s EXCEPT !.src = IF e.via = "scp" THEN e.lines ELSE IF e.via = "auto" \/ s.fmt = "ark" THEN WholeLines(s) ELSE ByKey(s), !.parts = <<>>])
  [] e.op = "parts" ->
       IF e.exc # "" THEN (IF s.fmt = "ark" /\ e.via = "file" /\ e.exc = "NotImplementedError" THEN Good(s) ELSE Bad(s, "reading the parts failed: " \o e.exc))
       ELSE LET flat == FlatSeq(e.res) ks == KeysOf(s, s.src) IN
            IF ~SameBag(flat, ks) THEN Bad(s, "the parts together do not hold every record exactly once")
            ELSE IF ~e.bykey /\ flat # ks THEN Bad(s, "the parts are not in the order of the source")
            ELSE IF e.bykey /\ (\E i, j \in DOMAIN e.res : i # j /\ Rng(e.res[i]) \cap Rng(e.res[j]) # {}) THEN Bad(s, "a key is in two parts")
            ELSE Good([s EXCEPT !.parts = LinesFor(s, e.res)])
  [] e.op = "open" ->
       IF e.exc # "" THEN Bad(s, "the reader could not be opened: " \o e.exc)
       ELSE Good([s EXCEPT !.rd = [kind |-> e.kind, cur |-> 0, perm |-> e.perm,
                                   lines |-> IF e.part = 0 THEN s.src ELSE s.parts[e.part]]])
  [] e.op = "reset" -> IF e.exc # "" THEN Bad(s, "reset failed: " \o e.exc) ELSE Good([s EXCEPT !.rd.cur = 0])
  [] e.op = "eof" -> IF e.exc # "" THEN Bad(s, "asking for the end failed: " \o e.exc)
                     ELSE IF e.res # (s.rd.cur = Len(s.rd.lines)) THEN Bad(s, "the end is not signalled exactly when no record remains") ELSE Good(s)
  [] e.op = "next" ->
       IF s.rd.cur = Len(s.rd.lines)
       THEN (IF e.exc = "StopIteration" THEN Good(s) ELSE Bad(s, "iteration does not stop at the end"))
       ELSE LET lns == Delivered(s.rd, 1) IN
            IF e.exc # "" THEN (IF Refusable(s, lns, e) THEN Good(Lost(s)) ELSE Bad(s, "iteration failed: " \o e.exc))
            ELSE IF e.keys # KeysOf(s, lns) THEN Bad(s, "not the next record of the source")
            ELSE IF ~DataOK(s, lns, e) THEN Bad(s, "the record delivered is not the one written")
            ELSE Good([Learn(s, lns, e) EXCEPT !.rd.cur = @ + 1])
  [] e.op = "read" ->
       LET lns == Delivered(s.rd, e.n) IN
       IF e.exc # "" THEN (IF Refusable(s, lns, e) \/ (e.sq /\ lns # <<>> /\ ~Stackable(s, lns, e)) THEN Good(Lost(s)) ELSE Bad(s, "reading failed: " \o e.exc))
       ELSE IF e.sq /\ Cardinality(Shapes2(s, lns, e)) > 1 THEN Bad(s, "matrices of different shapes were stacked")
       ELSE IF e.keys # KeysOf(s, lns) THEN Bad(s, "not the next records of the source")
       ELSE IF e.sq /\ EmptyWanted(s, lns, e) THEN Good([s EXCEPT !.rd.cur = @ + Len(lns)])
       ELSE IF ~DataOK(s, lns, e) THEN Bad(s, "the records delivered are not the ones written, or not the rows asked for")
       ELSE Good([Learn(s, lns, e) EXCEPT !.rd.cur = @ + Len(lns)])
  [] e.op = "meta" ->
       LET lns == Delivered(s.rd, e.n) IN
       IF e.exc # "" THEN (IF MetaRefuse(s, lns) \/ (e.same /\ ~SameDims(s, lns)) THEN Good(Lost(s)) ELSE Bad(s, "reading shapes failed: " \o e.exc))
       ELSE IF e.same /\ ~SameDims(s, lns) THEN Bad(s, "different dimensions were not reported")
       ELSE IF e.keys # KeysOf(s, lns) THEN Bad(s, "not the shapes of the next records of the source")
       ELSE IF ~MetaOK(s, lns, e) THEN Bad(s, "the shapes announced are not those of the data")
       ELSE Good([s EXCEPT !.rd.cur = @ + Len(lns)])
  [] e.op \in {"rread", "rmeta"} ->
       LET lns == [i \in 1..Len(e.ask) |-> LineOf(s, e.ask[i])]
           missing == \E i \in DOMAIN lns : lns[i][1] = 0
           allmiss == lns # <<>> /\ \A i \in DOMAIN lns : lns[i][1] = 0
       IN IF missing /\ ~s.rd.perm THEN (IF e.exc = "" THEN Bad(s, "a key that was not written is not an error") ELSE Good(s))
          ELSE IF e.op = "rread"
          THEN IF e.exc # "" THEN (IF Refusable(s, lns, e) \/ (e.sq /\ ~Stackable(s, lns, e)) THEN Good(s) ELSE Bad(s, "reading by key failed: " \o e.exc))
               ELSE IF e.sq /\ Cardinality(Shapes2(s, lns, e)) > 1 THEN Bad(s, "matrices of different shapes were stacked")
               ELSE IF e.sq /\ (allmiss \/ EmptyWanted(s, lns, e)) THEN Good(s)
               ELSE IF ~DataOK(s, lns, e) THEN Bad(s, "the data read by key are not those written, or not the rows asked for")
               ELSE Good(Learn(s, lns, e))
          ELSE IF e.exc # "" THEN (IF MetaRefuse(s, lns) \/ (e.same /\ (missing \/ ~SameDims(s, lns))) THEN Good(s) ELSE Bad(s, "reading shapes by key failed: " \o e.exc))
               ELSE IF e.same /\ ~missing /\ ~SameDims(s, lns) THEN Bad(s, "different dimensions were not reported")
               ELSE IF missing /\ e.what = "numrows" THEN Good(s)
               ELSE IF ~MetaOK(s, lns, e) THEN Bad(s, "the shapes announced by key are not those of the data")
               ELSE Good(s)
  [] OTHER -> Bad(s, "unknown event")
=============================================================================
