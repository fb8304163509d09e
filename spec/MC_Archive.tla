------------------------------ MODULE MC_Archive ------------------------------
(* Bounded models of the archive.                                            *)
(*  MODE "cursor": every history of reads, shape reads, iteration, end of file *)
(*    queries and resets of a sequential reader over up to MAXN records.       *)
(*    Invariant: what was delivered since the last reset is a prefix of the    *)
(*    source, each record once.                                                *)
(*  MODE "write": every grouping of up to MAXN records of the given kinds in   *)
(*    write calls.  Invariant: the archive is the flattened sequence.          *)
(*  MODE "range": every combination of record length, script range and range   *)
(*    asked for.  Invariant: rows never come from outside the window, and      *)
(*    ranges compose.                                                          *)
EXTENDS Archive, Json
CONSTANTS MODE, MAXN, DEPTH, EMIT
VARIABLES rd, log, hist, ar
vars == <<rd, log, hist, ar>>

Ns == 0..2
Kinds == {<<"v", 2, 1>>, <<"v", 0, 1>>, <<"m", 1, 2>>, <<"m", 2, 2>>, <<"m", 0, 2>>, <<"m", 3, 1>>}
Lines(n) == [i \in 1..n |-> <<i, 0, 0>>]
RECURSIVE Compositions(_)
Compositions(n) == IF n = 0 THEN {<<>>} ELSE UNION {{<<k>> \o c : c \in Compositions(n - k)} : k \in 1..n}
\* the record of a range model: row i holds i
Mat(R) == [i \in 1..R |-> <<i>>]

Init ==
  CASE MODE = "cursor" -> /\ \E n \in 0..MAXN : rd = [lines |-> Lines(n), cur |-> 0] /\ hist = <<[op |-> "init", n |-> n]>>
                          /\ log = <<>> /\ ar = <<>>
  [] MODE = "write" -> /\ rd = [lines |-> <<>>, cur |-> 0] /\ log = <<>> /\ ar = <<>>
                       /\ \E n \in 1..MAXN : \E c \in Compositions(n), ks \in [1..n -> Kinds] :
                            hist = <<[op |-> "write", kinds |-> ks, groups |-> c]>>
  [] OTHER -> /\ \E R \in 0..MAXN, a \in 0..MAXN + 1, n \in 0..MAXN + 1, o \in 0..MAXN + 1, m \in 0..MAXN + 1 :
                   hist = <<[op |-> "range", R |-> R, a |-> a, n |-> n, o |-> o, m |-> m]>>
              /\ rd = [lines |-> <<>>, cur |-> 0] /\ log = <<>> /\ ar = <<>>

Step1(op, n) ==
  LET d == Delivered(rd, n)
  IN /\ log' = log \o d
     /\ rd' = [rd EXCEPT !.cur = @ + Len(d)]
     /\ hist' = Append(hist, [op |-> op, n |-> n])
     /\ UNCHANGED ar
Next ==
  /\ MODE = "cursor"
  /\ Len(hist) <= DEPTH
  /\ \/ \E n \in Ns : Step1("read", n) \/ Step1("meta", n)
     \/ Step1("next", 1)
     \/ hist' = Append(hist, [op |-> "eof"]) /\ UNCHANGED <<rd, log, ar>>
     \/ hist' = Append(hist, [op |-> "reset"]) /\ rd' = [rd EXCEPT !.cur = 0] /\ log' = <<>> /\ UNCHANGED ar
Spec == Init /\ [][Next]_vars

DeliveredOnce == MODE = "cursor" => /\ log = SubSeq(rd.lines, 1, rd.cur)
                                    /\ rd.cur \in 0..Len(rd.lines)
                                    /\ Ahead(rd, 0) = 0 <=> rd.cur = Len(rd.lines)
St0 == InitSt(0)
GroupRecs(h) == LET rec(i) == [k |-> i, t |-> h.kinds[i][1], nc |-> h.kinds[i][3], how |-> "exact",
                               d |-> IF h.kinds[i][1] = "v" THEN [j \in 1..h.kinds[i][2] |-> j] ELSE [j \in 1..h.kinds[i][2] |-> [c \in 1..h.kinds[i][3] |-> j + c]]]
                IN [i \in 1..Len(h.kinds) |-> rec(i)]
RECURSIVE WriteGroups(_, _, _)
WriteGroups(s, rs, gs) == IF gs = <<>> THEN s ELSE WriteGroups(Accept(s, SubSeq(rs, 1, gs[1])), SubSeq(rs, gs[1] + 1, Len(rs)), Tail(gs))
GroupingIrrelevant == MODE = "write" =>
  LET rs == GroupRecs(hist[1]) IN
  /\ WriteGroups(St0, rs, hist[1].groups).ar = rs
  /\ \A i \in DOMAIN rs : Refused([St0 EXCEPT !.comp = "auto"], rs[i]) <=> rs[i].t = "v"
RangesInside == MODE = "range" =>
  LET h == hist[1]
      r == [k |-> 1, t |-> "m", d |-> Mat(h.R), nc |-> 1, how |-> "exact"]
      ln == <<1, h.a, h.n>>
      w == Want(r, ln, h.o, h.m)
      rows == [i \in 1..Len(w) |-> w[i][1] - 1]
  IN /\ \A i \in DOMAIN rows : /\ rows[i] >= h.a + h.o /\ rows[i] < h.R
                               /\ h.n > 0 => rows[i] < h.a + h.n
                               /\ h.m > 0 => rows[i] < h.a + h.o + h.m
     /\ \A i \in 1..(Len(rows) - 1) : rows[i + 1] = rows[i] + 1
     \* every row that both ranges select is there
     /\ \A x \in 0..(h.R - 1) : (x >= h.a + h.o /\ (h.n = 0 \/ x < h.a + h.n) /\ (h.m = 0 \/ x < h.a + h.o + h.m)) => \E i \in DOMAIN rows : rows[i] = x
     /\ ~MayRefuse(r, ln, h.o, h.m, FALSE) => (h.m > 0 => Len(w) = h.m)
Emit == EMIT /\ (MODE # "cursor" \/ Len(hist) = DEPTH + 1) => PrintT("@@BEH " \o ToJson(hist))
=============================================================================
