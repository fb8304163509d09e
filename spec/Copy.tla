-------------------------------- MODULE Copy --------------------------------
(* hyperion/io/copy_feats.py, h5_merger.py, rw_specifiers.py: copying records *)
(* between archives and the specifiers that name archives.                    *)
(* State: the archives made so far, each [fmt, recs in the order written].    *)
EXTENDS Util
A == INSTANCE Archive

(*-------------------------------- specifiers --------------------------------*)
Types == {"h5", "ark", "scp"}
RFlags == {"o", "s", "cs", "p", "bg"}
ROff == {"no", "ns", "ncs", "np"}
Has(toks, t) == \E i \in DOMAIN toks : toks[i] = t
NTypes(toks) == Cardinality({i \in DOMAIN toks : toks[i] \in Types})
RBad(toks) == NTypes(toks) # 1 \/ \E i \in DOMAIN toks : ~(toks[i] \in Types \cup RFlags \cup ROff \cup {"b", "t"})
\* what a read specifier says; kind: what the script refers to
RParse(toks, kind) == [stype |-> IF Has(toks, "scp") THEN "script" ELSE "archive",
                       atype |-> IF Has(toks, "scp") THEN kind ELSE IF Has(toks, "ark") THEN "ark" ELSE "h5",
                       perm |-> Has(toks, "p"), flags |-> [i \in 1..4 |-> Has(toks, <<"o", "s", "cs", "bg">>[i])]]
WBad(toks) == LET n(t) == Count(toks, t) IN
              NTypes(toks) = 0 \/ n("scp") > 1 \/ n("h5") + n("ark") > 1 \/ \E i \in DOMAIN toks : ~(toks[i] \in Types \cup {"b", "t", "f", "nf", "p"})
\* names are given in the order of the types
Pos(toks, S) == LET I == {i \in DOMAIN toks : toks[i] \in S} IN IF I = {} THEN 0 ELSE Cardinality({i \in 1..MinS(I) : toks[i] \in Types})
WParse(toks) == [atype |-> IF Has(toks, "ark") THEN "ark" ELSE IF Has(toks, "h5") THEN "h5" ELSE "none",
                 arch |-> Pos(toks, {"h5", "ark"}), script |-> Pos(toks, {"scp"}),
                 stype |-> IF ~Has(toks, "scp") THEN "archive" ELSE IF Has(toks, "h5") \/ Has(toks, "ark") THEN "both" ELSE "script",
                 binary |-> ~(Has(toks, "ark") /\ Has(toks, "t")), flush |-> Has(toks, "f"), perm |-> Has(toks, "ark") /\ Has(toks, "p")]

(*---------------------------------- copying ---------------------------------*)
InitSt(x) == <<>>
\* records of an archive as a reader delivers them
Sorted(rs) == LET t == SortSeq([i \in 1..Len(rs) |-> <<rs[i].k, i>>], LAMBDA u, v : u[1] < v[1] \/ (u[1] = v[1] /\ u[2] < v[2])) IN [i \in 1..Len(rs) |-> rs[t[i][2]]]
Seen(f, via) == IF f.fmt = "h5" /\ via = "file" THEN Sorted(f.recs) ELSE f.recs
Keys(rs) == [i \in 1..Len(rs) |-> rs[i].k]
\* what cannot be stored
Refused(rs, fmt, comp) == (comp # "" /\ \E i \in DOMAIN rs : rs[i].t = "v") \/ (fmt = "h5" /\ ~IsInj(Keys(rs)))
Same(rs, ys) == Len(rs) = Len(ys) /\ \A i \in 1..Len(rs) : rs[i].k = ys[i].k /\ A!SameWhole(rs[i], ys[i])
How(rs, comp) == [i \in 1..Len(rs) |-> IF comp = "" THEN rs[i] ELSE [rs[i] EXCEPT !.how = comp]]
\* the written order: a record of rs for each, with the data that were read
Learn(rs, fmt, ys) == LET z == IF fmt = "h5" THEN Sorted(rs) ELSE rs IN
                      [i \in 1..Len(rs) |-> LET j == IF fmt = "h5" THEN CHOOSE j \in 1..Len(z) : z[j].k = rs[i].k ELSE i IN A!Known(rs[i], ys[j])]
OutOK(rs, e, o) == /\ Same(How(IF e.fmt = "h5" THEN Sorted(rs) ELSE rs, e.comp), o.recs)
                   /\ e.scp => o.keys = Keys(rs)
                   /\ o.text = (e.fmt = "ark" /\ e.text /\ Len(rs) > 0)
Copy(s, e) ==
  LET all == FlatSeq([i \in 1..Len(e.ins) |-> Seen(s[e.ins[i][1]], e.ins[i][2])])
      n == Len(e.outs)
      off(p) == SumSeq([q \in 1..(p - 1) |-> Len(e.outs[q].recs)])
      seg(p) == SubSeq(all, off(p) + 1, off(p) + Len(e.outs[p].recs))
  IN IF e.n > 1 /\ e.exc = "NotImplementedError" /\ s[e.ins[1][1]].fmt = "ark" /\ e.ins[1][2] = "file" THEN Good(s)
     ELSE IF Refused(all, e.fmt, e.comp) /\ e.n = 1 THEN (IF e.exc = "" THEN Bad(s, "records that cannot be stored were dropped") ELSE Good(s))
     ELSE IF e.exc # "" THEN (IF Refused(all, e.fmt, e.comp) THEN Good(s) ELSE Bad(s, "copying failed: " \o e.exc))
     ELSE IF n # e.n \/ SumSeq([p \in 1..n |-> Len(e.outs[p].recs)]) # Len(all) THEN Bad(s, "the outputs do not hold every record exactly once")
     ELSE IF \E p \in 1..n : ~OutOK(seg(p), e, e.outs[p]) THEN Bad(s, "an output does not hold the records it should, unchanged and in order")
     ELSE Good(s \o [p \in 1..n |-> [fmt |-> e.fmt, recs |-> IF e.comp = "" THEN seg(p) ELSE Learn(How(seg(p), e.comp), e.fmt, e.outs[p].recs)]])

Judge(s, e) ==
  CASE e.op = "make" -> IF e.exc # "" THEN Bad(s, "writing failed: " \o e.exc) ELSE Good(Append(s, [fmt |-> e.fmt, recs |-> [i \in 1..Len(e.recs) |-> [e.recs[i] EXCEPT !.how = "exact"]]]))
    [] e.op = "copy" -> Copy(s, e)
    [] e.op = "rspec" ->
       IF RBad(e.toks) THEN (IF e.exc = "" THEN Bad(s, "a wrong read specifier was accepted") ELSE Good(s))
       ELSE IF e.exc # "" THEN Bad(s, "a read specifier was refused: " \o e.exc)
       ELSE LET p == RParse(e.toks, e.kind) IN
            IF e.r.name # 1 \/ e.r.stype # p.stype \/ e.r.atype # p.atype \/ e.r.perm # p.perm \/ (p.atype = "ark" /\ e.r.flags # p.flags)
            THEN Bad(s, "the read specifier means " \o ToString(p)) ELSE Good(s)
    [] e.op = "wspec" ->
       IF WBad(e.toks) THEN (IF e.exc = "" THEN Bad(s, "a wrong write specifier was accepted") ELSE Good(s))
       ELSE IF e.exc # "" THEN Bad(s, "a write specifier was refused: " \o e.exc)
       ELSE IF e.r # WParse(e.toks) THEN Bad(s, "the write specifier means " \o ToString(WParse(e.toks))) ELSE Good(s)
    [] OTHER -> Bad(s, "unknown event " \o e.op)
=============================================================================
