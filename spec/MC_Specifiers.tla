--------------------------- MODULE MC_Specifiers ----------------------------
(* All sequences of up to N option tokens of read or write specifiers.        *)
EXTENDS Copy, Json
CONSTANTS N, KIND, EVERY
VARIABLES toks
Tokens == IF KIND = "r" THEN Types \cup RFlags \cup ROff \cup {"b", "t", "zz"} ELSE Types \cup {"b", "t", "f", "nf", "p", "zz"}
Init == toks = <<>>
Against == {<<"o", "no">>, <<"s", "ns">>, <<"cs", "ncs">>, <<"p", "np">>, <<"f", "nf">>, <<"b", "t">>}
\* nothing is asked for and denied
Clear(q) == \A a \in Against : ~(Has(q, a[1]) /\ Has(q, a[2]))
Next == Len(toks) < N /\ \E t \in Tokens : toks' = Append(toks, t) /\ Clear(toks')
Spec == Init /\ [][Next]_toks
Rev == [i \in 1..Len(toks) |-> toks[Len(toks) + 1 - i]]
Rot == Append(SubSeq(toks, 2, Len(toks)), toks[1])
\* the order of the options does not matter, but for the names, which follow the types
ROrder == toks # <<>> /\ KIND = "r" => \A q \in {Rev, Rot} : RBad(toks) = RBad(q) /\ (~RBad(toks) => \A k \in {"ark", "h5"} : RParse(toks, k) = RParse(q, k))
Plain(p) == <<p.atype, p.stype, p.binary, p.flush, p.perm>>
WOrder == toks # <<>> /\ KIND = "w" => \A q \in {Rev, Rot} : WBad(toks) = WBad(q) /\ (~WBad(toks) => Plain(WParse(toks)) = Plain(WParse(q)))
\* archive and script are different names, the first ones given
Names == KIND = "w" /\ toks # <<>> /\ ~WBad(toks) => LET p == WParse(toks) IN
           /\ p.arch # p.script /\ {p.arch, p.script} \ {0} = 1..NTypes(toks)
           /\ (p.stype = "both") = (p.arch > 0 /\ p.script > 0)
\* saying the default again says nothing
Default == toks # <<>> => \A t \in (IF KIND = "r" THEN {"b", "t"} ELSE {"nf"}) : LET q == Append(toks, t) IN Clear(q) =>
              IF KIND = "r" THEN RBad(q) = RBad(toks) /\ RParse(q, "ark") = RParse(toks, "ark") ELSE WBad(q) = WBad(toks) /\ WParse(q) = WParse(toks)
Emit == (toks # <<>> /\ Len(ToJson(toks)) % EVERY = 0) => PrintT("@@BEH " \o ToJson([kind |-> KIND, toks |-> toks]))
=============================================================================
