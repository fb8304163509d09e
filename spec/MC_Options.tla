------------------------------ MODULE MC_Options ------------------------------
(* A command line of several components, one option after another.                *)
EXTENDS Options, Json
CONSTANTS NC, NO, NV, MAXLEN, EVERY
VARIABLES line, st
vars == <<line, st>>
Kind(k) == IF k % 3 = 1 THEN "value" ELSE IF k % 3 = 2 THEN "no" ELSE "yes"
\* the components share the names of their arguments
Comps == [c \in 1..NC |-> [k \in 1..NO |-> [o |-> ToString(k), arg |-> "a" \o ToString(k), kind |-> Kind(k), def |-> "d" \o ToString(c)]]]
Init == line = <<>> /\ st = Clear(Comps)
Option(c, k, v) == /\ Len(line) < MAXLEN
                   /\ line' = Append(line, <<c, k, v>>)
                   /\ st' = Give1(st, c, k, v)
Next == \E c \in 1..NC, k \in 1..NO, v \in 1..NV : Option(c, k, "v" \o ToString(v))
Spec == Init /\ [][Next]_vars
G(c) == Gets(Comps[c], st[c])
\* every argument has one value
OneValue == \A c \in 1..NC : Cardinality(G(c)) = NO /\ {p[1] : p \in G(c)} = {"a" \o ToString(k) : k \in 1..NO}
\* what a component gets is what it would get if the others were not on the line
Mine(c) == SelectSeq(line, LAMBDA w : w[1] = c)
Alone == \A c \in 1..NC : G(c) = Gets(Comps[c], Read(Clear(Comps), Mine(c))[c])
\* options of different names may change places
Swap(i) == [j \in DOMAIN line |-> IF j = i THEN line[i + 1] ELSE IF j = i + 1 THEN line[i] ELSE line[j]]
Places == \A i \in 1..(Len(line) - 1) : (line[i][1] # line[i + 1][1] \/ line[i][2] # line[i + 1][2]) => \A c \in 1..NC : Gets(Comps[c], Read(Clear(Comps), Swap(i))[c]) = G(c)
Last == \A i \in DOMAIN line : (Kind(line[i][2]) = "value" /\ \A j \in (i + 1)..Len(line) : line[j][1] # line[i][1] \/ line[j][2] # line[i][2]) => <<"a" \o ToString(line[i][2]), line[i][3]>> \in G(line[i][1])
Absent == \A c \in 1..NC, k \in 1..NO : (\A i \in DOMAIN line : line[i][1] # c \/ line[i][2] # k) =>
            <<"a" \o ToString(k), CASE Kind(k) = "yes" -> "False" [] Kind(k) = "no" -> "True" [] OTHER -> "d" \o ToString(c)>> \in G(c)
H == SumSeq([i \in DOMAIN line |-> (7 * line[i][1]) + (3 * i * line[i][2])])
Emit == (line # <<>> /\ H % EVERY = 0 /\ \A i \in DOMAIN line : line[i][3] = "v1") => PrintT("@@BEH " \o ToJson([n |-> NC, line |-> line]))
=============================================================================
