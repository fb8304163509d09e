------------------------------- MODULE MC_Store ------------------------------
(* All short histories of two objects and two files.  The store is compared    *)
(* with a ghost that remembers what was written last and in which state.       *)
EXTENDS Store, Json
CONSTANTS MAXOPS, EVERY
VARIABLES st, hist, ghost
vars == <<st, hist, ghost>>
Objs == {"x", "y"}
Paths == {"f.h5", "d/g.h5"}
Flags == [um |-> TRUE, ut |-> TRUE, diag |-> FALSE]
Leaf(c, n, mu, T) == [cls |-> c, name |-> n, mu |-> mu, T |-> T, kids |-> <<>>, fit |-> 0, flags |-> Flags]
A == Leaf("MVN", "a", <<1>>, <<<<2>>>>)
B == Leaf("PCA", "b", <<-1>>, <<<<3>>>>)
List(n, k) == [cls |-> "TransformList", name |-> n, mu |-> <<>>, T |-> <<>>, kids |-> k, fit |-> 0, flags |-> Flags]
Trees == {A, List("l", <<A, B>>), List("~", <<A, A>>)}
Ev(e) == [op |-> e.op, o |-> e.o, p |-> e.p, t |-> e.t, from |-> e.from, k |-> 1, d |-> 5]
Nop == [op |-> "", o |-> "x", p |-> "f.h5", t |-> A, from |-> "x"]
Do(e, t2) == /\ hist' = Append(hist, Ev(e))
             /\ LET full == [op |-> e.op, o |-> e.o, p |-> e.p, t |-> e.t, from |-> e.from, k |-> 1, d |-> 5, exc |-> IF e.op = "save" /\ Clash(t2) THEN "ValueError" ELSE "",
                             cls |-> t2.cls, names |-> Names(t2), cfg |-> 0, sets |-> 0]
                    j == Judge(st, full)
                IN st' = j.st /\ j.ok
Init == st = InitSt(0) /\ hist = <<>> /\ ghost = [q \in {} |-> A]
New == \E o \in Objs, t \in Trees : Do([Nop EXCEPT !.op = "new", !.o = o, !.t = t], Build(t)) /\ UNCHANGED ghost
Copy == \E o, q \in Objs : o # q /\ q \in DOMAIN st.heap /\ Do([Nop EXCEPT !.op = "copy", !.o = o, !.from = q], st.heap[q]) /\ UNCHANGED ghost
Change == \E o \in Objs : o \in DOMAIN st.heap /\ Do([Nop EXCEPT !.op = "shift", !.o = o], st.heap[o]) /\ UNCHANGED ghost
Add == \E o \in Objs : o \in DOMAIN st.heap /\ IsList(st.heap[o]) /\ Len(st.heap[o].kids) < 3 /\ Do([Nop EXCEPT !.op = "append", !.o = o, !.t = B], Append1(st.heap[o], B)) /\ UNCHANGED ghost
Save == \E o \in Objs, p \in Paths : /\ o \in DOMAIN st.heap
                                     /\ Do([Nop EXCEPT !.op = "save", !.o = o, !.p = p], st.heap[o])
                                     /\ ghost' = IF Clash(st.heap[o]) THEN Del(ghost, p) ELSE Put(ghost, p, Predict(st.heap[o], <<<<7>>>>))
Load == \E o \in Objs, p \in Paths : p \in DOMAIN st.file /\ Do([Nop EXCEPT !.op = "load", !.o = o, !.p = p], st.file[p]) /\ UNCHANGED ghost
Next == Len(hist) < MAXOPS /\ (New \/ Copy \/ Change \/ Add \/ Save \/ Load)
Spec == Init /\ [][Next]_vars
\* a file holds the model as it was when it was saved, whatever happened to the object since
FilesOk == /\ DOMAIN ghost = DOMAIN st.file
           /\ \A p \in DOMAIN st.file : Predict(st.file[p], <<<<7>>>>) = ghost[p]
NoClashSaved == \A p \in DOMAIN st.file : ~Clash(st.file[p])
\* members keep the name of their chain
NamesOk == \A o \in DOMAIN st.heap : IsList(st.heap[o]) /\ st.heap[o].name # "~" => \A i \in DOMAIN st.heap[o].kids : st.heap[o].kids[i].name \in {"l/a", "l/b"}
Hash == SumSeq([i \in DOMAIN hist |-> i * (CASE hist[i].op = "new" -> 3 + Len(hist[i].t.kids) [] hist[i].op = "copy" -> 1 [] hist[i].op = "shift" -> 7 [] hist[i].op = "append" -> 11 [] hist[i].op = "save" -> 13 [] OTHER -> 17)])
Useful == \E i \in DOMAIN hist : hist[i].op = "load"
Emit == (Len(hist) = MAXOPS /\ Useful /\ Hash % EVERY = 0) => PrintT("@@BEH " \o ToJson([ops |-> hist]))
=============================================================================
