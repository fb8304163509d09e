-------------------------------- MODULE Store --------------------------------
(* hyperion/hyp_model, transforms, pipeline, model_loader: models, chains of   *)
(* models, and the files they are saved in.  A model is a tree                 *)
(*   [cls, name ("~": none), mu (<<>>: not set), T (<<>>: not set),            *)
(*    kids (members of a chain), fit (> 0: parameters are not spelled out),    *)
(*    flags]                                                                   *)
(* with integer parameters, so that its predictions are integers; those of a   *)
(* fitted model are not known, but never differ between a model, its copies    *)
(* and the ones loaded from the files it was saved in.                         *)
EXTENDS Util

IsList(t) == t.cls \in {"TransformList", "Pipeline"}
\* a chain puts its name before those of its members
Pref(n, t) == IF n = "~" THEN t ELSE [t EXCEPT !.name = n \o "/" \o @]
RECURSIVE Build(_)
Build(t) == IF IsList(t) THEN [t EXCEPT !.kids = [i \in DOMAIN @ |-> Pref(t.name, Build(@[i]))]] ELSE t
Append1(t, k) == [t EXCEPT !.kids = Append(@, Pref(t.name, Build(k)))]
RECURSIVE Leaves(_)
Leaves(t) == IF IsList(t) THEN FlatSeq([i \in DOMAIN t.kids |-> Leaves(t.kids[i])]) ELSE <<t>>
\* names of a model and its direct members
Names(t) == <<t.name>> \o [i \in DOMAIN t.kids |-> t.kids[i].name]
\* what a model writes in a file
Second(c) == IF c = "MVN" THEN "s" ELSE IF c = "NAP" THEN "U" ELSE "T"
Params(t) == IF t.fit > 0 THEN (IF t.cls = "NAP" THEN {"U"} ELSE IF t.cls = "Gaussianizer" THEN {"r"} ELSE {"mu", Second(t.cls)})
             ELSE (IF t.mu # <<>> THEN {"mu"} ELSE {}) \cup (IF t.T # <<>> THEN {Second(t.cls)} ELSE {})
Key(t, p) == IF t.name = "~" THEN p ELSE t.name \o "/" \o p
Clash(t) == LET L == Leaves(t) IN \E i, j \in DOMAIN L : i < j /\ \E p \in Params(L[i]) \cap Params(L[j]) : L[i].name = L[j].name
\* predictions
Dot(v, m) == [j \in DOMAIN m[1] |-> SumSeq([i \in DOMAIN v |-> v[i] * m[i][j]])]
Tr(m) == [j \in DOMAIN m[1] |-> [i \in DOMAIN m |-> m[i][j]]]
Minus(v, w) == [i \in DOMAIN v |-> v[i] - w[i]]
Times(v, w) == [i \in DOMAIN v |-> v[i] * w[i]]
Row(t, v) == LET c == IF t.mu = <<>> THEN v ELSE Minus(v, t.mu)
             IN CASE t.cls = "NAP" -> Minus(v, Dot(Dot(v, Tr(t.T)), t.T))
                  [] t.T = <<>> -> c
                  [] t.cls = "MVN" \/ t.flags.diag -> Times(c, t.T[1])     \* T[1] of MVN: 1 / s
                  [] OTHER -> Dot(c, t.T)
RECURSIVE Predict(_, _)
Predict(t, x) == IF IsList(t) THEN LET RECURSIVE F(_, _)
                                       F(i, y) == IF i > Len(t.kids) THEN y ELSE F(i + 1, Predict(t.kids[i], y))
                                   IN F(1, x)
                 ELSE [i \in DOMAIN x |-> Row(t, x[i])]
Exact(t) == \A i \in DOMAIN Leaves(t) : Leaves(t)[i].fit = 0
\* in place: the first element of the mean of the k-th leaf moves by d
RECURSIVE Shift(_, _, _)
Shift(t, k, d) == IF ~IsList(t) THEN [t EXCEPT !.mu[1] = @ + d]
                  ELSE LET n(i) == Len(Leaves(t.kids[i]))
                           before(i) == SumSeq([j \in 1..(i - 1) |-> n(j)])
                       IN [t EXCEPT !.kids = [i \in DOMAIN @ |-> IF k > before(i) /\ k <= before(i) + n(i) THEN Shift(@[i], k - before(i), d) ELSE @[i]]]

(*------------------------------- judging events -----------------------------*)
(* state: heap (object -> tree), file (path -> tree, or "" after a refused     *)
(* save, when nothing is known of it), what was seen: predictions, configs     *)
Put(f, k, v) == [q \in (DOMAIN f) \cup {k} |-> IF q = k THEN v ELSE f[q]]
Del(f, k) == [q \in (DOMAIN f) \ {k} |-> f[q]]
InitSt(x) == [heap |-> <<>>, file |-> <<>>, seen |-> {}, cfg |-> {}, set |-> {}]
CfgOk(s, t, c) == \A k \in s.cfg : (k.t = t) => k.c = c
Learn(s, o, t, c, g) == Good([s EXCEPT !.heap = Put(@, o, t), !.cfg = @ \cup {[t |-> t, c |-> c]}, !.set = @ \cup {[t |-> t, c |-> g]}])
Obj(s, e, t, what) == IF e.exc # "" THEN Bad(s, what \o " raised " \o e.exc)
                      ELSE IF e.cls # t.cls THEN Bad(s, what \o " gives a " \o e.cls)
                      ELSE IF e.names # Names(t) THEN Bad(s, "names after " \o what)
                      ELSE IF ~CfgOk(s, t, e.cfg) THEN Bad(s, "configuration after " \o what)
                      ELSE IF \E k \in s.set : k.t = t /\ k.c # e.sets THEN Bad(s, "settings after " \o what)
                      ELSE Learn(s, e.o, t, e.cfg, e.sets)
Judge(s, e) ==
  CASE e.op = "new" -> Obj(s, e, Build(e.t), "construction")
    [] e.op = "copy" -> Obj(s, e, s.heap[e.from], "copy")
    [] e.op = "append" -> Obj(s, e, Append1(s.heap[e.o], e.t), "append")
    [] e.op = "shift" -> IF e.exc # "" THEN Bad(s, "change in place") ELSE Good([s EXCEPT !.heap = Put(@, e.o, Shift(s.heap[e.o], e.k, e.d))])
    [] e.op = "save" -> LET t == s.heap[e.o]
                        IN IF Clash(t) THEN IF e.exc = "" THEN Bad(s, "members that write the same parameter were saved in one file")
                                            ELSE Good([s EXCEPT !.file = Del(@, e.p)])
                           ELSE IF e.exc # "" THEN Bad(s, "save raised " \o e.exc)
                           ELSE Good([s EXCEPT !.file = Put(@, e.p, t)])
    [] e.op = "load" -> IF e.p \notin DOMAIN s.file THEN Good(s) ELSE Obj(s, e, s.file[e.p], "load")
    [] e.op = "config" -> IF e.p \notin DOMAIN s.file THEN Good(s)
                          ELSE IF e.exc # "" THEN Bad(s, "load_config raised " \o e.exc)
                          ELSE IF ~CfgOk(s, s.file[e.p], e.cfg) THEN Bad(s, "load_config gives another configuration") ELSE Good(s)
    [] OTHER -> \* predict
       LET t == s.heap[e.o]
       IN IF e.exc # "" THEN Bad(s, "predict of " \o t.cls \o " raised " \o e.exc)
          ELSE IF ~e.same THEN Bad(s, "predict of " \o t.cls \o " changed its input")
          ELSE IF Exact(t) THEN (IF e.y # Predict(t, e.x) THEN Bad(s, "predict of " \o t.cls) ELSE Good(s))
          ELSE IF \E k \in s.seen : k.t = t /\ k.x = e.x /\ k.id # e.id THEN Bad(s, "prediction of " \o t.cls \o " differs after save, load or copy")
          ELSE Good([s EXCEPT !.seen = @ \cup {[t |-> t, x |-> e.x, id |-> e.id]}])
=============================================================================
