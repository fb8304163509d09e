-------------------------------- MODULE FoldLists --------------------------------
(* hyperion/utils/fold_list.py, train_val_eval_list.py.                      *)
(* State: a pool of lists [t, key, part, mask, names]                       *)
(*   t     "fold" or "tve"                                                  *)
(*   part  part of each element, -1 for none                                *)
(*   mask  <<>> if absent, else 0/1 for each element                        *)
(*   names names of the parts, <<>> if absent                               *)
EXTENDS Util

UNIT == 20      \* proportions are multiples of 1/UNIT

Use(o, i) == o.mask = <<>> \/ o.mask[i] = 1
Masked(m, i) == m # <<>> /\ m[i] = 0
NParts(o) == IF o.part = <<>> THEN 0 ELSE MaxS(Rng(o.part)) + 1
\* every part up to the last has elements (aligning may leave one without)
Whole(o) == Rng(o.part) \ {-1} = 0..(NParts(o) - 1)
InPart(o, i, p) == o.part[i] = p /\ Use(o, i)
\* the training set of a fold is everything that is in another fold
InTrain(o, i, p) == o.part[i] # p /\ o.part[i] >= 0 /\ Use(o, i)
KeysAt(o, P(_)) == AtSet(o.key, {i \in DOMAIN o.key : P(i)})
Flags(o, P(_)) == [i \in DOMAIN o.key |-> IF P(i) THEN 1 ELSE 0]

(*--------------------------- contract of creation ---------------------------*)
N(a) == Len(a.key)
Grp(a) == IF a.grp = <<>> THEN a.key ELSE a.grp
Cls(a) == IF a.bal = <<>> THEN [i \in 1..N(a) |-> 0] ELSE a.bal
Sel(a) == {i \in 1..N(a) : ~Masked(a.mask, i)}
NumParts(a) == IF a.t = "fold" THEN a.n ELSE Len(a.props) + 1
\* proportion of part p in units of 1/Den
Den(a) == IF a.t = "fold" THEN a.n ELSE UNIT
Prop(a, p) == IF a.t = "fold" THEN 1 ELSE IF p < Len(a.props) THEN a.props[p + 1] ELSE UNIT - SumSeq(a.props)
GroupsOf(a, c) == {Grp(a)[i] : i \in {j \in Sel(a) : Cls(a)[j] = c}}
GroupsIn(a, part, c, p) == {Grp(a)[i] : i \in {j \in Sel(a) : Cls(a)[j] = c /\ part[j] = p}}
Nested(a) == \A i, j \in Sel(a) : Grp(a)[i] = Grp(a)[j] => Cls(a)[i] = Cls(a)[j]

Assigned(a, part) == \A i \in 1..N(a) : IF i \in Sel(a) THEN part[i] \in 0..(NumParts(a) - 1) ELSE part[i] = -1
NoLeak(a, part) == \A i, j \in Sel(a) : Grp(a)[i] = Grp(a)[j] => part[i] = part[j]
Proportional(a, part) ==
  \A c \in Rng(Cls(a)) : \A p \in 0..(NumParts(a) - 1) :
    LET g == Cardinality(GroupsOf(a, c))   k == Cardinality(GroupsIn(a, part, c, p))
    IN /\ Den(a) * k <= g * Prop(a, p) + Den(a)
       /\ Den(a) * k >= g * Prop(a, p) - Den(a)
Valid(a, part) == Len(part) = N(a) /\ Assigned(a, part) /\ NoLeak(a, part) /\ Proportional(a, part)
\* with enough groups in a class every part has elements
MustSucceed(a) == IF a.t = "fold" THEN \E c \in Rng(Cls(a)) : Cardinality(GroupsOf(a, c)) >= a.n
                  ELSE \A p \in 0..(NumParts(a) - 1) : \E c \in Rng(Cls(a)) : Cardinality(GroupsOf(a, c)) * Prop(a, p) > UNIT
NamesOf(a) == IF a.names # <<>> THEN a.names
              ELSE IF a.t = "fold" THEN <<>> ELSE IF NumParts(a) = 3 THEN <<"train", "val", "eval">>
              ELSE IF NumParts(a) = 2 THEN <<"train", "eval">> ELSE <<>>

(*------------------- the algorithm, for a given permutation ------------------*)
RoundHE(x, y) == LET q == x \div y   r == 2 * (x % y)
                 IN IF r > y \/ (r = y /\ q % 2 = 1) THEN q + 1 ELSE q
Cum(a, p) == IF a.t = "fold" THEN p ELSE IF p = NumParts(a) THEN UNIT ELSE SumSeq(SubSeq(a.props, 1, p))
\* Rank(g): position given to group g within its class
Alg(a, Rank(_, _)) ==
  [i \in 1..N(a) |->
     IF i \notin Sel(a) THEN -1
     ELSE LET c == Cls(a)[i]   g == Cardinality(GroupsOf(a, c))   r == Rank(c, Grp(a)[i])
          IN CHOOSE p \in 0..(NumParts(a) - 1) : /\ r >= RoundHE(Cum(a, p) * g, Den(a))
                                                 /\ r < RoundHE(Cum(a, p + 1) * g, Den(a))]

(*------------------------------ judging events ------------------------------*)
InitSt(x) == [pool |-> <<>>, made |-> <<>>]
SamePool(p, q) == p = q
Adopt(s, e) == [s EXCEPT !.pool = e.pool]
LastOf(q) == q[Len(q)]
Fresh(s, e) == Len(e.pool) = Len(s.pool) + 1 /\ SubSeq(e.pool, 1, Len(s.pool)) = s.pool
NoChange(s, e, cond, clause) ==
  IF e.exc # "" THEN Bad(s, clause \o ": raised " \o e.exc)
  ELSE IF e.pool # s.pool THEN Bad(s, clause \o ": a list changed")
  ELSE IF ~cond THEN Bad(s, clause \o ": wrong answer " \o ToString(e.res))
  ELSE Good(s)
Args(e) == [x \in DOMAIN e.args |-> e.args[x]]

Judge(s, e) ==
  LET o == s.pool[e.r]
  IN CASE e.op = "create" ->
            LET a == e.args
            IN IF e.exc # "" THEN IF e.pool # s.pool THEN Bad(s, "create: another list changed")
                                  ELSE IF MustSucceed(a) THEN Bad(s, "create raised " \o e.exc) ELSE Good(s)
               ELSE IF ~Fresh(s, e) THEN Bad(s, "create: another list changed")
               ELSE LET o2 == LastOf(e.pool)
                    IN IF o2.key # a.key \/ o2.t # a.t \/ o2.mask # a.mask \/ o2.names # NamesOf(a) THEN Bad(s, "create: keys, mask or names differ " \o ToString(o2))
                       ELSE IF Len(o2.part) # N(a) THEN Bad(s, "create: number of elements")
                       ELSE IF ~Assigned(a, o2.part) THEN Bad(s, "create: every selected element in one part, masked ones in none " \o ToString(o2.part))
                       ELSE IF ~NoLeak(a, o2.part) THEN Bad(s, "create: a group is in two parts " \o ToString(o2.part))
                       ELSE IF ~Proportional(a, o2.part) THEN Bad(s, "create: proportions of a class " \o ToString(o2.part))
                       ELSE IF \E i \in DOMAIN s.made : s.made[i].args = a /\ s.made[i].part # o2.part THEN Bad(s, "create: the same seed gives the same parts")
                       ELSE Good([Adopt(s, e) EXCEPT !.made = Append(@, [args |-> a, part |-> o2.part])])
       [] e.op = "new" ->
            IF e.exc # "" THEN Bad(s, "new raised " \o e.exc)
            ELSE IF ~Fresh(s, e) \/ LastOf(e.pool) # e.obj THEN Bad(s, "new: wrong list " \o ToString(LastOf(e.pool)))
            ELSE Good(Adopt(s, e))
       [] e.op = "copy" ->
            IF e.exc # "" THEN Bad(s, "copy raised " \o e.exc)
            ELSE IF ~Fresh(s, e) \/ LastOf(e.pool) # o THEN Bad(s, "copy: wrong list " \o ToString(LastOf(e.pool)))
            ELSE Good(Adopt(s, e))
       [] e.op = "saveload" ->
            IF e.exc # "" THEN IF Whole(o) \/ e.pool # s.pool THEN Bad(s, "saving and loading raised " \o e.exc) ELSE Good(s)
            ELSE IF ~Fresh(s, e) THEN Bad(s, "saving and loading: another list changed")
            ELSE LET n == LastOf(e.pool)
                 IN IF n.key # o.key \/ n.part # o.part THEN Bad(s, "saving and loading: the assignment changed " \o ToString(n))
                    ELSE IF n.mask # <<>> THEN Bad(s, "saving and loading: a mask appeared")
                    ELSE IF ~ \/ o.names = <<>> /\ n.names = <<>>
                              \/ /\ o.names # <<>>
                                 /\ Rng(o.part) = {-1} \/ (\A p \in Rng(o.part) \ {-1} : p + 1 \in DOMAIN n.names /\ n.names[p + 1] = o.names[p + 1])
                         THEN Bad(s, "saving and loading: names of the parts " \o ToString(n.names))
                    ELSE Good(Adopt(s, e))
       [] e.op = "len" -> NoChange(s, e, e.res = <<NParts(o), NParts(o)>>, "number of parts")
       [] e.op = "fold" ->      \* training and test set of a fold
            NoChange(s, e, e.res = <<KeysAt(o, LAMBDA i : InTrain(o, i, e.p)), KeysAt(o, LAMBDA i : InPart(o, i, e.p)),
                                     Flags(o, LAMBDA i : InTrain(o, i, e.p)), Flags(o, LAMBDA i : InPart(o, i, e.p))>>,
                     "training and test elements of a fold")
       [] e.op = "part" ->      \* elements of a part, by number or name
            LET p == IF e.name = "" THEN e.p ELSE IF e.name \in Rng(o.names) THEN MinS({i \in DOMAIN o.names : o.names[i] = e.name}) - 1 ELSE -2
            IN IF p = -2 \/ (e.name # "" /\ p \notin Rng(o.part) /\ e.exc # "") THEN IF e.exc = "" THEN Bad(s, "a name that no part has") ELSE Good(s)
               ELSE NoChange(s, e, e.res = <<KeysAt(o, LAMBDA i : InPart(o, i, p)), Flags(o, LAMBDA i : InPart(o, i, p))>>, "elements of a part")
       [] e.op = "align" ->
            IF Rng(e.keys) \subseteq Rng(o.key)
            THEN LET ix == [i \in 1..Len(e.keys) |-> MinS({j \in DOMAIN o.key : o.key[j] = e.keys[i]})]
                     n == [o EXCEPT !.key = e.keys, !.part = [i \in 1..Len(ix) |-> o.part[ix[i]]],
                                    !.mask = IF o.mask = <<>> THEN <<>> ELSE [i \in 1..Len(ix) |-> o.mask[ix[i]]]]
                 IN IF e.exc # "" THEN Bad(s, "aligning raised " \o e.exc)
                    ELSE IF e.pool # [s.pool EXCEPT ![e.r] = n] THEN Bad(s, "aligning: wrong list " \o ToString(e.pool[e.r]))
                    ELSE Good(Adopt(s, e))
            ELSE IF e.exc = "" THEN Bad(s, "aligning with an unknown key: an error was expected")
            ELSE IF e.pool # s.pool THEN Bad(s, "aligning with an unknown key changed a list")
            ELSE Good(s)
       [] OTHER -> Bad(s, "unknown event " \o e.op)
=============================================================================
