------------------------------- MODULE Options --------------------------------
(* Options of a command line shared by several components, each with its own    *)
(* prefix.                                                                       *)
(* A component is a sequence of options [o, arg, kind, def]: name of the option,  *)
(* argument of the component that it sets, "value", "yes" (a flag that makes the  *)
(* argument true) or "no" (a flag that makes it false), and value when absent.    *)
(* State: what the line says so far: for each component a sequence, for each of   *)
(* its options, of the values given.                                              *)
EXTENDS Util

Clear(comps) == [c \in DOMAIN comps |-> [k \in DOMAIN comps[c] |-> <<>>]]
\* one more word of the line: option k of component c with a value
Give1(st, c, k, v) == [st EXCEPT ![c][k] = Append(@, v)]
RECURSIVE Read(_, _)
Read(st, line) == IF line = <<>> THEN st ELSE Read(Give1(st, Head(line)[1], Head(line)[2], Head(line)[3]), Tail(line))
\* what the component gets
Value(o, given) == CASE o.kind = "yes" -> IF given = <<>> THEN "False" ELSE "True"
                     [] o.kind = "no" -> IF given = <<>> THEN "True" ELSE "False"
                     [] OTHER -> IF given = <<>> THEN o.def ELSE given[Len(given)]
Gets(comp, st) == {<<comp[k].arg, Value(comp[k], st[k])>> : k \in DOMAIN comp}

InitSt(i) == <<>>
\* e.comps: components, e.line: <<component, option, value>>, e.obs[c]: pairs <<argument, value>> for the component,
\* e.built[c]: pairs of the object made with them, whose values are those of the arguments that the object keeps
Judge(s, e) ==
  IF e.exc # "" THEN Bad(s, "the command line could not be used")
  ELSE LET st == Read(Clear(e.comps), e.line)
       IN IF Len(e.obs) # Len(e.comps) THEN Bad(s, "components")
          ELSE IF \E c \in DOMAIN e.comps : \E p \in Gets(e.comps[c], st[c]) : p \notin Rng(e.obs[c]) THEN Bad(s, "an option does not reach the component, or its value when absent is not kept")
          ELSE IF \E c \in DOMAIN e.comps : \E p, q \in Rng(e.obs[c]) : p[1] = q[1] /\ p # q THEN Bad(s, "argument twice")
          ELSE IF \E c \in DOMAIN e.comps : \E p \in Rng(e.obs[c]) : p[1] \notin {e.comps[c][k].arg : k \in DOMAIN e.comps[c]} /\ p[1] \notin Rng(e.extra[c]) THEN Bad(s, "argument that is not of the component")
          ELSE IF \E c \in DOMAIN e.comps : \E p \in Rng(e.built[c]) : p \notin Gets(e.comps[c], st[c]) THEN Bad(s, "the object does not have the values given")
          ELSE Good(s)
=============================================================================
