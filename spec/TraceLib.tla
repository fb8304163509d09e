------------------------------ MODULE TraceLib ------------------------------
(* Judging recorded behaviours.  A trace file holds a sequence of behaviours, *)
(* each a record [init |-> .., ev |-> <<event, ...>>].  The module that       *)
(* instantiates TraceLib provides                                             *)
(*   InitSt(x)    the abstract state a behaviour starts in                    *)
(*   Judge(s, e)  a record [ok, why, st]: whether the specification permits   *)
(*                event e in state s, the clause that forbids it, and the     *)
(*                next abstract state.                                        *)
(* A forbidden event is printed as @@BAD and ends its behaviour; a behaviour  *)
(* whose every event was permitted is printed as @@END.                       *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS InitSt(_), Judge(_, _), Bs
VARIABLES b, l, st, bad
tvars == <<b, l, st, bad>>

TraceInit == /\ b \in 1..Len(Bs)
             /\ l = 0
             /\ st = InitSt(Bs[b].init)
             /\ bad = FALSE
             /\ IF Len(Bs[b].ev) > 0 THEN TRUE ELSE PrintT("@@END " \o ToJson(<<b>>))

TraceNext == /\ ~bad
             /\ l < Len(Bs[b].ev)
             /\ LET j == Judge(st, Bs[b].ev[l + 1])
                IN /\ st' = j.st
                   /\ bad' = ~j.ok
                   /\ IF j.ok
                      THEN (IF l + 1 < Len(Bs[b].ev) THEN TRUE ELSE PrintT("@@END " \o ToJson(<<b>>)))
                      ELSE PrintT("@@BAD " \o ToJson(<<b, l + 1, j.why>>))
             /\ l' = l + 1
             /\ b' = b

TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
