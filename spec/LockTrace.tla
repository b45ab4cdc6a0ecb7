--------------------------------- MODULE LockTrace ---------------------------------
(* Validation of recorded executions against Lock.tla (C20). *)
EXTENDS Lock, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
MapOf(pairs) == [k \in {pairs[i][1] : i \in DOMAIN pairs} |->
                   LET i == CHOOSE j \in DOMAIN pairs : pairs[j][1] = k IN pairs[i][2]]

VARIABLES l, L, cnt
vars == <<l, L, cnt>>
Ev == Trace[l]

Init == l = 2 /\ L = LStart(NoFun, {}) /\ cnt = [judged |-> 0, bad |-> 0, cases |-> 0]
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ IF Ev.op = "reset"
     THEN /\ L' = LStart(MapOf(Ev.files), {Ev.broken[i] : i \in DOMAIN Ev.broken})
          /\ cnt' = [cnt EXCEPT !.cases = @ + 1]
     ELSE LET faults == LFaults(L, Ev) IN
          /\ L' = LAfter(L, Ev)
          /\ cnt' = [cnt EXCEPT !.judged = @ + 1, !.bad = @ + (IF faults = {} THEN 0 ELSE 1)]
          /\ IF faults = {} THEN TRUE ELSE PrintT("BAD " \o ToString(l) \o " " \o ToString(faults) \o " " \o ToString(Ev))
  /\ IF l < Len(Trace) THEN TRUE ELSE PrintT("DONE " \o ToJson(cnt'))
Spec == Init /\ [][Next]_vars
===============================================================================
