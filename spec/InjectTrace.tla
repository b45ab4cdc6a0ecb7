------------------------------- MODULE InjectTrace -------------------------------
(* Validation of recorded operations on memory file systems against Inject.tla. *)
EXTENDS Inject, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, C, M, K, cnt
vars == <<l, C, M, K, cnt>>
Ev == Trace[l]
Init == l = 2 /\ C = NoFun /\ M = NoFun /\ K = {} /\ cnt = [judged |-> 0, bad |-> 0, cases |-> 0]

Fun(ts) == [p \in {ts[i][1] : i \in DOMAIN ts} |-> (CHOOSE i \in DOMAIN ts : ts[i][1] = p)]
Times(ts) == LET f == Fun(ts) IN [p \in DOMAIN f |-> ts[f[p]][2]]

(* [faults, C, K] *)
Judge(e, now) ==
  CASE e.op = "callback" -> [faults |-> IF now = M /\ e.same THEN {} ELSE {"manipulation"},
                             C |-> IF e.kind = "none" THEN Drop(C, e.p) ELSE Set(C, e.p, [id |-> e.id, kind |-> e.kind]), K |-> K]
    [] e.op = "hold" -> [faults |-> IF now = M /\ e.same THEN {} ELSE {"manipulation"}, C |-> C, K |-> K \cup {e.real}]
    [] e.op = "release" -> [faults |-> IF now = M /\ e.same THEN {} ELSE {"manipulation"}, C |-> C, K |-> K \ {e.real}]
    [] e.op = "give" -> [faults |-> IF GivenTimes(M, e, now) /\ e.same THEN {} ELSE {"manipulation"}, C |-> C, K |-> K]
    [] OTHER -> [faults |-> Faults(C, K, e) \cup TimeFaults(M, K, e, now), C |-> After(C, e), K |-> K]

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ M' = Times(Ev.times)
  /\ IF Ev.op = "reset"
     THEN C' = NoFun /\ K' = {} /\ cnt' = [cnt EXCEPT !.cases = @ + 1]
     ELSE LET j == Judge(Ev, Times(Ev.times)) IN
          /\ C' = j.C /\ K' = j.K
          /\ cnt' = [cnt EXCEPT !.judged = @ + 1, !.bad = @ + (IF j.faults = {} THEN 0 ELSE 1)]
          /\ IF j.faults = {} THEN TRUE
             ELSE PrintT("BAD " \o ToString(l) \o " " \o Ev.op \o " " \o ToString(j.faults))
  /\ IF l < Len(Trace) THEN TRUE ELSE PrintT("DONE " \o ToJson(cnt'))
Spec == Init /\ [][Next]_vars
===============================================================================
