-------------------------------- MODULE FaultTrace --------------------------------
(***************************************************************************)
(* Validation of recorded calls with an injected fault against Fault.tla.     *)
(* A reset record gives the world; every fault record is a call made on that  *)
(* very world (it is set up again each time), with one fault.                 *)
(***************************************************************************)
EXTENDS Fault, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Hdr   == Trace[1]
HOrd  == Hdr.ord
HToks == Hdr.toks
HDial == Hdr.dial

VARIABLES l, W, cnt
vars == <<l, W, cnt>>
Ev == Trace[l]
TreeOf(nodes) == LET idx == [p \in {nodes[i][1] : i \in DOMAIN nodes} |->
                               CHOOSE i \in DOMAIN nodes : nodes[i][1] = p]
                 IN [p \in DOMAIN idx |-> nodes[idx[p]][2]]
Over(w, post) == [b \in DOMAIN w |-> IF b \in DOMAIN post THEN TreeOf(post[b]) ELSE w[b]]

Init == l = 2 /\ W = [b \in DOMAIN Dial |-> EmptyTree(Dial[b])]
        /\ cnt = [judged |-> 0, skipped |-> 0, bad |-> 0, cases |-> 0, failed |-> 0]
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ IF Ev.op = "reset"
     THEN W' = Over(W, Ev.post) /\ cnt' = [cnt EXCEPT !.cases = @ + 1]
     ELSE /\ W' = W
          /\ IF ~Faulty(W, Ev) THEN cnt' = [cnt EXCEPT !.skipped = @ + 1]
             ELSE LET faults == IF Ev.unseen # "" THEN {"tree damaged"}
                                ELSE FaultClauses(W, Ev, Ev, Over(W, Ev.post), Over(W, Ev.post2)) IN
                  /\ cnt' = [cnt EXCEPT !.judged = @ + 1, !.bad = @ + (IF faults = {} THEN 0 ELSE 1),
                                        !.failed = @ + (IF Ev.res[1] = "err" THEN 1 ELSE 0)]
                  /\ IF faults = {} THEN TRUE
                     ELSE PrintT("BAD " \o ToString(l) \o " " \o ToString(faults) \o " " \o Ev.op \o " fault " \o Ev.fault
                                 \o " result " \o ToString(Ev.res))
  /\ IF l < Len(Trace) THEN TRUE ELSE PrintT("DONE " \o ToJson(cnt'))
Spec == Init /\ [][Next]_vars
===============================================================================
