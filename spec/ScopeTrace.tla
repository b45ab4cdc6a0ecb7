---------------------------------- MODULE ScopeTrace ----------------------------------
(* Validation of recorded scopes against Scope.tla (C26). *)
EXTENDS Scope, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, W, off, cnt      \* off: the case has left the specification
vars == <<l, W, off, cnt>>
Ev == Trace[l]
Range(s) == {s[i] : i \in DOMAIN s}
Fun(ts) == LET ps == {ts[i][1] : i \in DOMAIN ts}
               at == [p \in ps |-> CHOOSE i \in DOMAIN ts : ts[i][1] = p] IN [p \in ps |-> ts[at[p]][2]]
Init == l = 2 /\ W = World0({}, NoFun, NoFun) /\ off = FALSE /\ cnt = [judged |-> 0, bad |-> 0, cases |-> 0]

Faults(x, ev) ==
  (IF x.res = ev.res THEN {} ELSE {"result " \o ToString(x.res)})
  \cup (IF x.W.cwd = ev.cwd THEN {} ELSE {"directory " \o ToString(x.W.cwd)})
  \cup (IF x.W.files = Fun(ev.files) THEN {} ELSE {"files " \o ToString(x.W.files)})
  \cup (IF ev.swallowed THEN {"swallowed"} ELSE {})

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ IF Ev.op = "reset"
     THEN off' = FALSE /\ W' = World0(Range(Ev.dirs), Fun(Ev.files), Fun(Ev.links)) /\ cnt' = [cnt EXCEPT !.cases = @ + 1]
     ELSE IF off THEN UNCHANGED <<W, off, cnt>>
     ELSE LET x == Step(W, Ev)
              fs == Faults(x, Ev) IN
          /\ W' = x.W /\ off' = (fs # {})
          /\ cnt' = [cnt EXCEPT !.judged = @ + 1, !.bad = @ + (IF fs = {} THEN 0 ELSE 1)]
          /\ IF fs = {} THEN TRUE ELSE PrintT("BAD " \o ToString(l) \o " " \o Ev.op \o " " \o ToString(fs))
  /\ IF l < Len(Trace) THEN TRUE ELSE PrintT("DONE " \o ToJson(cnt'))
Spec == Init /\ [][Next]_vars
===============================================================================
