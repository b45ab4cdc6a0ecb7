--------------------------------- MODULE Registry ---------------------------------
(***************************************************************************)
(* The registry of connections, by what can be seen of it (C05, C06, C07):   *)
(* threads ask for the connection of an identity (call .. ret/err), the      *)
(* factory makes connections (made/fail), clean-ups (cleanup .. cleaned)     *)
(* close them (closing .. closed).  Several calls may be in progress at once *)
(* and within another one.                                                  *)
(*                                                                          *)
(* Faults(R, e) names what is wrong with event e in state R; After(R, e) is   *)
(* the state after it.                                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

NoFun == [x \in {} |-> 0]
Set(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

(* conns: every connection ever made; calls: per thread the calls it is in;  *)
(* cleans: per thread the clean-up it is in; interval: 0 unless the cleaner   *)
(* thread runs.                                                             *)
Start(now, timeout, interval, schemes) ==
  [now |-> now, timeout |-> timeout, interval |-> interval, schemes |-> schemes,
   conns |-> NoFun, calls |-> NoFun, cleans |-> NoFun]

Calls(R, t) == IF t \in DOMAIN R.calls THEN R.calls[t] ELSE <<>>
Call(R, t) == LET s == Calls(R, t) IN s[Len(s)]

Known(R, c) == c \in DOMAIN R.conns
Live(R, c) == Known(R, c) /\ R.conns[c].st # "closed"
Open(R, c) == Known(R, c) /\ R.conns[c].st = "open"
OpenFor(R, k) == {c \in DOMAIN R.conns : R.conns[c].key = k /\ Open(R, c)}
Idle(R, c) == R.now - R.conns[c].used
Stale(R, c) == Open(R, c) /\ Idle(R, c) > R.timeout

(* What the clean-up that t is in may do: only the cleaner thread closes     *)
(* without having been asked.                                               *)
Forced(R, t) == t \in DOMAIN R.cleans /\ R.cleans[t].force

InCall(R, k) == \E t \in DOMAIN R.calls : \E i \in DOMAIN R.calls[t] : R.calls[t][i].key = k

Faults(R, e) ==
  CASE e.op = "made" ->
         (IF \E c \in DOMAIN R.conns : R.conns[c].key = e.key /\ Live(R, c) THEN {"second-connection"} ELSE {}) \cup
         (IF Calls(R, e.t) = <<>> \/ Call(R, e.t).key # e.key THEN {"wrong-identity"} ELSE {})
    [] e.op = "ret" ->
         LET call == Call(R, e.t) IN
         IF ~Known(R, e.c)
         THEN IF OpenFor(R, call.key) # {} THEN {"not-the-registered-connection"} ELSE {}
         ELSE (IF R.conns[e.c].key # call.key THEN {"other-identity"} ELSE {}) \cup
              (IF ~Open(R, e.c) /\ ~call.forced THEN {"closed-connection"} ELSE {}) \cup
              (IF call.key[1] \notin R.schemes THEN {"unregistered-scheme"} ELSE {})
    [] e.op = "done" ->
         LET call == Call(R, e.t) IN
         IF OpenFor(R, call.key) = {} /\ ~call.forced THEN {"no-connection"} ELSE {}
    [] e.op = "err" ->
         LET call == Call(R, e.t) IN
         IF call.key[1] \notin R.schemes
         THEN IF e.what = "NoSchemeError" THEN {} ELSE {"wrong-error"}
         ELSE IF call.failed /\ e.what = "FactoryError" THEN {} ELSE {"error"}
    [] e.op = "closing" ->
         IF ~Open(R, e.c) THEN {"closed-twice"}
         ELSE IF ~Forced(R, e.t) /\ ~Stale(R, e.c) THEN {"closed-in-use"} ELSE {}
    [] e.op = "cleaned" ->
         IF DOMAIN R.cleans # {e.t} \/ R.interval # 0 THEN {}
         ELSE IF \E c \in R.cleans[e.t].must : Open(R, c) THEN {"left-open"} ELSE {}
    [] e.op = "time" ->
         IF R.interval # 0 /\ \E c \in DOMAIN R.conns :
              Open(R, c) /\ ~InCall(R, R.conns[c].key) /\ Idle([R EXCEPT !.now = e.now], c) > R.timeout + R.interval + 3
         THEN {"never-cleaned"} ELSE {}
    [] e.op = "stopped" -> (IF e.alive THEN {"cleaner-still-running"} ELSE {}) \cup
                           (IF \E c \in DOMAIN R.conns : Open(R, c) THEN {"left-open"} ELSE {})
    [] e.op = "deadlock" -> {"deadlock"}
    [] e.op = "raised" -> {"cleanup-raised"}
    [] OTHER -> {}

(* a connection in use need not be closed by clean-ups in progress *)
Spare(cleans, cs) == [t \in DOMAIN cleans |-> IF cleans[t].force THEN cleans[t]
                                               ELSE [cleans[t] EXCEPT !.must = @ \ cs]]
Used(R, cs) == [R.conns EXCEPT ![CHOOSE c \in cs : TRUE].used = R.now]

After(R, e) ==
  CASE e.op = "call" ->
         [R EXCEPT !.calls = Set(@, e.t, Append(Calls(R, e.t),
                               [key |-> e.key, failed |-> FALSE,
                                forced |-> \E t \in DOMAIN R.cleans : R.cleans[t].force])),
                   !.cleans = Spare(@, OpenFor(R, e.key))]
    [] e.op = "made" ->
         [R EXCEPT !.conns = Set(@, e.c, [key |-> e.key, st |-> "open", used |-> R.now])]
    [] e.op = "fail" ->
         [R EXCEPT !.calls[e.t][Len(R.calls[e.t])].failed = TRUE]
    [] e.op \in {"ret", "done", "err"} ->
         LET s == Calls(R, e.t)
             k == Call(R, e.t).key
             cs == IF e.op = "ret" THEN {e.c} ELSE IF e.op = "done" THEN OpenFor(R, k) ELSE {}
             new == IF e.op = "ret" /\ ~Known(R, e.c)
                    THEN Set(R.conns, e.c, [key |-> k, st |-> "open", used |-> R.now])
                    ELSE IF cs = {} THEN R.conns
                    ELSE Used(R, cs) IN
         [R EXCEPT !.calls = IF Len(s) = 1 THEN Drop(@, e.t) ELSE Set(@, e.t, SubSeq(s, 1, Len(s) - 1)),
                   !.conns = new, !.cleans = Spare(@, cs)]
    [] e.op = "closing" -> IF Known(R, e.c) THEN [R EXCEPT !.conns[e.c].st = "closing"] ELSE R
    [] e.op = "closed" -> IF Known(R, e.c) THEN [R EXCEPT !.conns[e.c].st = "closed"] ELSE R
    [] e.op = "cleanup" ->
         [R EXCEPT !.cleans = Set(@, e.t, [force |-> e.force,
                     must |-> {c \in DOMAIN R.conns : Open(R, c) /\ (e.force \/ Stale(R, c)) /\ ~InCall(R, R.conns[c].key)}]),
                   !.calls = IF ~e.force THEN @
                             ELSE [t \in DOMAIN @ |-> [i \in DOMAIN @[t] |-> [@[t][i] EXCEPT !.forced = TRUE]]]]
    [] e.op = "cleaned" ->
         [R EXCEPT !.cleans = Drop(@, e.t)]
    [] e.op = "time" -> [R EXCEPT !.now = e.now]
    [] OTHER -> R

(* What always holds of a state reached without faults. *)
OneConnection(R) == \A c, d \in DOMAIN R.conns :
                      c # d /\ R.conns[c].key = R.conns[d].key => ~(Live(R, c) /\ Live(R, d))
===============================================================================
