------------------------------- MODULE HandleTrace -------------------------------
(* Validation of recorded sessions against Handle.tla (C19). *)
EXTENDS Handle, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
NoFun == [x \in {} |-> 0]
Set(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

VARIABLES l, D, S, cnt       \* the files' bytes, the sessions
vars == <<l, D, S, cnt>>
Ev == Trace[l]

Init == l = 2 /\ D = NoFun /\ S = NoFun /\ cnt = [judged |-> 0, bad |-> 0, cases |-> 0]

(* [faults, D, S] *)
Judge(ev) ==
  CASE ev.op = "open" ->
         LET d == IF ev.file \in DOMAIN D THEN D[ev.file] ELSE <<>>
             ok == ev.file \in DOMAIN D \/ ev.mode \notin {"r", "rb", "rp", "rbp"} IN
         [want |-> IF ok THEN <<"none">> ELSE <<"err">>,
          D |-> IF ok THEN Set(D, ev.file, Opened(ev.mode, d)) ELSE D,
          S |-> IF ok THEN Set(S, ev.h, Open(ev.mode, d)) ELSE S]
    [] ev.op = "size" -> [want |-> <<"int", Len(D[ev.file])>>, D |-> D, S |-> S]
    [] OTHER ->
         LET x == Step(S[ev.h], D[ev.file], ev) IN
         [want |-> x.res, D |-> [D EXCEPT ![ev.file] = x.d], S |-> [S EXCEPT ![ev.h].pos = x.pos]]

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ IF Ev.op = "reset"
     THEN D' = NoFun /\ S' = NoFun /\ cnt' = [cnt EXCEPT !.cases = @ + 1]
     ELSE LET j == Judge(Ev) IN
          /\ D' = j.D /\ S' = j.S
          /\ cnt' = [cnt EXCEPT !.judged = @ + 1, !.bad = @ + (IF j.want = Ev.res THEN 0 ELSE 1)]
          /\ IF j.want = Ev.res THEN TRUE
             ELSE PrintT("BAD " \o ToString(l) \o " " \o Ev.op \o " expected " \o ToString(j.want) \o " got " \o ToString(Ev.res))
  /\ IF l < Len(Trace) THEN TRUE ELSE PrintT("DONE " \o ToJson(cnt'))
Spec == Init /\ [][Next]_vars
===============================================================================
