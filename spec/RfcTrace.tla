--------------------------------- MODULE RfcTrace ---------------------------------
(* Validation of recorded calls of the URI library against Rfc.tla (C28). *)
EXTENDS Rfc, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, cnt
vars == <<l, cnt>>
Ev == Trace[l]

Seq5(c) == <<c.scheme, c.auth, c.path, c.query, c.frag>>
Seq4(c) == <<c.user, c.pw, c.host, c.port>>
Rec5(s) == [scheme |-> s[1], auth |-> s[2], path |-> s[3], query |-> s[4], frag |-> s[5]]
Rec4(s) == [user |-> s[1], pw |-> s[2], host |-> s[3], port |-> s[4]]
(* split or parse and join again *)
Want(ev) ==
  CASE ev.op = "split"     -> <<Seq5(Split(ev.text)), ev.text>>
    [] ev.op = "unsplit"   -> <<Unsplit(Rec5(ev.parts))>>
    [] ev.op = "authority" -> <<Seq4(SplitAuthority(ev.text)), ev.text>>
    [] ev.op = "unauthority" -> <<JoinAuthority(Rec4(ev.parts))>>
    [] ev.op = "parse"     -> LET x == ParseUrl(ev.text, ev.given) IN <<x, UnparseUrl(x), x>>
    [] ev.op = "mail"      -> LET x == ParseMail(ev.text) IN <<x, ev.text, x>>
    [] ev.op = "join"      -> <<Unsplit(Resolve(ev.base, ev.text))>>
Right(ev) ==
  IF Len(ev.res) # Len(Want(ev)) THEN FALSE
  ELSE IF ev.op = "join" THEN ev.res = Want(ev) \/ SameUri(Resolve(ev.base, ev.text), Generic(ev.res[1]))
  ELSE ev.res = Want(ev)

Init == l = 2 /\ cnt = [judged |-> 0, bad |-> 0]
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ok == Right(Ev) IN
     /\ cnt' = [cnt EXCEPT !.judged = @ + 1, !.bad = @ + (IF ok THEN 0 ELSE 1)]
     /\ IF ok THEN TRUE ELSE PrintT("BAD " \o ToString(l) \o " " \o Ev.op \o " expected " \o ToString(Want(Ev)))
  /\ IF l < Len(Trace) THEN TRUE ELSE PrintT("DONE " \o ToJson(cnt'))
Spec == Init /\ [][Next]_vars
===============================================================================
