--------------------------------- MODULE UriTrace ---------------------------------
(***************************************************************************)
(* Validation of recorded executions against Uri.tla (C01-C04, C27).        *)
(*                                                                          *)
(* A history works on slots holding URI objects.  Every record is one call; *)
(* pr is what the object in slot d reports afterwards, prs what the object   *)
(* the call was made on reports (calls other than setters don't change it).  *)
(***************************************************************************)
EXTENDS Uri, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Hdr   == Trace[1]
Prop  == Hdr.prop
Registered == {Hdr.reg[i] : i \in DOMAIN Hdr.reg}

VARIABLES l, S, tok, cnt
vars == <<l, S, tok, cnt>>
Ev == Trace[l]

MapOf(pairs) == [k \in {pairs[i][1] : i \in DOMAIN pairs} |->
                   LET i == CHOOSE j \in DOMAIN pairs : pairs[j][1] = k IN pairs[i][2]]

-------------------------------------------------------------------------------
Derivations == {"join", "div", "split", "dir", "suffix", "copycon"}
Setters == {"setscheme", "setquery", "delquery"}

(* The value in slot d after the call. *)
Result(ev) ==
  LET u == IF ev.op = "new" THEN Parse(ev.text, MapOf(ev.ex), ev.sep) ELSE S[ev.s] IN
  CASE ev.op = "join"      -> Join(u, ev.args)
    [] ev.op = "div"       -> Join(u, ev.args)
    [] ev.op = "split"     -> Split(u)[1]
    [] ev.op = "dir"       -> Directory(u, ev.n)
    [] ev.op = "suffix"    -> Suffix(u, ev.args[1])
    [] ev.op = "setscheme" -> SetScheme(u, ev.args[1])
    [] ev.op = "setquery"  -> SetQuery(u, ev.args[1], ev.args[2])
    [] ev.op = "delquery"  -> DelQuery(u, ev.args[1])
    [] ev.op = "reparse"   -> Parse(Text(u), NoMap, u.sep)
    [] OTHER               -> u

Answer(ev) ==
  LET u == S[ev.s] IN
  CASE ev.op = "split"    -> <<Split(u)[2]>>
    [] ev.op = "basename" -> <<Basename(u)>>
    [] ev.op = "last"     -> <<LastName(u)>>
    [] ev.op = "splitext" -> Splitext(Basename(u))
    [] ev.op = "eq"       -> <<IF Equal(u, S[ev.s2]) THEN "T" ELSE "F">>
    [] ev.op = "eqother"  -> <<"F">>
    [] OTHER              -> <<>>

(* Clauses: the reports of an object against the value it should denote. *)
Fields(u, pr) == /\ pr.sch = u.sch /\ pr.user = u.user /\ pr.pw = u.pw /\ pr.host = u.host
                 /\ pr.port = u.port /\ pr.arch = u.arch /\ MapOf(pr.q) = u.q
Path(u, pr) == pr.path = PathText(u) /\ pr.uni = UniPath(u) /\ pr.abs = IsAbsolute(u)
SaysSo(u, pr) ==
  LET v == Parse(pr.str, NoMap, u.sep) IN
  IF u.local THEN v.path = u.path
  ELSE IF IsHttp(u.sch) /\ u.host = "" THEN TRUE
  ELSE /\ Equal(u, v) /\ v.au = u.au /\ v.ap = u.ap /\ v.frag = u.frag
Connects(u, pr) ==
  IF pr.tok = "" THEN TRUE
  ELSE IF u.sch \notin Registered THEN pr.tok = "NoSchemeError"
  ELSE /\ IF Key(u) \in DOMAIN tok THEN tok[Key(u)] = pr.tok
          ELSE \A k \in DOMAIN tok : tok[k] # pr.tok
Receives(u, pr) ==
  IF pr.tok \in {"", "NoSchemeError"} THEN TRUE
  ELSE /\ pr.conn.host = u.host /\ pr.conn.port = u.port /\ pr.conn.user = u.user /\ pr.conn.pw = u.pw
       /\ pr.conn.arch = u.arch /\ MapOf(pr.conn.args) = Args(u)

-------------------------------------------------------------------------------
Bad(clause, exp, obs) ==
  PrintT("BAD " \o ToString(l) \o " " \o clause \o " expected " \o ToString(exp) \o " observed " \o ToString(obs))

Check(ok, clause, exp, obs) == IF ok THEN TRUE ELSE Bad(clause, exp, obs)

JudgesResult(ev) ==
  CASE Prop = "C01" -> ev.op \in {"join", "div", "split", "dir", "suffix", "basename", "last", "splitext"}
    [] Prop = "C03" -> ev.op \in {"eq", "eqother"}
    [] Prop = "C27" -> ev.op \in {"split", "basename", "last", "splitext", "eq"}
    [] OTHER -> FALSE
JudgesFields(ev) ==
  CASE Prop = "C02" -> ev.op \in Derivations
    [] Prop = "C03" -> ev.op = "reparse"
    [] Prop = "C04" -> ev.op = "new"
    [] OTHER -> FALSE
JudgesPath(ev) ==
  CASE Prop = "C01" -> ev.op \in Derivations
    [] Prop = "C03" -> ev.op = "reparse"
    [] Prop = "C04" -> ev.op = "new"
    [] Prop = "C27" -> TRUE
    [] OTHER -> FALSE
JudgesText(ev) == Prop = "C03"
JudgesConn(ev) == Prop = "C02"

Init == l = 2 /\ S = [x \in {} |-> ""] /\ tok = [x \in {} |-> ""] /\ cnt = [judged |-> 0, bad |-> 0]

Step ==
  LET ev == Ev
      u == Result(ev)
      ans == Answer(ev)
      failed == ev.err # ""
      r == ~JudgesResult(ev) \/ ans = ev.res
      has == ev.d # ""
      f == ~(has /\ JudgesFields(ev)) \/ Fields(u, ev.pr)
      p == ~(has /\ JudgesPath(ev)) \/ Path(u, ev.pr)
      t == ~(has /\ JudgesText(ev)) \/ SaysSo(u, ev.pr)
      c == ~(has /\ JudgesConn(ev)) \/ (Connects(u, ev.pr) /\ Receives(u, ev.pr))
      \* the object the call was made on still says what it said
      src == ev.op \in {"new"} \cup Setters \/ ev.s = "" \/ (Path(S[ev.s], ev.prs) /\ Fields(S[ev.s], ev.prs))
      ok == ~failed /\ r /\ f /\ p /\ t /\ c /\ src
      owns == JudgesResult(ev) \/ JudgesFields(ev) \/ JudgesPath(ev) \/ JudgesText(ev) \/ JudgesConn(ev) IN
  /\ S' = IF has THEN Put(S, ev.d, u) ELSE S
  /\ tok' = IF has /\ ev.err = "" /\ ev.pr.tok \notin {"", "NoSchemeError"} /\ Key(u) \notin DOMAIN tok
            THEN Put(tok, Key(u), ev.pr.tok) ELSE tok
  /\ cnt' = [judged |-> cnt.judged + (IF owns THEN 1 ELSE 0), bad |-> cnt.bad + (IF owns /\ ~ok THEN 1 ELSE 0)]
  /\ IF ~owns THEN TRUE
     ELSE IF failed THEN Bad("error", u, ev.err)
     ELSE /\ Check(r, "result", ans, ev.res)
          /\ Check(f, "fields", u, ev.pr)
          /\ Check(p, "path", PathText(u), ev.pr)
          /\ Check(t, "text", Text(u), ev.pr.str)
          /\ Check(c, "connection", <<u, Get(tok, Key(u))>>, ev.pr)
          /\ Check(src, "source", IF ev.s = "" THEN "" ELSE S[ev.s], ev.prs)

Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ IF Ev.op = "reset" THEN S' = [x \in {} |-> ""] /\ tok' = (IF Ev.all THEN [x \in {} |-> ""] ELSE tok) /\ cnt' = cnt
           ELSE Step
        /\ IF l < Len(Trace) THEN TRUE ELSE PrintT("DONE " \o ToJson(cnt'))
Spec == Init /\ [][Next]_vars
===============================================================================
