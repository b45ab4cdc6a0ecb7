--------------------------------- MODULE RegTrace ---------------------------------
(***************************************************************************)
(* Validation of recorded executions against Registry.tla (C05-C07).         *)
(* The header lists the identities used, as text and extra arguments;        *)
(* Uri.tla says what identity that is.                                        *)
(***************************************************************************)
EXTENDS Registry, Json, IOUtils

U == INSTANCE Uri

Trace == ndJsonDeserialize(IOEnv.TRACE)
Hdr   == Trace[1]
Registered == {Hdr.reg[i] : i \in DOMAIN Hdr.reg}

MapOf(pairs) == [k \in {pairs[i][1] : i \in DOMAIN pairs} |->
                   LET i == CHOOSE j \in DOMAIN pairs : pairs[j][1] = k IN pairs[i][2]]
Identity(x) == U!Key(U!Parse(x.text, MapOf(x.ex), "/"))
Keys == [i \in DOMAIN Hdr.keys |-> Identity(Hdr.keys[i])]
Ident(x) == <<x.sch, x.host, x.port, x.user, x.pw, x.arch, MapOf(x.args)>>

VARIABLES l, R, F, cnt
vars == <<l, R, F, cnt>>
Ev == Trace[l]

Event(ev) ==
  CASE ev.op \in {"call", "fs"} -> [ev EXCEPT !.key = Keys[ev.key]]
    [] ev.op = "made" -> [ev EXCEPT !.key = Ident(ev.key)]
    [] OTHER -> ev

(* The contents of memory file systems and the locks held, per identity. *)
Empty == [files |-> NoFun, locks |-> {}]
Space(k) == IF k \in DOMAIN F THEN F[k] ELSE Empty
Names(m) == DOMAIN m
FsResult(ev) ==
  LET s == Space(ev.key) IN
  CASE ev.what = "read"  -> IF ev.name \in DOMAIN s.files THEN <<"ok", s.files[ev.name]>> ELSE <<"err", "IOError">>
    [] ev.what = "exists" -> <<"ok", IF ev.name \in DOMAIN s.files THEN "T" ELSE "F">>
    [] ev.what = "lock"  -> IF ev.name \in s.locks THEN <<"err", "LockFileObtainException">> ELSE <<"ok", "">>
    [] ev.what = "list"  -> <<"ok", "">>
    [] OTHER -> <<"ok", "">>
FsFault(ev) ==
  \/ ev.res # FsResult(ev)
  \/ ev.what = "list" /\ {ev.names[i] : i \in DOMAIN ev.names} # DOMAIN Space(ev.key).files
FsAfter(ev) ==
  LET s == Space(ev.key) IN
  CASE ev.what = "write" -> [s EXCEPT !.files = Set(@, ev.name, ev.data)]
    [] ev.what = "lock" /\ ev.name \notin s.locks ->
         [files |-> Set(s.files, ev.name, ""), locks |-> s.locks \cup {ev.name}]
    [] ev.what = "unlock" -> [s EXCEPT !.locks = @ \ {ev.name}]
    [] OTHER -> s

-------------------------------------------------------------------------------
Init == l = 2 /\ R = Start(0, 0, 0, {}) /\ F = NoFun /\ cnt = [judged |-> 0, bad |-> 0, cases |-> 0]

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ IF Ev.op = "reset"
     THEN R' = Start(Ev.now, Ev.timeout, Ev.interval, Registered) /\ F' = NoFun /\ cnt' = [cnt EXCEPT !.cases = @ + 1]
     ELSE LET ev == Event(Ev)
              faults == IF ev.op = "fs" THEN (IF FsFault(ev) THEN {"isolation"} ELSE {}) ELSE Faults(R, ev) IN
          /\ R' = After(R, ev)
          /\ F' = IF ev.op = "fs" THEN Set(F, ev.key, FsAfter(ev)) ELSE F
          /\ cnt' = [cnt EXCEPT !.judged = @ + 1, !.bad = @ + (IF faults = {} THEN 0 ELSE 1)]
          /\ IF faults = {} THEN TRUE
             ELSE PrintT("BAD " \o ToString(l) \o " " \o ToString(faults) \o " " \o ToString(ev) \o
                         (IF ev.op = "fs" THEN " expected " \o ToString(FsResult(ev)) ELSE ""))
  /\ IF l < Len(Trace) THEN TRUE ELSE PrintT("DONE " \o ToJson(cnt'))
Spec == Init /\ [][Next]_vars
===============================================================================
