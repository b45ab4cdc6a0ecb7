--------------------------------- MODULE ZipTrace ---------------------------------
(* Validation of recorded uses of archives against Zip.tla (C22, C23). *)
EXTENDS Zip, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == Trace[1].prop
C22ops == {"read", "std", "write"}
C23ops == {"exists", "isfile", "isdir", "list", "walk"}

VARIABLES l, A, cnt
vars == <<l, A, cnt>>
Ev == Trace[l]

Of(x) == [files |-> [p \in {x.files[i][1] : i \in DOMAIN x.files} |->
                      LET i == CHOOSE j \in DOMAIN x.files : x.files[j][1] = p IN x.files[i][2]],
          dirs |-> {x.dirs[i] : i \in DOMAIN x.dirs}]
Mixed(a) == \E p \in DOMAIN a.files : IsDir(a, p)
Want(ev) == CASE ev.op = "std" -> <<"same">>
              [] ev.op \in {"write", "close"} -> <<"none">>
              [] OTHER -> Answer(A, ev)
Fault(ev) ==
  CASE ev.op = "std" -> ev.res[1] # "zip" \/ Of(ev.res[2]).files # A.files
    [] ev.op = "walk" /\ Mixed(A) -> FALSE
    [] OTHER -> ev.res # Want(ev)
Judged(ev) == IF Prop = "C22" THEN ev.op \in C22ops ELSE ev.op \in C23ops

Init == l = 2 /\ A = NoArchive /\ cnt = [judged |-> 0, bad |-> 0, cases |-> 0]
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ IF Ev.op = "reset" THEN A' = Of(Ev.archive) /\ cnt' = [cnt EXCEPT !.cases = @ + 1]
     ELSE LET bad == IF Judged(Ev) THEN Fault(Ev) ELSE FALSE IN
          /\ A' = IF Ev.op = "write" THEN Write(A, Ev.path, Ev.data) ELSE A
          /\ cnt' = [cnt EXCEPT !.judged = @ + (IF Judged(Ev) THEN 1 ELSE 0), !.bad = @ + (IF bad THEN 1 ELSE 0)]
          /\ IF bad THEN PrintT("BAD " \o ToString(l) \o " " \o Ev.op \o " expected " \o ToString(Want(Ev)) \o " of " \o ToString(A)) ELSE TRUE
  /\ IF l < Len(Trace) THEN TRUE ELSE PrintT("DONE " \o ToJson(cnt'))
Spec == Init /\ [][Next]_vars
===============================================================================
