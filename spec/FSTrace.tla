-------------------------------- MODULE FSTrace --------------------------------
(***************************************************************************)
(* Validation of recorded executions against FS.tla and Transfer.tla.       *)
(*                                                                          *)
(* The trace file (environment variable TRACE) is a sequence of JSON        *)
(* records; the first is the header: the order of names (ord), the sizes of *)
(* content tokens (toks), the dialects (dial) and the property (prop).      *)
(* Every other record is one call of the public interface with its result   *)
(* (res) and, for backends whose tree looks different now, that tree (post). *)
(*                                                                          *)
(* The verdict is total: a step that the specification does not allow is    *)
(* reported as BAD with the failing clause, the state is synchronised with  *)
(* the observation, and the rest of the trace is checked.                   *)
(***************************************************************************)
EXTENDS VPath, Json, IOUtils

Trace  == ndJsonDeserialize(IOEnv.TRACE)
Hdr    == Trace[1]
HOrd   == Hdr.ord
HToks  == Hdr.toks
HDial  == Hdr.dial
Prop   == Hdr.prop

VARIABLES l,       \* next record
          W,       \* the world according to the specification
          O,       \* the world as last observed
          cnt      \* judged / skipped steps per operation
vars == <<l, W, O, cnt>>

Ev == Trace[l]
TreeOf(nodes) == LET idx == [p \in {nodes[i][1] : i \in DOMAIN nodes} |->
                               CHOOSE i \in DOMAIN nodes : nodes[i][1] = p]
                 IN [p \in DOMAIN idx |-> nodes[idx[p]][2]]
Observed(ev) == [b \in DOMAIN O |-> IF b \in DOMAIN ev.post THEN TreeOf(ev.post[b]) ELSE O[b]]

-------------------------------------------------------------------------------
(* Which property a call decides. *)
Owned(w, ev) ==
  CASE Prop = "C08" -> ev.op \in Queries
    [] Prop = "C09" -> ev.op \in {"mkdir", "makedirs"}
    [] Prop = "C10" -> ev.op \in {"write", "append", "read", "head", "md5", "size"}
    [] Prop = "C11" -> ev.op = "remove"
    [] Prop = "C12" -> \/ ev.op \in {"symlink", "readlink"}
                       \/ ThroughLink(w[ev.b], ev.p)
                       \/ ev.op \in Transfers \cup {"copystat"} /\ ThroughLink(w[ev.b2], ev.q)
    [] Prop = "C13" -> ev.op = "walk"
    [] Prop = "C14" -> ev.op = "copy"
    [] Prop = "C15" -> ev.op = "copytree"
    [] Prop = "C16" -> ev.op = "move"
    [] Prop = "C17" -> ev.op \in Transfers /\ ev.b # ev.b2
    [] Prop = "C18" -> ev.op \in {"mode", "mtime", "size", "isexec", "setexec", "setmode", "setmtime",
                                  "linkmode", "linkinfo", "copystat", "write", "append"}
    [] Prop = "C29" -> ev.op \in {"walk", "glob", "makedirs", "remove", "md5"} \cup Transfers
    [] OTHER -> FALSE

-------------------------------------------------------------------------------
(* Clauses.  Each is named; the verdict lists those that fail. *)
OsErr(r) == r[2] = "os"

ResOk(exp, obs) ==
  IF exp[1] # "err" THEN obs = exp
  ELSE CASE exp[2] = "NOFILE"       -> obs[1] = "err" /\ obs[2] = "nofile"
         [] exp[2] = "NOFILE_ELOOP" -> obs[1] = "err" /\ (obs[2] = "nofile" \/ obs[3] = "ELOOP")
         [] exp[2] = "ELOOP"        -> obs[1] = "err" /\ OsErr(obs) /\ obs[3] = "ELOOP"
         [] exp[2] = "SAMEFILE"     -> obs[1] \in {"err", "ok"}
         [] exp[2] \in {"ASSERT", "INSIDE", "MOVE"} -> obs[1] = "err"
         [] exp[2] = "ENOENT" /\ Prop = "C12" -> obs[1] = "err" /\ OsErr(obs) /\ obs[3] = "ENOENT"
         [] OTHER                   -> obs[1] = "err" /\ OsErr(obs)

(* Node n of the outcome is seen as m.  Between backends, modes and times of *)
(* what was transferred are not judged.                                      *)
TreeOk(ev, exp, obs) ==
  LET cross == ev.op \in Transfers /\ ev.b # ev.b2
      dest == Into(W, Loc(ev.b, ev.p), Loc(ev.b2, ev.q)).p
      may(p) == LET dl == Dial[ev.b2]
                    R  == Writable(dl, W[ev.b2], LeadsTo(dl, W[ev.b2], dest)) IN
                \E r \in R : IsUnder(p, r) IN
  \A b \in DOMAIN W :
     /\ DOMAIN exp[b] = DOMAIN obs[b]
     /\ \A p \in DOMAIN exp[b] :
          \/ exp[b][p] = obs[b][p]
          \/ cross /\ b = ev.b2 /\ Strip(exp[b][p]) = Strip(obs[b][p]) /\ may(p)

StateOk(ev, o, obs) ==
  IF o.strict THEN TreeOk(ev, o.W, obs)
  ELSE Frame(W, obs, Into(W, Loc(ev.b, ev.p), Loc(ev.b2, ev.q)))

(* What differs, for the report. *)
DiffSet(exp, obs) ==
  {bp \in {<<b, p>> : b \in DOMAIN exp, p \in UNION {DOMAIN exp[x] \cup DOMAIN obs[x] : x \in DOMAIN exp}} :
     \/ (bp[2] \in DOMAIN exp[bp[1]]) # (bp[2] \in DOMAIN obs[bp[1]])
     \/ bp[2] \in DOMAIN exp[bp[1]] /\ bp[2] \in DOMAIN obs[bp[1]] /\ exp[bp[1]][bp[2]] # obs[bp[1]][bp[2]]}
ShowDiff(exp, obs) ==
  {<<bp[1], PathStr(bp[2]),
     IF bp[2] \in DOMAIN exp[bp[1]] THEN ToString(exp[bp[1]][bp[2]]) ELSE "-",
     IF bp[2] \in DOMAIN obs[bp[1]] THEN ToString(obs[bp[1]][bp[2]]) ELSE "-">> : bp \in DiffSet(exp, obs)}

Count(k) == [cnt EXCEPT ![k] = @ + 1]
CntKeys == {"judged", "skipped", "other", "bad"}

Bad(clause, text) == PrintT("BAD " \o ToString(l) \o " " \o clause \o " " \o text)

-------------------------------------------------------------------------------
Init == /\ l = 2
        /\ O = [b \in DOMAIN Dial |-> EmptyTree(Dial[b])]
        /\ W = O
        /\ cnt = [k \in CntKeys |-> 0]

(* A new case: the tree that was set up. *)
Reset == /\ Ev.op = "reset"
         /\ O' = [b \in DOMAIN O |-> IF b \in DOMAIN Ev.post THEN TreeOf(Ev.post[b]) ELSE EmptyTree(Dial[b])]
         /\ W' = IF "want" \in DOMAIN Ev
                 THEN [b \in DOMAIN O |-> IF b \in DOMAIN Ev.want THEN TreeOf(Ev.want[b]) ELSE EmptyTree(Dial[b])]
                 ELSE O'
         /\ cnt' = cnt

(* What plugins declared is there, built-in or not, although some of them    *)
(* could not be loaded.                                                      *)
Plugins ==
  /\ Ev.op = "plugins"
  /\ IF Ev.got = <<"file", "memory", "plain", "plug", "zip">> THEN TRUE ELSE Bad("plugins", ToString(Ev.got))
  /\ UNCHANGED <<O, W>>
  /\ cnt' = Count("judged")

(* A backend without symbolic links neither makes nor reads them. *)
Refused ==
  LET ok == /\ Ev.res = <<"err", "other", "OperationIsNotSupportedOnPlatform">>
            /\ Observed(Ev) = O /\ Ev.unseen = "" IN
  /\ Ev.op = "refused"
  /\ IF ok THEN TRUE ELSE Bad("refused", ToString(Ev.res) \o ToString(ShowDiff(O, Observed(Ev))))
  /\ O' = Observed(Ev)
  /\ W' = O'
  /\ cnt' = Count("judged")

(* A recorded call.  trust: the observation is not the reference (C08). *)
Call ==
  LET ev  == Ev
      o   == Step(W, ev)
      obs == Observed(ev)
      undefined == o.res[1] = "err" /\ o.res[2] = "UNDEFINED"
      rok == ResOk(o.res, ev.res)
      sok == StateOk(ev, o, obs)
      \* a copy of a file onto itself may succeed or fail, but changes nothing
      own == Owned(W, ev) IN
  /\ ev.op \notin {"reset", "plugins", "refused"}
  /\ O' = obs
  /\ IF undefined THEN W' = obs /\ cnt' = Count("skipped")
     ELSE IF ~own
     THEN W' = (IF ev.trust \/ ev.unseen # "" THEN o.W ELSE obs) /\ cnt' = Count("other")
     ELSE /\ IF rok THEN TRUE
             ELSE Bad("result", "expected " \o ToString(o.res) \o " observed " \o ToString(ev.res))
          /\ IF ev.unseen = "" THEN TRUE ELSE Bad("observe", ev.unseen)
          /\ IF ev.unseen # "" \/ ev.trust \/ sok THEN TRUE
             ELSE Bad("state", ToString(ShowDiff(o.W, obs)))
          /\ W' = (IF ev.trust \/ ev.unseen # "" THEN o.W ELSE obs)
          /\ cnt' = IF rok /\ (ev.trust \/ sok) /\ ev.unseen = "" THEN Count("judged")
                    ELSE [cnt EXCEPT !["judged"] = @ + 1, !["bad"] = @ + 1]

Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ Reset \/ Plugins \/ Refused \/ Call
        /\ IF l < Len(Trace) THEN TRUE ELSE PrintT("DONE " \o ToJson(cnt'))
Spec == Init /\ [][Next]_vars

Wellformed == \A b \in DOMAIN W : WellFormed(W[b])
===============================================================================
