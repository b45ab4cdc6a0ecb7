---------------------------------- MODULE RegSeq ----------------------------------
(***************************************************************************)
(* One thread using the registry: every state of two or three identities      *)
(* (unknown, or idle for so long) and every call in it.  A shortest history   *)
(* to each state is exported and run on the code (C06).                        *)
(***************************************************************************)
EXTENDS Registry, Json, IOUtils

CONSTANTS Keys, Timeout, Steps

VARIABLES R, n, hist
View == [k \in Keys |-> LET cs == {c \in DOMAIN R.conns : Open(R, c) /\ R.conns[c].key = <<k>>} IN
                        IF cs = {} THEN 0 - 1
                        ELSE LET i == R.now - R.conns[CHOOSE c \in cs : TRUE].used IN IF i > Timeout + 1 THEN Timeout + 1 ELSE i]

RECURSIVE Run(_, _)
Run(r, es) == IF es = <<>> THEN r ELSE Run(After(r, Head(es)), Tail(es))
Ok(r, es) == \A i \in DOMAIN es : Faults(Run(r, SubSeq(es, 1, i - 1)), es[i]) = {}

UseEvents(k) ==
  LET cs == OpenFor(R, <<k>>) IN
  IF cs = {} THEN <<[op |-> "call", t |-> "m", key |-> <<k>>], [op |-> "made", t |-> "m", key |-> <<k>>, c |-> n + 1],
                    [op |-> "ret", t |-> "m", c |-> n + 1]>>
  ELSE <<[op |-> "call", t |-> "m", key |-> <<k>>], [op |-> "ret", t |-> "m", c |-> CHOOSE c \in cs : TRUE]>>

RECURSIVE CloseEvents(_)
CloseEvents(cs) == IF cs = {} THEN <<>>
                   ELSE LET c == CHOOSE x \in cs : TRUE IN
                        <<[op |-> "closing", t |-> "m", c |-> c], [op |-> "closed", t |-> "m", c |-> c]>> \o CloseEvents(cs \ {c})
CleanEvents(force) ==
  <<[op |-> "cleanup", t |-> "m", force |-> force]>> \o
  CloseEvents({c \in DOMAIN R.conns : Open(R, c) /\ (force \/ Stale(R, c))}) \o <<[op |-> "cleaned", t |-> "m"]>>

Do(es, h) == /\ Assert(Ok(R, es), <<"a fault in the model", R, es>>)
             /\ R' = Run(R, es) /\ hist' = Append(hist, h)

Init == R = Start(0, Timeout, 0, Keys) /\ n = 0 /\ hist = <<>>
Next == /\ Len(hist) < Steps
        /\ \/ \E k \in Keys : Do(UseEvents(k), <<"use", k>>) /\ n' = IF OpenFor(R, <<k>>) = {} THEN n + 1 ELSE n
           \/ \E d \in {1, Timeout} : Do(<<[op |-> "time", now |-> R.now + d]>>, <<"tick", ToString(d)>>) /\ n' = n
           \/ \E f \in BOOLEAN : Do(CleanEvents(f), <<"cleanup", IF f THEN "force" ELSE "">>) /\ n' = n
Spec == Init /\ [][Next]_<<R, n, hist>>

Sane == /\ OneConnection(R)
        /\ \A c \in DOMAIN R.conns : R.conns[c].st \in {"open", "closed"}
Export == IOEnv.EXPORT # "1" \/ PrintT("HIST " \o ToJson(hist))
===============================================================================
