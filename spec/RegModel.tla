--------------------------------- MODULE RegModel ---------------------------------
(***************************************************************************)
(* The algorithm of the registry, as it is meant to work, with threads that   *)
(* may be interrupted between any two accesses to what they share.  It must   *)
(* never produce an event that Registry.tla finds a fault with.               *)
(*                                                                          *)
(* The constants Recheck, Touch, Restale and Hold switch off one measure     *)
(* each; without any of them the model produces faults (see the check of     *)
(* C07, which demands that TLC finds them).                                   *)
(***************************************************************************)
EXTENDS Registry, Json, IOUtils

CONSTANTS Users, Cleaners, Keys, Gets, Cleanups, Ticks, Timeout,
          Recheck,      \* look again after the lock was obtained
          Touch,        \* looking up renews the connection
          Restale,      \* decide that a connection is stale when closing it
          Hold          \* keep the lock until the connection is closed

VARIABLES R, faults,
          reg,          \* key -> registered connection
          last,         \* connection -> last used
          mutex,        \* who holds the lock for creating and closing
          pc, key, got, \* of users
          todo,         \* of cleaners: pairs <<key, connection, stale>>
          n,            \* number of connections made
          left, ticks, hist
vars == <<R, faults, reg, last, mutex, pc, key, got, todo, n, left, ticks, hist>>
view == <<R, faults, reg, last, mutex, pc, key, got, todo, n, left, ticks>>

None == "none"
Threads == Users \cup Cleaners
Id(k) == <<k>>

Emit(es) == LET RECURSIVE Go(_, _, _)
                Go(r, f, i) == IF i > Len(es) THEN <<r, f>>
                               ELSE Go(After(r, es[i]), f \cup Faults(r, es[i]), i + 1)
                res == Go(R, faults, 1)
            IN R' = res[1] /\ faults' = res[2]
Silent == UNCHANGED <<R, faults>>
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Did(t) == hist' = Append(hist, t)

Init == /\ R = Start(0, Timeout, 0, Keys) /\ faults = {}
        /\ reg = NoFun /\ last = NoFun /\ mutex = None
        /\ pc = [t \in Threads |-> "idle"] /\ key = [t \in Users |-> None] /\ got = [t \in Users |-> None]
        /\ todo = [t \in Cleaners |-> {}] /\ n = 0
        /\ left = [t \in Threads |-> IF t \in Users THEN Gets ELSE Cleanups] /\ ticks = Ticks /\ hist = <<>>

Begin(t) == /\ pc[t] = "idle" /\ left[t] > 0
            /\ \E k \in Keys : /\ key' = [key EXCEPT ![t] = k]
                               /\ Emit(<<[op |-> "call", t |-> t, key |-> Id(k)]>>)
            /\ left' = [left EXCEPT ![t] = @ - 1]
            /\ Go(t, "look") /\ hist' = Append(hist, t \o ":" \o key'[t])
            /\ UNCHANGED <<reg, last, mutex, got, todo, n, ticks>>

Look(t, from, hit, miss) ==
  /\ pc[t] = from
  /\ IF key[t] \in DOMAIN reg
     THEN /\ got' = [got EXCEPT ![t] = reg[key[t]]]
          /\ last' = IF Touch THEN Set(last, reg[key[t]], R.now) ELSE last
          /\ Go(t, hit)
     ELSE got' = got /\ last' = last /\ Go(t, miss)
  /\ Did(t) /\ Silent /\ UNCHANGED <<reg, mutex, key, todo, n, left, ticks>>

Acquire(t, from, to) ==
  /\ pc[t] = from /\ mutex = None
  /\ mutex' = t /\ Go(t, to) /\ Did(t)
  /\ Silent /\ UNCHANGED <<reg, last, key, got, todo, n, left, ticks>>

Make(t) == /\ pc[t] = "make" /\ n' = n + 1
           /\ got' = [got EXCEPT ![t] = n + 1]
           /\ last' = Set(last, n + 1, R.now)
           /\ Emit(<<[op |-> "made", t |-> t, key |-> Id(key[t]), c |-> n + 1]>>)
           /\ Go(t, "enter") /\ Did(t) /\ UNCHANGED <<reg, mutex, key, todo, left, ticks>>
Enter(t) == /\ pc[t] = "enter" /\ reg' = Set(reg, key[t], got[t])
            /\ last' = Set(last, got[t], R.now) /\ Go(t, "release") /\ Did(t)
            /\ Silent /\ UNCHANGED <<mutex, key, got, todo, n, left, ticks>>
Release(t, from, to) ==
  /\ pc[t] = from /\ mutex' = None /\ Go(t, to) /\ Did(t)
  /\ Silent /\ UNCHANGED <<reg, last, key, got, todo, n, left, ticks>>
Return(t) == /\ pc[t] = "return" /\ Go(t, "idle") /\ Did(t)
             /\ Emit(<<[op |-> "ret", t |-> t, c |-> got[t]]>>)
             /\ last' = Set(last, got[t], IF Touch THEN last[got[t]] ELSE R.now)
             /\ UNCHANGED <<reg, mutex, key, got, todo, n, left, ticks>>

User(t) == \/ Begin(t)
           \/ Look(t, "look", "return", "acquire")
           \/ Acquire(t, "acquire", IF Recheck THEN "look2" ELSE "make")
           \/ Look(t, "look2", "release", "make")
           \/ Make(t) \/ Enter(t) \/ Release(t, "release", "return") \/ Return(t)

Old(c) == R.now - last[c] > Timeout
Snap(t) == /\ pc[t] = "idle" /\ left[t] > 0
           /\ left' = [left EXCEPT ![t] = @ - 1]
           /\ todo' = [todo EXCEPT ![t] = {<<k, reg[k], Old(reg[k])>> : k \in DOMAIN reg}]
           /\ Emit(<<[op |-> "cleanup", t |-> t, force |-> FALSE]>>)
           /\ Go(t, "each") /\ hist' = Append(hist, t \o ":clean") /\ UNCHANGED <<reg, last, mutex, key, got, n, ticks>>
Each(t) == /\ pc[t] = "each"
           /\ IF todo[t] = {} THEN Go(t, "idle") /\ Emit(<<[op |-> "cleaned", t |-> t]>>) /\ mutex' = mutex
              ELSE mutex = None /\ mutex' = t /\ Go(t, "check") /\ Silent
           /\ Did(t) /\ UNCHANGED <<reg, last, key, got, todo, n, left, ticks>>
Pick(t) == CHOOSE x \in todo[t] : TRUE
Check(t) == /\ pc[t] = "check"
            /\ LET x == Pick(t) IN
               IF x[1] \in DOMAIN reg /\ reg[x[1]] = x[2] /\ (IF Restale THEN Old(x[2]) ELSE x[3])
               THEN reg' = Drop(reg, x[1]) /\ Go(t, IF Hold THEN "close" ELSE "drop") /\ todo' = todo
               ELSE reg' = reg /\ Go(t, "next") /\ todo' = [todo EXCEPT ![t] = @ \ {x}]
            /\ Did(t) /\ Silent /\ UNCHANGED <<last, mutex, key, got, n, left, ticks>>
Close(t) == /\ pc[t] = "close"
            /\ Emit(<<[op |-> "closing", t |-> t, c |-> Pick(t)[2]]>>)
            /\ Go(t, "closed") /\ Did(t) /\ UNCHANGED <<reg, last, mutex, key, got, todo, n, left, ticks>>
Closed(t) == /\ pc[t] = "closed"
             /\ Emit(<<[op |-> "closed", t |-> t, c |-> Pick(t)[2]]>>)
             /\ todo' = [todo EXCEPT ![t] = @ \ {Pick(t)}]
             /\ Go(t, IF Hold THEN "next" ELSE "each") /\ Did(t) /\ UNCHANGED <<reg, last, mutex, key, got, n, left, ticks>>
Cleaner(t) == \/ Snap(t) \/ Each(t) \/ Check(t) \/ Close(t) \/ Closed(t)
              \/ Release(t, "drop", "close") \/ Release(t, "next", "each")

(* time passes between calls, not within *)
Tick == /\ ticks > 0 /\ \A t \in Threads : pc[t] = "idle"
        /\ \E d \in {1, Timeout, Timeout + 1} :
             Emit(<<[op |-> "time", now |-> R.now + d]>>) /\ hist' = Append(hist, "tick:" \o ToString(d))
        /\ ticks' = ticks - 1
        /\ UNCHANGED <<reg, last, mutex, pc, key, got, todo, n, left>>

Next == (\E t \in Users : User(t)) \/ (\E t \in Cleaners : Cleaner(t)) \/ Tick
Spec == Init /\ [][Next]_vars

NoFaults == faults = {}
(* the same, telling the schedule that leads to a fault *)
NoFaultsTold == faults = {} \/ (PrintT("SCHED " \o ToJson(hist)) /\ FALSE)
Sane == OneConnection(R)
(* nobody waits for ever: whoever has begun can go on or waits for one who can *)
Finished == \A t \in Threads : pc[t] = "idle"
NoDeadlock == Finished \/ (mutex # None => pc[mutex] \notin {"acquire", "each", "idle"})
Export == IF IOEnv.EXPORT # "1" \/ ~(Finished /\ \A t \in Threads : left[t] = 0) THEN TRUE
          ELSE PrintT("SCHED " \o ToJson(hist))
===============================================================================
