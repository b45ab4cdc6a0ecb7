--------------------------------- MODULE LockModel ---------------------------------
(***************************************************************************)
(* The algorithm of the locks, interrupted anywhere; it must never produce    *)
(* an event that Lock.tla finds a fault with.  OpenLate, RemoveFirst and       *)
(* PerFile switch off one measure each.                                        *)
(***************************************************************************)
EXTENDS Lock, Json, IOUtils

CONSTANTS Threads, Files, Tries,
          OpenLate,       \* the file is opened (and emptied) by the holder only
          RemoveFirst,    \* the file is removed before the lock is released
          PerFile,        \* one lock for a file, whoever asks
          Always          \* released by exceptions as well

VARIABLES L, faults, mutex, disk, pc, cur, left, hist
vars == <<L, faults, mutex, disk, pc, cur, left, hist>>
view == <<L, faults, mutex, disk, pc, cur, left>>

None == "none"
MutexOf(t) == IF PerFile THEN cur[t].file ELSE cur[t].file \o t
Emit(es) == LET RECURSIVE Run(_, _, _)
                Run(r, f, i) == IF i > Len(es) THEN <<r, f>> ELSE Run(LAfter(r, es[i]), f \cup LFaults(r, es[i]), i + 1)
                res == Run(L, faults, 1)
            IN L' = res[1] /\ faults' = res[2]
Silent == UNCHANGED <<L, faults>>
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Did(t) == hist' = Append(hist, t)

Init == /\ L = LStart(NoFun, {}) /\ faults = {} /\ mutex = NoFun /\ disk = NoFun
        /\ pc = [t \in Threads |-> "idle"]
        /\ cur = [t \in Threads |-> [file |-> None, wait |-> FALSE, cleanup |-> FALSE, exc |-> ""]]
        /\ left = [t \in Threads |-> Tries] /\ hist = <<>>

Begin(t) == /\ pc[t] = "idle" /\ left[t] > 0
            /\ left' = [left EXCEPT ![t] = @ - 1]
            /\ \E f \in Files, w, c \in BOOLEAN, x \in {"", "boom"} :
                 /\ cur' = [cur EXCEPT ![t] = [file |-> f, wait |-> w, cleanup |-> c, exc |-> x]]
                 /\ Emit(<<[op |-> "attempt", t |-> t, file |-> f, wait |-> w]>>)
                 /\ hist' = Append(hist, t \o ":" \o f \o (IF w THEN "w" ELSE "") \o (IF c THEN "c" ELSE "") \o (IF x # "" THEN "x" ELSE ""))
            /\ Go(t, IF OpenLate THEN "acquire" ELSE "open0") /\ UNCHANGED <<mutex, disk>>
Truncate(t, from, to) == /\ pc[t] = from /\ disk' = Set(disk, cur[t].file, "") /\ Go(t, to) /\ Did(t)
                         /\ Silent /\ UNCHANGED <<mutex, cur, left>>
Acquire(t) == /\ pc[t] = "acquire"
              /\ IF MutexOf(t) \notin DOMAIN mutex
                 THEN mutex' = Set(mutex, MutexOf(t), t) /\ Go(t, IF OpenLate THEN "open" ELSE "enter") /\ Silent
                 ELSE /\ ~cur[t].wait
                      /\ mutex' = mutex /\ Go(t, "idle")
                      /\ Emit(<<[op |-> "refused", t |-> t, file |-> cur[t].file]>>)
              /\ Did(t) /\ UNCHANGED <<disk, cur, left>>
Enter(t) == /\ pc[t] = "enter" /\ Emit(<<[op |-> "entered", t |-> t, file |-> cur[t].file]>>)
            /\ Go(t, "write") /\ Did(t) /\ UNCHANGED <<mutex, disk, cur, left>>
Write(t) == /\ pc[t] = "write"
            /\ disk' = Set(disk, cur[t].file, (IF cur[t].file \in DOMAIN disk THEN disk[cur[t].file] ELSE "") \o "x")
            /\ Emit(<<[op |-> "wrote", t |-> t, file |-> cur[t].file, text |-> "x"]>>)
            /\ Go(t, "peek") /\ Did(t) /\ UNCHANGED <<mutex, cur, left>>
Peek(t) == /\ pc[t] = "peek"
           /\ Emit(<<[op |-> "peek", t |-> t, file |-> cur[t].file,
                      text |-> IF cur[t].file \in DOMAIN disk THEN disk[cur[t].file] ELSE "<none>"],
                     [op |-> "leaving", t |-> t, file |-> cur[t].file, cleanup |-> cur[t].cleanup, exc |-> cur[t].exc]>>)
           /\ Go(t, IF cur[t].exc # "" /\ ~Always THEN "gone" ELSE IF ~cur[t].cleanup THEN "release" ELSE IF RemoveFirst THEN "remove" ELSE "release1")
           /\ Did(t) /\ UNCHANGED <<mutex, disk, cur, left>>
Remove(t, from, to) == /\ pc[t] = from /\ disk' = Drop(disk, cur[t].file) /\ Go(t, to) /\ Did(t)
                       /\ Silent /\ UNCHANGED <<mutex, cur, left>>
Release(t, from, to) == /\ pc[t] = from /\ mutex' = Drop(mutex, MutexOf(t)) /\ Go(t, to) /\ Did(t)
                        /\ Silent /\ UNCHANGED <<disk, cur, left>>
Gone(t) == /\ pc[t] = "gone" /\ Go(t, "idle") /\ Did(t)
           /\ Emit(<<[op |-> "left", t |-> t, file |-> cur[t].file, exc |-> cur[t].exc]>>)
           /\ UNCHANGED <<mutex, disk, cur, left>>

Step(t) == \/ Begin(t) \/ Truncate(t, "open0", "acquire") \/ Acquire(t) \/ Truncate(t, "open", "enter")
           \/ Enter(t) \/ Write(t) \/ Peek(t) \/ Remove(t, "remove", "release") \/ Release(t, "release", "gone")
           \/ Release(t, "release1", "remove1") \/ Remove(t, "remove1", "gone") \/ Gone(t)
Next == \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_vars

Done == \A t \in Threads : pc[t] = "idle" /\ left[t] = 0
AllIdle == \A t \in Threads : pc[t] = "idle"
NoFaults == faults = {}
(* when everybody has left, all locks are free, and nobody is stuck *)
Free == AllIdle => DOMAIN mutex = {}
NoDeadlock == AllIdle \/ ENABLED Next
ToldFault == (faults = {} /\ Free) \/ (PrintT("SCHED " \o ToJson(hist)) /\ FALSE)
Export == IF IOEnv.EXPORT # "1" \/ ~Done THEN TRUE ELSE PrintT("SCHED " \o ToJson(hist))
===============================================================================
