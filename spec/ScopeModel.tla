---------------------------------- MODULE ScopeModel ----------------------------------
(***************************************************************************)
(* How the helpers are built: what they remember and when, next to what they   *)
(* should do (W).  A is the world they produce.  Each measure is necessary.   *)
(*   Stack     a scope that is entered again remembers every directory        *)
(*   Clean     a scope that cannot be entered remembers nothing               *)
(*   Closed    a handle that is closed again does nothing                     *)
(*   Absolute  files are found wherever the current directory is by then      *)
(*   Appending locking keeps what is in the file                              *)
(*   Refusing  a refused locker leaves the file alone                         *)
(* Laws, stated without the definition of the calls: nested scopes.           *)
(***************************************************************************)
EXTENDS Scope, Json, IOUtils

CONSTANTS MaxOps, Stack, Clean, Closed, Absolute, Appending, Refusing

D == <<"d">>
E == <<"d", "e">>
Dirs0 == {<<>>, D, E}
Files0 == (<<"f">> :> "ab") @@ (<<"d", "f">> :> "cd")
Start == World0(Dirs0, Files0, NoFun)
Scopes == {"s1", "s2"}
Targets == {[rel |-> FALSE, p |-> D], [rel |-> TRUE, p |-> <<"e">>], [rel |-> FALSE, p |-> <<"m">>]}

(* W, the world produced (A), what the helpers remember (R), entered scopes in order *)
VARIABLES W, A, R, stack, hist, wrong
vars == <<W, A, R, stack, hist, wrong>>
R0 == [back |-> [s \in Scopes |-> <<>>], temp |-> <<>>, lock |-> <<>>]

Init == /\ \E t1 \in Targets, t2 \in Targets :
             W = [Start EXCEPT !.target = ("s1" :> t1) @@ ("s2" :> t2), !.back = ("s1" :> <<>>) @@ ("s2" :> <<>>)]
        /\ A = [cwd |-> <<>>, files |-> Files0] /\ R = R0 /\ stack = <<>> /\ hist = <<>> /\ wrong = FALSE

Judge(x, ares, a) == /\ W' = x.W /\ A' = a
                     /\ wrong' = (x.res # ares \/ a.cwd # x.W.cwd \/ a.files # x.W.files)
Log(o) == hist' = Append(hist, o)

DoEnter(s) ==
  LET t == W.target[s]
      d == IF t.rel THEN A.cwd \o t.p ELSE t.p
      ok == d \in Dirs0
      save == IF Stack THEN Append(R.back[s], A.cwd) ELSE <<A.cwd>> IN
  /\ R' = [R EXCEPT !.back[s] = IF ok \/ ~Clean THEN save ELSE @]
  /\ Judge(Enter(W, s), IF ok THEN <<"none">> ELSE <<"err">>, IF ok THEN [A EXCEPT !.cwd = d] ELSE A)
  /\ stack' = IF ok THEN Append(stack, <<s, W.cwd>>) ELSE stack
  /\ Log(<<"enter", s>>)
DoLeave(s) ==
  /\ W.back[s] # <<>>
  /\ LET b == R.back[s]
         n == Len(b) IN
     IF n = 0 THEN Judge(Leave(W, s), <<"raised">>, A) /\ UNCHANGED R
     ELSE /\ R' = [R EXCEPT !.back[s] = SubSeq(b, 1, n - 1)]
          /\ Judge(Leave(W, s), <<"none">>, [A EXCEPT !.cwd = b[n]])
  /\ stack' = LET is == {i \in DOMAIN stack : stack[i][1] = s}
                  m == CHOOSE i \in is : \A j \in is : j <= i IN
              SubSeq(stack, 1, m - 1) \o SubSeq(stack, m + 1, Len(stack))
  /\ Log(<<"leave", s>>)
DoChdir(d) == d # W.cwd /\ Judge(None([W EXCEPT !.cwd = d]), <<"none">>, [A EXCEPT !.cwd = d]) /\ Log(<<"chdir", d>>) /\ UNCHANGED <<R, stack>>

(* one temporary file: f, as seen from the current directory *)
Name == <<"f">>
At(rel) == IF rel THEN A.cwd \o Name ELSE Name
DoTemp(rel) ==
  /\ R.temp = <<>>
  /\ LET x == Temp(W, [rel |-> rel, p |-> Name, h |-> 1])
         ok == At(rel) \in DOMAIN A.files IN
     /\ Judge(x, IF ok THEN <<"none">> ELSE <<"err">>, A)
     /\ R' = [R EXCEPT !.temp = IF ok THEN <<[rel |-> rel, at |-> At(rel), open |-> TRUE]>> ELSE @]
  /\ Log(<<"temp", rel>>) /\ UNCHANGED stack
DoClose ==
  /\ R.temp # <<>>
  /\ LET t == R.temp[1]
         at == IF Absolute THEN t.at ELSE At(t.rel) IN
     IF ~t.open /\ Closed THEN Judge(Close(W, 1), <<"none">>, A) /\ UNCHANGED R
     ELSE /\ Judge(Close(W, 1), IF at \in DOMAIN A.files THEN <<"none">> ELSE <<"err">>, [A EXCEPT !.files = Drop(@, at)])
          /\ R' = [R EXCEPT !.temp = <<[t EXCEPT !.open = FALSE]>>]
  /\ Log(<<"close">>) /\ UNCHANGED stack
DoPut == <<"f">> \notin DOMAIN W.files
         /\ Judge(None([W EXCEPT !.files = Put(@, <<"f">>, "n")]), <<"none">>, [A EXCEPT !.files = Put(@, <<"f">>, "n")])
         /\ Log(<<"put">>) /\ UNCHANGED <<R, stack>>

(* two lockers of f *)
Held == R.lock # <<>>
Free == Name \in DOMAIN W.files => \A i \in DOMAIN R.temp : ~R.temp[i].open
DoLock(rel, clean) ==
  /\ Free
  /\ LET at == At(rel)
         conflict == Held /\ R.lock[1].at = at
         keep == IF at \in DOMAIN A.files THEN A.files[at] ELSE ""
         x == Lock(W, [rel |-> rel, p |-> Name, k |-> IF Held THEN 2 ELSE 1, fail |-> TRUE, clean |-> clean]) IN
     /\ (Held => conflict)                  \* one lock at a time is enough here
     /\ Judge(x, IF conflict THEN <<"locked">> ELSE <<"none">>,
              [A EXCEPT !.files = Put(@, at, IF conflict THEN (IF Refusing THEN keep ELSE "") ELSE IF Appending THEN keep ELSE "")])
     /\ R' = [R EXCEPT !.lock = IF conflict THEN @ ELSE <<[rel |-> rel, at |-> at, clean |-> clean]>>]
  /\ Log(<<"lock", rel, clean>>) /\ UNCHANGED stack
DoWrite ==
  /\ Held /\ R.lock[1].at \in DOMAIN W.files
  /\ Judge(LockWrite(W, [k |-> 1, text |-> "x", flush |-> TRUE]), <<"none">>, [A EXCEPT !.files[R.lock[1].at] = @ \o "x"])
  /\ Log(<<"lockwrite">>) /\ UNCHANGED <<R, stack>>
DoUnlock ==
  /\ Held
  /\ LET k == R.lock[1]
         at == IF Absolute THEN k.at ELSE At(k.rel) IN
     Judge(Unlock(W, [k |-> 1]), <<"none">>, IF k.clean THEN [A EXCEPT !.files = Drop(@, at)] ELSE A)
  /\ R' = [R EXCEPT !.lock = <<>>] /\ Log(<<"unlock">>) /\ UNCHANGED stack

Next == /\ Len(hist) < MaxOps /\ ~wrong
        /\ \/ \E s \in Scopes : DoEnter(s) \/ DoLeave(s)
           \/ \E d \in Dirs0 : DoChdir(d)
           \/ (\E rel \in BOOLEAN : ~Held /\ DoTemp(rel)) \/ (~Held /\ DoClose) \/ (~Held /\ DoPut)
           \/ (\E rel \in BOOLEAN, clean \in BOOLEAN : DoLock(rel, clean)) \/ DoWrite \/ DoUnlock
Spec == Init /\ [][Next]_vars
Right == ~wrong

(* leaving scopes in the reverse order of entering them leads back, whatever was done in between *)
RECURSIVE AllOut(_, _)
AllOut(w, st) == IF st = <<>> THEN w ELSE AllOut(Leave(w, st[Len(st)][1]).W, SubSeq(st, 1, Len(st) - 1))
Nested == \A n \in DOMAIN stack : AllOut(W, SubSeq(stack, n, Len(stack))).cwd = stack[n][2] 
Export == IF IOEnv.EXPORT = "1" /\ Len(hist) = MaxOps THEN PrintT("HIST " \o ToJson([s1 |-> W.target["s1"], s2 |-> W.target["s2"], ops |-> hist])) ELSE TRUE
View == <<W, A, R, stack, Len(hist), wrong>>
===============================================================================
