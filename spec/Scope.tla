---------------------------------- MODULE Scope ----------------------------------
(***************************************************************************)
(* Helpers that change something for the time of a scope (C26): the working    *)
(* directory, files deleted when they have been read, locks of local files.   *)
(*                                                                           *)
(* Paths are sequences of names below a root.  The world W:                   *)
(*   dirs    the directories           links  path -> path of a directory     *)
(*   files   path -> text              cwd    the current directory or Gone   *)
(*   back    scope -> the directories to return to, the last entered last     *)
(*   target  scope -> [rel, p]                                                *)
(*   temps   handle -> [at, text, pos, open]                                  *)
(*   locks   lock -> [at, clean, held, pending]                               *)
(* Step(W, ev): [res, W], what a call returns and what it leaves.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Gone == <<"?">>
NoFun == [x \in {} |-> 0]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Parent(p) == SubSeq(p, 1, Len(p) - 1)

RECURSIVE RealN(_, _, _)
RealN(L, p, fuel) ==
  LET ks == {i \in DOMAIN p : SubSeq(p, 1, i) \in DOMAIN L} IN
  IF ks = {} \/ fuel = 0 THEN p
  ELSE LET k == CHOOSE i \in ks : \A j \in ks : i <= j IN RealN(L, L[SubSeq(p, 1, k)] \o SubSeq(p, k + 1, Len(p)), fuel - 1)
Real(W, p) == RealN(W.links, p, 9)

(* where p is, seen from the current directory *)
Abs(W, rel, p) == Real(W, IF rel THEN W.cwd \o p ELSE p)
Lost(W, rel) == rel /\ W.cwd = Gone
Holders(W, at) == {k \in DOMAIN W.locks : W.locks[k].held /\ W.locks[k].at = at}

World0(ds, fs, ls) == [dirs |-> ds, files |-> fs, links |-> ls, cwd |-> <<>>, back |-> NoFun, target |-> NoFun,
                       temps |-> NoFun, locks |-> NoFun]

None(W) == [res |-> <<"none">>, W |-> W]
Err(W) == [res |-> <<"err">>, W |-> W]

Enter(W, s) ==
  LET t == W.target[s] IN
  IF W.cwd = Gone THEN Err(W)                       \* there is nothing to return to
  ELSE LET d == Abs(W, t.rel, t.p) IN
       IF d \notin W.dirs THEN Err(W)
       ELSE None([W EXCEPT !.back[s] = Append(@, W.cwd), !.cwd = d])
Leave(W, s) ==
  LET n == Len(W.back[s])
      d == W.back[s][n]
      V == [W EXCEPT !.back[s] = SubSeq(@, 1, n - 1)] IN
  IF d \in W.dirs THEN None([V EXCEPT !.cwd = d]) ELSE Err(V)

Temp(W, ev) ==
  IF Lost(W, ev.rel) \/ Abs(W, ev.rel, ev.p) \notin DOMAIN W.files THEN Err(W)
  ELSE LET at == Abs(W, ev.rel, ev.p) IN
       None([W EXCEPT !.temps = Put(@, ev.h, [at |-> at, text |-> W.files[at], pos |-> 0, open |-> TRUE])])
Read(W, ev) ==
  LET t == W.temps[ev.h]
      n == IF ev.n < 0 \/ ev.n > Len(t.text) - t.pos THEN Len(t.text) - t.pos ELSE ev.n IN
  [res |-> <<"text", SubSeq(t.text, t.pos + 1, t.pos + n)>>, W |-> [W EXCEPT !.temps[ev.h].pos = t.pos + n]]
(* closed: the file is deleted, this once *)
Close(W, h) ==
  IF ~W.temps[h].open THEN None(W)
  ELSE LET V == [W EXCEPT !.temps[h].open = FALSE] IN
       IF W.temps[h].at \in DOMAIN W.files THEN None([V EXCEPT !.files = Drop(@, W.temps[h].at)]) ELSE Err(V)

Lock(W, ev) ==
  LET at == Abs(W, ev.rel, ev.p) IN
  IF Lost(W, ev.rel) THEN Err(W)
  ELSE IF at \in W.dirs \/ Parent(at) \notin W.dirs THEN Err(W)
  ELSE IF Holders(W, at) # {}
  THEN [res |-> <<IF ev.fail THEN "locked" ELSE "waiting">>,
        W |-> IF ev.fail THEN W ELSE [W EXCEPT !.locks = Put(@, ev.k, [at |-> at, clean |-> ev.clean, held |-> FALSE, pending |-> ""])]]
  ELSE None([W EXCEPT !.locks = Put(@, ev.k, [at |-> at, clean |-> ev.clean, held |-> TRUE, pending |-> ""]),
                      !.files = IF at \in DOMAIN @ THEN @ ELSE Put(@, at, "")])
(* the holder writes behind what is there; it might be seen when flushed only *)
LockWrite(W, ev) ==
  LET k == W.locks[ev.k]
      t == k.pending \o ev.text IN
  IF ev.flush THEN None([W EXCEPT !.files[k.at] = @ \o t, !.locks[ev.k].pending = ""])
  ELSE None([W EXCEPT !.locks[ev.k].pending = t])
Unlock(W, ev) ==
  LET k == W.locks[ev.k]
      V == [W EXCEPT !.locks[ev.k].held = FALSE] IN
  None([V EXCEPT !.files = IF k.clean THEN Drop(@, k.at)
                           ELSE IF k.at \in DOMAIN @ THEN [@ EXCEPT ![k.at] = @ \o k.pending] ELSE @])
Granted(W, ev) ==
  IF Holders(W, W.locks[ev.k].at) = {} THEN None([W EXCEPT !.locks[ev.k].held = TRUE])
  ELSE [res |-> <<"waiting">>, W |-> W]

Step(W, ev) ==
  CASE ev.op = "scope" -> None([W EXCEPT !.target = Put(@, ev.s, [rel |-> ev.rel, p |-> ev.p]), !.back = Put(@, ev.s, <<>>)])
    [] ev.op = "enter" -> Enter(W, ev.s)
    [] ev.op = "leave" -> Leave(W, ev.s)
    [] ev.op = "temp" -> Temp(W, ev)
    [] ev.op = "read" -> Read(W, ev)
    [] ev.op = "close" -> Close(W, ev.h)
    [] ev.op = "lock" -> Lock(W, ev)
    [] ev.op = "lockwrite" -> LockWrite(W, ev)
    [] ev.op = "unlock" -> Unlock(W, ev)
    [] ev.op = "granted" -> Granted(W, ev)
    (* what others do *)
    [] ev.op = "chdir" -> None([W EXCEPT !.cwd = ev.p])
    [] ev.op = "rmdir" -> None([W EXCEPT !.dirs = @ \ {ev.p}, !.cwd = IF @ = ev.p THEN Gone ELSE @])
    [] ev.op = "put" -> None([W EXCEPT !.files = Put(@, ev.p, ev.text)])
    [] ev.op = "unlink" -> None([W EXCEPT !.files = Drop(@, ev.p)])
===============================================================================
