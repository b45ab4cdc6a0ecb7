----------------------------------- MODULE Lock -----------------------------------
(***************************************************************************)
(* Locks on the files of memory file systems, by what can be seen (C20).      *)
(*                                                                          *)
(* A thread attempts the lock of a file, enters its scope (and gets the file   *)
(* opened for writing) or is refused; inside it writes and looks at the file;  *)
(* it leaves the scope, normally or by an exception.                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Set(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
NoFun == [x \in {} |-> ""]

(* holder: file -> thread that is inside; leaving: threads on their way out;  *)
(* tries: thread -> its attempt; files: file -> content; broken: files whose    *)
(* directory does not exist.                                                  *)
LStart(files, broken) ==
  [holder |-> NoFun, leaving |-> NoFun, tries |-> NoFun, files |-> files, broken |-> broken]

Held(L, f) == f \in DOMAIN L.holder
Leaving(L, f) == {t \in DOMAIN L.leaving : L.leaving[t].file = f}
Quiet(L, f) == ~Held(L, f) /\ Leaving(L, f) = {} /\ ~(\E t \in DOMAIN L.tries : L.tries[t].file = f)

(* Time passes only while all threads wait: somebody who does not want to    *)
(* wait has an answer at once.                                               *)
Now(e) == IF "now" \in DOMAIN e THEN e.now ELSE 0
Late(L, e) == LET a == L.tries[e.t] IN IF ~a.wait /\ Now(e) # a.now THEN {"waited-though-told-not-to"} ELSE {}

LFaults(L, e) ==
  CASE e.op = "entered" -> Late(L, e) \cup (IF Held(L, e.file) THEN {"two-holders"} ELSE {}) \cup
                           (IF e.file \in L.broken THEN {"entered-without-a-file"} ELSE {})
    [] e.op = "refused" -> Late(L, e) \cup (IF L.tries[e.t].wait THEN {"refused-though-waiting"} ELSE {}) \cup
                           (IF ~L.tries[e.t].held THEN {"refused-though-free"} ELSE {})
    \* a file that cannot be opened (its directory is missing) cannot be locked either
    [] e.op = "error" -> IF e.file \in L.broken /\ e.os THEN {} ELSE {"error"}
    \* what the holder wrote is what is there; whoever asks
    [] e.op = "peek" ->
         IF Held(L, e.file) /\ L.holder[e.file] = e.t
         THEN IF e.file \in DOMAIN L.files /\ e.text = L.files[e.file] THEN {} ELSE {"content-changed"}
         ELSE IF Quiet(L, e.file)
         THEN IF e.text = (IF e.file \in DOMAIN L.files THEN L.files[e.file] ELSE "<none>") THEN {} ELSE {"content-changed"}
         ELSE {}
    [] e.op = "left" -> (IF e.exc # L.leaving[e.t].exc THEN {"exception-lost"} ELSE {})
    [] e.op = "deadlock" -> {"deadlock"}
    [] OTHER -> {}

(* an attempt may be refused if at some time during it somebody had the lock *)
SawHeld(tries, f) == [t \in DOMAIN tries |-> IF tries[t].file = f THEN [tries[t] EXCEPT !.held = TRUE] ELSE tries[t]]

LAfter(L, e) ==
  CASE e.op = "attempt" ->
         [L EXCEPT !.tries = Set(@, e.t, [file |-> e.file, wait |-> e.wait, now |-> Now(e),
                                          held |-> Held(L, e.file) \/ Leaving(L, e.file) # {}
                                                   \/ \E t \in DOMAIN L.tries : L.tries[t].file = e.file]),
                   \* somebody on the way in may refuse others before being seen inside
                   !.tries = IF \E t \in DOMAIN L.tries : L.tries[t].file = e.file THEN SawHeld(@, e.file) ELSE @]
    [] e.op = "entered" ->
         [L EXCEPT !.tries = SawHeld(Drop(@, e.t), e.file), !.holder = Set(@, e.file, e.t),
                   !.files = Set(@, e.file, "")]
    [] e.op \in {"refused", "error"} -> [L EXCEPT !.tries = Drop(@, e.t)]
    [] e.op = "wrote" -> IF Held(L, e.file) /\ L.holder[e.file] = e.t
                         THEN [L EXCEPT !.files[e.file] = @ \o e.text] ELSE L
    [] e.op = "leaving" ->
         [L EXCEPT !.holder = IF Held(L, e.file) /\ L.holder[e.file] = e.t THEN Drop(@, e.file) ELSE @,
                   !.leaving = Set(@, e.t, [file |-> e.file, exc |-> e.exc]),
                   !.files = IF e.cleanup THEN Drop(@, e.file) ELSE @]
    [] e.op = "left" -> [L EXCEPT !.leaving = Drop(@, e.t)]
    [] e.op = "mended" -> [L EXCEPT !.broken = @ \ {e.file}]
    [] OTHER -> L
===============================================================================
