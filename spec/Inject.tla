------------------------------- MODULE Inject -------------------------------
(***************************************************************************)
(* What is put into a memory file system to provoke conditions: callbacks,   *)
(* modification times and locks, each acting on one path only (C24).         *)
(*                                                                           *)
(* A path is a sequence of names: it does not matter how it is spelled or    *)
(* which URI object stands for it.                                           *)
(*                                                                           *)
(*   C   path -> callback: [id, kind], kind log, raise, or once / onceraise  *)
(*       (which remove themselves when called)                               *)
(*   M   path -> modification time given to the file there                   *)
(*   K   paths whose locks are held                                          *)
(*                                                                           *)
(* An operation is told by                                                   *)
(*   op, p, q      its name, its path and its second path (or <<>>)          *)
(*   calls         the callbacks that ran: [id, at (the path they were       *)
(*                 given), before (TRUE if the tree was still as before)]    *)
(*   raised        "" or what it raised, if that came from a callback: its id*)
(*   res, plain    its result, and the result of the same operation on a     *)
(*                 file system without any callbacks and locks               *)
(*   same          the tree is as before                                     *)
(*   equal         the tree is as that of the plain file system              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

NoFun == [x \in {} |-> 0]
Set(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Raises(c) == c.kind \in {"raise", "onceraise"}
Once(c) == c.kind \in {"once", "onceraise"}
IsPrefix(q, p) == Len(p) >= Len(q) /\ SubSeq(p, 1, Len(q)) = q

(* operations on one path; they never reach another one *)
Single == {"exists", "isfile", "isdir", "isexec", "islink", "mtime", "info", "listdir", "readlink", "mkdir",
           "read", "write", "append", "md5", "lock", "set_exec", "set_mtime", "remove", "symlink"}
(* those might use operations on other paths: above, below, or in another tree *)
Compound == {"walk", "glob", "makedirs", "remove_r", "copy", "copy_r", "move", "copystat"}
(* operations that leave all files as they are *)
Reading == {"exists", "isfile", "isdir", "isexec", "islink", "mtime", "info", "listdir", "readlink", "read", "md5",
            "walk", "glob"}
Related(x, e) == \/ IsPrefix(e.p, x)
                 \/ e.op \in {"copy", "copy_r", "move", "copystat"} /\ IsPrefix(e.q, x)
                 \/ e.op \in {"makedirs", "copy_r", "move"} /\ (IsPrefix(x, e.p) \/ IsPrefix(x, e.q))

(* the callback that ran last, if it was one that raises *)
Aborting(C, e) == IF e.calls = <<>> THEN 0
                  ELSE LET n == Len(e.calls) IN
                       IF \E p \in DOMAIN C : C[p].id = e.calls[n].id /\ Raises(C[p]) THEN e.calls[n].id ELSE 0

(* a lock attempt that does not wait *)
Refused(K, e) == e.op = "lock" /\ e.real \in K

(* the clauses an operation breaks *)
Faults(C, K, e) ==
  LET here == e.p \in DOMAIN C
      ab == Aborting(C, e) IN
  (* before every operation on that path, and with that path *)
  (IF here => /\ e.calls # <<>>
              /\ e.calls[1].id = C[e.p].id /\ e.calls[1].before
   THEN {} ELSE {"called"})
  \cup (IF \A i \in DOMAIN e.calls : \E p \in DOMAIN C : C[p].id = e.calls[i].id /\ e.calls[i].at = p
        THEN {} ELSE {"sees"})
  (* not for other paths *)
  \cup (IF \A i \in DOMAIN e.calls : \A p \in DOMAIN C : C[p].id = e.calls[i].id =>
             IF e.op \in Single THEN p = e.p ELSE Related(p, e)
        THEN {} ELSE {"others"})
  (* what they raise ends the operation *)
  \cup (IF \A i \in DOMAIN e.calls : i < Len(e.calls) => \A p \in DOMAIN C : C[p].id = e.calls[i].id => ~Raises(C[p])
        THEN {} ELSE {"went on"})
  \cup (IF e.raised = ab THEN {} ELSE {"raised"})
  \cup (IF here /\ Raises(C[e.p]) /\ ~(e.same /\ Len(e.calls) = 1) THEN {"effect"} ELSE {})
  (* callbacks that remove themselves are called once *)
  \cup (IF \A p \in DOMAIN C : Once(C[p]) => Cardinality({i \in DOMAIN e.calls : e.calls[i].id = C[p].id}) <= 1
        THEN {} ELSE {"removed"})
  (* nothing else changes *)
  \cup (IF ab # 0 THEN {}
        ELSE IF Refused(K, e) THEN (IF e.res = <<"locked">> /\ e.same THEN {} ELSE {"lock"})
        ELSE (IF e.res = e.plain THEN {} ELSE {"result"}) \cup (IF e.equal THEN {} ELSE {"tree"}))
  \cup (IF e.op \in Reading /\ ~e.same THEN {"tree"} ELSE {})

(* the callbacks left after it *)
After(C, e) == LET gone == {p \in DOMAIN C : Once(C[p]) /\ \E i \in DOMAIN e.calls : e.calls[i].id = C[p].id} IN
               [p \in DOMAIN C \ gone |-> C[p]]

(* M: modification times of the files, -1 where nobody gave one; now: those    *)
(* after the operation. real and qreal are p and q with all links followed    *)
Touched(x, e) == \/ Related(x, e) \/ IsPrefix(e.real, x)
                 \/ e.op \in {"copy", "copy_r", "move", "copystat"} /\ IsPrefix(e.qreal, x)
TimeFaults(M, K, e, now) ==
  LET still == e.op \in Reading \/ Refused(K, e) \/ (e.raised # 0 /\ Len(e.calls) = 1 /\ e.calls[1].at = e.p) IN
  (IF \A x \in DOMAIN M \cap DOMAIN now : now[x] = M[x] \/ (~still /\ Touched(x, e)) THEN {} ELSE {"time"})
  \cup (IF e.op \in {"mtime", "info"} /\ e.raised = 0 /\ e.real \in DOMAIN M /\ e.res # <<"int", M[e.real]>>
        THEN {"time"} ELSE {})
  \cup (IF e.op = "set_mtime" /\ e.raised = 0 /\ e.real \in DOMAIN M /\ e.real \in DOMAIN now /\ now[e.real] # e.t
        THEN {"time"} ELSE {})

(* giving the file at p a time, or holding its lock, does that and no more *)
GivenTimes(M, e, now) == IF e.real \in DOMAIN M THEN [M EXCEPT ![e.real] = e.t] = now ELSE now = M
===============================================================================
