---------------------------------- MODULE Fault ----------------------------------
(***************************************************************************)
(* What must hold after a primitive operation failed part way through a copy, *)
(* a move or a recursive removal (C21).                                       *)
(*                                                                          *)
(* W is the world before the call ev, V the world after it.  e tells how the  *)
(* call ended: e.res is its result, e.same that the error raised is the one   *)
(* that was injected (or comes of it), e.strict that this is required.        *)
(* For removals e.again is the result of the same call without a fault, and   *)
(* V2 the world after that.                                                   *)
(***************************************************************************)
EXTENDS VPath

(* Nodes are compared without times and modes where these are only copied by  *)
(* convention (between backends).                                             *)
SameWorld(W, ev, X, V) ==
  LET cross == ev.op \in Transfers /\ ev.b # ev.b2
      dest == Into(W, Loc(ev.b, ev.p), Loc(ev.b2, ev.q)).p
      may(p) == LET dl == Dial[ev.b2]
                    R  == Writable(dl, W[ev.b2], LeadsTo(dl, W[ev.b2], dest)) IN
                \E r \in R : IsUnder(p, r) IN
  \A b \in DOMAIN W :
     /\ DOMAIN X[b] = DOMAIN V[b]
     /\ \A p \in DOMAIN X[b] :
          \/ X[b][p] = V[b][p]
          \/ cross /\ b = ev.b2 /\ Strip(X[b][p]) = Strip(V[b][p]) /\ may(p)

Source(W, ev) == LET t == W[ev.b] IN
                 IF ev.op \in {"move", "remove"} \/ ~ev.f
                 THEN IF IsLinkP(t, ev.p) \/ ev.op = "move" THEN NoFollow(t, ev.p).p ELSE Follow(t, ev.p).p
                 ELSE Follow(t, ev.p).p
Target(W, ev) == Into(W, Loc(ev.b, ev.p), Loc(ev.b2, ev.q))

(* Nothing changed outside the destination d, except for what is in X (a set  *)
(* of paths of backend b, which may go away).                                 *)
Outside(W, V, d, b, X) ==
  LET R    == Writable(Dial[d.b], W[d.b], LeadsTo(Dial[d.b], W[d.b], d.p))
      may(p) == \E r \in R : IsUnder(p, r) IN
  \A x \in DOMAIN W :
     /\ \A p \in DOMAIN W[x] : IF p \in DOMAIN V[x] /\ V[x][p] = W[x][p] THEN TRUE
                               ELSE (x = d.b /\ may(p)) \/ (x = b /\ p \in X /\ p \notin DOMAIN V[x])
     /\ \A p \in DOMAIN V[x] : IF p \in DOMAIN W[x] THEN TRUE
                               ELSE x = d.b /\ (may(p) \/ (V[x][p].k = "d" /\ \E r \in R : IsUnder(r, p)))

(* A file or link n is at p. *)
There(t, p, n) == p \in DOMAIN t /\ t[p].k = n.k /\ t[p].c = n.c /\ t[p].to = n.to

FaultClauses(W, ev, e, V, V2) ==
  LET o == Step(W, ev)
      failed == e.res[1] = "err"
      t == W[ev.b]
      a == Source(W, ev)
      sub == Subtree(t, a)
      d == Target(W, ev) IN
  (IF ~failed /\ ~SameWorld(W, ev, o.W, V) THEN {"swallowed"} ELSE {}) \cup
  (IF failed /\ e.strict /\ ~e.same THEN {"another error"} ELSE {}) \cup
  (IF ~failed THEN {} ELSE
   CASE ev.op \in {"copy", "copytree"} ->
          (IF Outside(W, V, d, "", {}) THEN {} ELSE {"copy changed something else"}) \cup
          (IF \A p \in sub : p \in DOMAIN V[ev.b] /\ V[ev.b][p] = t[p] THEN {} ELSE {"source changed"})
     [] ev.op = "move" ->
          LET to == Slot(W[d.b], d.p).p IN
          (IF Outside(W, V, d, ev.b, sub) THEN {} ELSE {"move changed something else"}) \cup
          (IF \A p \in sub : t[p].k = "d" \/ There(V[ev.b], p, t[p]) \/ There(V[d.b], Rebase(p, a, to), t[p])
           THEN {} ELSE {"lost"})
     [] ev.op = "remove" ->
          (IF \A b \in DOMAIN W : /\ DOMAIN V[b] \subseteq DOMAIN W[b]
                                  /\ \A p \in DOMAIN W[b] : IF p \in DOMAIN V[b] THEN V[b][p] = W[b][p]
                                                            ELSE b = ev.b /\ p \in sub
           THEN {} ELSE {"removed something else"}) \cup
          (IF NoFollow(V[ev.b], ev.p).e = ""
           THEN IF e.again[1] = "ok" /\ V2 = o.W THEN {} ELSE {"not completed"}
           ELSE IF V = o.W THEN {} ELSE {"lost track"}))

(* The calls the property is about. *)
Faulty(W, ev) ==
  /\ ev.op \in Transfers \cup {"remove"}
  /\ LET o == Step(W, ev) IN o.res[1] = "ok" /\ (ev.op = "remove" => ev.p # <<>>)
===============================================================================
