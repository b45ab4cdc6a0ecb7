------------------------------- MODULE Transfer -------------------------------
(***************************************************************************)
(* Copy and move, within one backend and between backends.                  *)
(*                                                                          *)
(* A world W is a function from backend names to trees.  Dial[b] is the      *)
(* dialect of backend b ("local", "memory", "zip").  A location is a record  *)
(* [b, p].  An outcome is [res, W, strict]: strict = FALSE means that only   *)
(* the frame condition (see Frame) is required of the state after a failure. *)
(***************************************************************************)
EXTENDS FS

CONSTANT Dial

Loc(b, p)      == [b |-> b, p |-> p]
T(W, l)        == W[l.b]
Sub(l, n)      == [l EXCEPT !.p = Append(@, n)]
OutW(res, W)   == [res |-> res, W |-> W, strict |-> TRUE]
FailW(e, W)    == OutW(ErrR(e), W)
ErrW(o)        == o.res[1] = "err"
Lift(W, b, o)  == OutW(o.res, [W EXCEPT ![b] = o.t])

WriteTo(W, l, c) ==
  IF Dial[l.b] = "zip" THEN WriteMember(W[l.b], l.p, c)
  ELSE WriteFile(Dial[l.b], W[l.b], l.p, c)

(* Two locations denote the same existing file. *)
SameFile(W, s, d) ==
  /\ s.b = d.b
  /\ LET a == Follow(T(W, s), s.p)
         b == Follow(T(W, d), d.p) IN a.e = "" /\ b.e = "" /\ a.p = b.p

(* Recreate the link s at d: replaces a file (or a link to a file) there.    *)
CopyLink(W, s, d) ==
  LET to == T(W, s)[NoFollow(T(W, s), s.p).p].to
      W1 == IF IsFileP(T(W, d), d.p)
            THEN [W EXCEPT ![d.b] = DelSet(@, {NoFollow(@, d.p).p})] ELSE W
      o  == Symlink(Dial[d.b], T(W1, d), to, d.p) IN
  IF Dial[d.b] = "zip" THEN FailW("UNDEFINED", W)
  ELSE IF IsErr(o) THEN FailW(o.res[2], W) ELSE Lift(W1, d.b, o)

(* Content (and, within one backend, mode and time) of s to d. *)
CopyData(W, s, d) ==
  LET src == FileOf(T(W, s), s.p) IN
  IF src.e # "" THEN FailW(src.e, W)
  ELSE LET w == WriteTo(W, d, T(W, s)[src.p].c) IN
       IF IsErr(w) THEN FailW(w.res[2], W)
       ELSE IF s.b # d.b THEN Lift(W, d.b, w)
       ELSE LET at == Follow(w.t, d.p).p IN
            OutW(OkR, [W EXCEPT ![d.b] = [w.t EXCEPT ![at] = WithStat(@, T(W, s)[src.p])]])

CopyOne(W, s, d, follow) ==
  IF SameFile(W, s, d) THEN FailW("SAMEFILE", W)
  ELSE IF IsLinkP(T(W, s), s.p) /\ ~follow THEN CopyLink(W, s, d)
  ELSE CopyData(W, s, d)

Into(W, s, d) ==     \* an existing directory receives the source's name
  IF IsDirP(T(W, d), d.p)
  THEN [d EXCEPT !.p = @ \o (IF s.p = <<>> THEN <<>> ELSE <<Name(s.p)>>)] ELSE d

CopyFile(W, s, d, follow) ==
  IF ~ExistsP(T(W, s), s.p) THEN FailW(Missing(T(W, s), s.p), W)
  ELSE IF ~IsFileP(T(W, s), s.p) THEN FailW("ASSERT", W)
  ELSE CopyOne(W, s, Into(W, s, d), follow)

(* The canonical path of d, which need not exist: that of its deepest        *)
(* existing ancestor plus the remaining names.                               *)
RECURSIVE Canon(_, _)
Canon(t, p) ==
  LET r == Follow(t, p) IN
  IF r.e = "" THEN r.p
  ELSE IF p = <<>> THEN <<>> ELSE Append(Canon(t, Parent(p)), Name(p))

Inside(W, s, d) == s.b = d.b /\ IsUnder(Canon(T(W, d), d.p), Canon(T(W, s), s.p))

RECURSIVE CopyDir(_, _, _, _, _, _)
(* One directory level in walk order: subdirectories are made first, then    *)
(* files copied, then the subdirectories are entered.  Stops at an error.    *)
(* What is to be copied is what tree t0 (that before the copy) says: the     *)
(* destination may be reached through links below the source, and what the   *)
(* copy itself makes there is not copied (or the copy would never end).      *)
CopyDir(t0, W, s, d, follow, ignore) ==
  LET ds == SelectSeq(DirsOf(t0, s.p), LAMBDA n : n \notin ignore)
      fs == FilesOf(t0, s.p)
      keep(n) == IsLinkP(t0, Append(s.p, n)) /\ ~follow
      mk(o, n) == IF ErrW(o) THEN o
                  ELSE IF keep(n) THEN CopyLink(o.W, Sub(s, n), Sub(d, n))
                  ELSE Lift(o.W, d.b, Makedirs(Dial[d.b], T(o.W, d), Append(d.p, n)))
      cp(o, n) == IF ErrW(o) THEN o ELSE CopyOne(o.W, Sub(s, n), Sub(d, n), follow)
      dn(o, n) == IF ErrW(o) THEN o ELSE CopyDir(t0, o.W, Sub(s, n), Sub(d, n), follow, ignore)
  IN FoldLeft(dn, FoldLeft(cp, FoldLeft(mk, OutW(OkR, W), ds), fs),
              SelectSeq(ds, LAMBDA n : ~keep(n)))

(* The directories a recursive copy reads, canonically. *)
RECURSIVE Reached(_, _, _)
Reached(t, p, follow) ==
  LET ds == SelectSeq(DirsOf(t, p), LAMBDA n : follow \/ ~IsLinkP(t, Append(p, n))) IN
  {Follow(t, p).p} \cup
  UNION {Reached(t, Append(p, ds[i]), follow) : i \in 1..Len(ds)}

(* All directories that can be reached from canonical directories S.         *)
Kids(t, r) == {Follow(t, Append(r, n)).p : n \in {n \in Children(t, r) : IsDirP(t, Append(r, n))}}
RECURSIVE Closure(_, _)
Closure(t, S) ==
  LET more == UNION {Kids(t, r) : r \in S} IN
  IF more \subseteq S THEN S ELSE Closure(t, S \cup more)

(* Following links below p does not terminate. *)
Cyclic(t, p) == \E r \in Closure(t, {Follow(t, p).p}) : r \in Closure(t, Kids(t, r))

(* What a copy writes may lead into what it reads.                           *)
Entangled(W, s, d, follow) ==
  \/ follow /\ Cyclic(T(W, s), s.p)
  \/ /\ s.b = d.b
     /\ LET src == Reached(T(W, s), s.p, follow)
            c   == Canon(T(W, d), d.p)
            dst == IF IsDirP(T(W, d), d.p) THEN Closure(T(W, d), {c}) ELSE {} IN
        \/ dst \cap src # {}
        \/ \E r \in src : IsUnder(c, r)

(* Nothing is stated about a copy that modifies what it is still reading; it *)
(* may, through links, add to it.                                            *)
Untouched(W, V, s, follow) ==
  \A r \in Reached(T(W, s), s.p, follow) :
     /\ r \in DOMAIN V[s.b]
     /\ Children(W[s.b], r) \subseteq Children(V[s.b], r)
     /\ \A n \in Children(W[s.b], r) :
          LET q == Append(r, n)
              a == Follow(W[s.b], q)
              b == Follow(V[s.b], q) IN
          /\ W[s.b][q] = V[s.b][q]
          /\ a = b /\ (a.e = "" => W[s.b][a.p] = V[s.b][a.p])

CopyTree(W, s, d, follow, ignore) ==
  LET dd == Into(W, s, d) IN
  IF ~ExistsP(T(W, s), s.p) THEN FailW(Missing(T(W, s), s.p), W)
  ELSE IF ~IsDirP(T(W, s), s.p) THEN FailW("ASSERT", W)
  ELSE IF IsLinkP(T(W, s), s.p) /\ ~follow THEN CopyLink(W, s, dd)
  ELSE IF Inside(W, s, dd) THEN FailW("INSIDE", W)
  ELSE IF Dial[dd.b] = "zip" \/ (follow /\ Cyclic(T(W, s), s.p)) THEN FailW("UNDEFINED", W)
  ELSE LET m == Makedirs(Dial[dd.b], T(W, dd), dd.p) IN
       IF IsErr(m) THEN [FailW(m.res[2], W) EXCEPT !.strict = FALSE]
       ELSE LET o == CopyDir(T(W, s), [W EXCEPT ![dd.b] = m.t], s, dd, follow, ignore) IN
            IF s.b = dd.b /\ ~Untouched(W, o.W, s, follow) THEN FailW("UNDEFINED", W)
            ELSE IF ErrW(o) /\ Entangled(W, s, dd, follow) THEN FailW("UNDEFINED", W)
            ELSE IF ErrW(o) THEN [o EXCEPT !.strict = FALSE]
            ELSE o

-------------------------------------------------------------------------------
(* Move, stated declaratively: the subtree of s re-appears under its new     *)
(* name and is gone from the old one.                                        *)

MoveFails(W, s, d) ==       \* an error, and nothing changes
  \/ NoFollow(T(W, s), s.p).e # ""
  \/ /\ IsDirP(T(W, s), s.p) /\ ~IsLinkP(T(W, s), s.p)
     /\ Inside(W, s, Into(W, s, d))
  \/ /\ IsFileP(T(W, s), s.p)         \* nowhere to put it
     /\ s.p # <<>> /\ d.p # <<>> /\ Dial[d.b] # "zip" /\ Dial[s.b] # "zip"
     /\ Slot(T(W, d), Into(W, s, d).p).e # ""

MoveDefined(W, s, d) ==     \* the cases with a stated success
  LET dd == Into(W, s, d)
      ss == NoFollow(T(W, s), s.p)
      sd == Slot(T(W, dd), dd.p) IN
  /\ s.p # <<>> /\ dd.p # <<>>
  /\ Dial[s.b] # "zip" /\ Dial[dd.b] # "zip" 
  /\ ss.e = "" /\ sd.e = ""
  /\ ExistsP(T(W, s), s.p)
  /\ Stable(T(W, s), s.p, ss.p)
  /\ ~SameFile(W, s, dd)
  /\ \/ sd.p \notin DOMAIN T(W, dd)
     \/ dd = d /\ T(W, dd)[sd.p].k = "f" /\ IsFileP(T(W, s), s.p)

Strip(n) == [n EXCEPT !.r = 0, !.x = 0, !.t = 0]

Move(W, s, d) ==
  LET dd == Into(W, s, d)
      a  == NoFollow(T(W, s), s.p).p
      b  == Slot(T(W, dd), dd.p).p
      new == {Rebase(p, a, b) : p \in Subtree(T(W, s), a)}
      conv(n) == IF s.b = dd.b THEN n
                 ELSE CASE n.k = "d" -> DirNode(Dial[dd.b])
                        [] n.k = "f" -> FileNode(Dial[dd.b], n.c)
                        [] OTHER -> n
      gone == [W EXCEPT ![s.b] = DelSet(@, Subtree(@, a))]
      td   == T(gone, dd)
      res  == [q \in DOMAIN td \cup new |->
                 IF q \in new THEN conv(T(W, s)[Rebase(q, b, a)]) ELSE td[q]] IN
  IF MoveFails(W, s, d) THEN FailW("MOVE", W)
  ELSE IF ~MoveDefined(W, s, d) THEN FailW("UNDEFINED", W)
  ELSE OutW(OkR, [gone EXCEPT ![dd.b] = res])

-------------------------------------------------------------------------------
(* What must hold after a failed recursive copy: everything is as before     *)
(* that is not at or below the destination, or an ancestor newly made for it *)
(* (or below a link inside the destination: what these lead to).             *)
(* Where a copy to p may write: at p, at what p leads to (also when that is    *)
(* missing), and so on for the links below.                                   *)
LeadsTo(dl, t, p) ==
  LET slot == Slot(t, p)
      ws   == WriteSlot(dl, t, p, 0) IN
  {Canon(t, p)} \cup (IF slot.e = "" THEN {slot.p} ELSE {}) \cup (IF ws.e = "" THEN {ws.p} ELSE {})
RECURSIVE Writable(_, _, _)
Writable(dl, t, R) ==
  LET more == UNION {LeadsTo(dl, t, q) : q \in {q \in UNION {Subtree(t, r) : r \in R} : t[q].k = "l"}} IN
  IF more \subseteq R THEN R ELSE Writable(dl, t, R \cup more)

Frame(W, V, d) ==
  \A b \in DOMAIN W :
     IF b # d.b THEN W[b] = V[b]
     ELSE LET R      == Writable(Dial[b], W[b], LeadsTo(Dial[b], W[b], d.p))
              may(p) == \E r \in R : IsUnder(p, r) IN
          /\ \A p \in DOMAIN W[b] : may(p) \/ (p \in DOMAIN V[b] /\ V[b][p] = W[b][p])
          /\ \A p \in DOMAIN V[b] : \/ p \in DOMAIN W[b]
                                    \/ may(p)
                                    \/ V[b][p].k = "d" /\ \E r \in R : IsUnder(r, p)
===============================================================================
