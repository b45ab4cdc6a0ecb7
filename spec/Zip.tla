----------------------------------- MODULE Zip -----------------------------------
(***************************************************************************)
(* What an archive is for its users: a map from member paths to contents,     *)
(* with the directories its members imply.  A: [files, dirs]; dirs are the     *)
(* directories an archive made elsewhere lists itself.  Paths are sequences    *)
(* of names, names are numbers in the order of the names.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoFiles == [x \in {} |-> ""]
NoArchive == [files |-> NoFiles, dirs |-> {}]
Set(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Above(p) == {SubSeq(p, 1, k) : k \in 0..(Len(p) - 1)}

Entries(A) == DOMAIN A.files \cup A.dirs
IsFile(A, p) == p \in DOMAIN A.files
Dirs(A) == {<<>>} \cup A.dirs \cup UNION {Above(p) : p \in Entries(A)}
IsDir(A, p) == p \in Dirs(A)
Exists(A, p) == IsFile(A, p) \/ IsDir(A, p)
Names(A, p) == {q[Len(p) + 1] : q \in {x \in Entries(A) : Prefix(p, x) /\ Len(x) > Len(p)}}
RECURSIVE SortedSeq(_)
SortedSeq(s) == IF s = {} THEN <<>>
                ELSE LET m == CHOOSE x \in s : \A y \in s : x <= y IN <<m>> \o SortedSeq(s \ {m})
Write(A, p, x) == [A EXCEPT !.files = Set(@, p, x)]

Read(A, p) == IF IsFile(A, p) THEN <<"data", A.files[p]>> ELSE <<"missing">>
Listing(A, p) == IF IsDir(A, p) THEN <<"names", SortedSeq(Names(A, p))>> ELSE <<"missing">>
Truth(b) == IF b THEN <<"T">> ELSE <<"F">>

(* Everything below p, directory by directory, in order *)
RECURSIVE Walk(_, _, _), WalkEach(_, _, _, _)
Walk(A, p, topdown) ==
  LET ns == SortedSeq(Names(A, p))
      ds == SelectSeq(ns, LAMBDA n : IsDir(A, Append(p, n)))
      me == << <<p, ds, SelectSeq(ns, LAMBDA n : ~IsDir(A, Append(p, n)))>> >>
      below == WalkEach(A, p, ds, topdown) IN
  IF topdown THEN me \o below ELSE below \o me
WalkEach(A, p, ds, topdown) ==
  IF ds = <<>> THEN <<>> ELSE Walk(A, Append(p, Head(ds)), topdown) \o WalkEach(A, p, Tail(ds), topdown)

(* The result of a question *)
Answer(A, ev) ==
  CASE ev.op = "read"   -> Read(A, ev.path)
    [] ev.op = "exists" -> Truth(Exists(A, ev.path))
    [] ev.op = "isfile" -> Truth(IsFile(A, ev.path))
    [] ev.op = "isdir"  -> Truth(IsDir(A, ev.path))
    [] ev.op = "list"   -> Listing(A, ev.path)
    [] ev.op = "walk"   -> IF IsDir(A, ev.path) THEN <<"walk", Walk(A, ev.path, ev.topdown)>> ELSE <<"missing">>
    [] OTHER -> <<"none">>
===============================================================================
