---------------------------------- MODULE FS ----------------------------------
(***************************************************************************)
(* Semantics of one abl.vpath backend as a tree of nodes.                   *)
(*                                                                          *)
(* A tree is a function from absolute paths (sequences of names) to nodes;  *)
(* its domain contains the root <<>> and is closed under parents.  A node   *)
(* has the kind k ("d", "f", "l"), the content c (a sequence of content     *)
(* tokens), the permission bits split into r (everything but exec) and x    *)
(* (the three exec bits, 0..7), the modification time t (a small number     *)
(* assigned by somebody, or -1: "some time during this run"), and the link  *)
(* target to.  Unused fields have fixed values, so nodes compare with "=".  *)
(*                                                                          *)
(* Every operation is an operator  Op(d, tree, ...)  returning the outcome  *)
(* [res |-> result, t |-> tree after].  d is the dialect: "local" or        *)
(* "memory".  Deliberate differences between the two are marked DIALECT.    *)
(* Results are sequences of strings, tagged by their first element.         *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, Bitwise, TLC

CONSTANTS Ord,        \* all names that can occur, in Python's string order
          TokSize     \* TokSize[c]: number of bytes of content token c

MaxLink == 40         \* link traversals before ELOOP

-------------------------------------------------------------------------------
(* Nodes and trees *)

FileR(d) == IF d = "local" THEN 420 ELSE 0     \* DIALECT: 0o644 = 420

(* Modes and times of directories and of links themselves are not modelled. *)
DirNode(d)        == [k |-> "d", c |-> <<>>, r |-> 0, x |-> 0, t |-> 0, to |-> <<>>]
FileNode(d, c)    == [k |-> "f", c |-> c, r |-> FileR(d), x |-> 0, t |-> -1, to |-> <<>>]
LinkNode(target)  == [k |-> "l", c |-> <<>>, r |-> 0, x |-> 0, t |-> 0, to |-> target]

EmptyTree(d) == [p \in {<<>>} |-> DirNode(d)]

Put(t, p, n)      == [q \in DOMAIN t \cup {p} |-> IF q = p THEN n ELSE t[q]]
DelSet(t, S)      == [q \in DOMAIN t \ S |-> t[q]]
Parent(p)         == SubSeq(p, 1, Len(p) - 1)
Name(p)           == p[Len(p)]
IsUnder(p, q)     == Len(p) >= Len(q) /\ SubSeq(p, 1, Len(q)) = q      \* p = q or below
IsBelow(p, q)     == Len(p) > Len(q) /\ SubSeq(p, 1, Len(q)) = q
Subtree(t, q)     == {p \in DOMAIN t : IsUnder(p, q)}
Children(t, q)    == {Name(p) : p \in {p \in DOMAIN t : Len(p) = Len(q) + 1 /\ SubSeq(p, 1, Len(q)) = q}}
Rebase(p, a, b)   == b \o SubSeq(p, Len(a) + 1, Len(p))

WellFormed(t) ==
  /\ <<>> \in DOMAIN t /\ t[<<>>].k = "d"
  /\ \A p \in DOMAIN t : p # <<>> => Parent(p) \in DOMAIN t /\ t[Parent(p)].k = "d"
  /\ \A p \in DOMAIN t : /\ t[p].k \in {"d", "f", "l"}
                         /\ t[p].k # "f" => t[p].c = <<>>
                         /\ t[p].k # "l" => t[p].to = <<>>

Sorted(S) == SelectSeq(Ord, LAMBDA n : n \in S)

RECURSIVE PathStr(_)
PathStr(p) == IF p = <<>> THEN "" ELSE PathStr(Parent(p)) \o "/" \o Name(p)

-------------------------------------------------------------------------------
(* Results *)
OkR        == <<"ok">>
ErrR(e)    == <<"err", e>>
BoolR(b)   == <<"bool", IF b THEN "T" ELSE "F">>
Out(res, t) == [res |-> res, t |-> t]
Fail(e, t)  == Out(ErrR(e), t)
IsErr(o)    == o.res[1] = "err"

-------------------------------------------------------------------------------
(* Path resolution.  e = "" : found, p is the canonical path (no link in it  *)
(* except possibly the last component when follow = FALSE).                  *)
RECURSIVE Res(_, _, _, _, _)
Res(t, cur, rest, follow, n) ==
  IF rest = <<>> THEN [e |-> "", p |-> cur]
  ELSE IF t[cur].k # "d" THEN [e |-> "ENOTDIR", p |-> <<>>]
  ELSE LET c == Append(cur, Head(rest)) IN
       IF c \notin DOMAIN t THEN [e |-> "ENOENT", p |-> <<>>]
       ELSE IF t[c].k = "l" /\ (Len(rest) > 1 \/ follow)
            THEN IF n >= MaxLink THEN [e |-> "ELOOP", p |-> <<>>]
                 ELSE Res(t, <<>>, t[c].to \o Tail(rest), follow, n + 1)
            ELSE Res(t, c, Tail(rest), follow, n)

Follow(t, p)   == Res(t, <<>>, p, TRUE, 0)
NoFollow(t, p) == Res(t, <<>>, p, FALSE, 0)

KindAt(t, p) == LET r == Follow(t, p) IN IF r.e = "" THEN t[r.p].k ELSE ""
ExistsP(t, p) == KindAt(t, p) # ""
IsDirP(t, p)  == KindAt(t, p) = "d"
IsFileP(t, p) == KindAt(t, p) = "f"
IsLinkP(t, p) == LET r == NoFollow(t, p) IN r.e = "" /\ t[r.p].k = "l"

(* Where a new entry p would be created: canonical parent + name. *)
Slot(t, p) ==
  IF p = <<>> THEN [e |-> "EEXIST", p |-> <<>>] ELSE
  LET r == Follow(t, Parent(p)) IN
  IF r.e # "" THEN r
  ELSE IF t[r.p].k # "d" THEN [e |-> "ENOTDIR", p |-> <<>>]
  ELSE [e |-> "", p |-> Append(r.p, Name(p))]

-------------------------------------------------------------------------------
(* Queries *)
Exists(d, t, p) == Out(BoolR(ExistsP(t, p)), t)
IsFile(d, t, p) == Out(BoolR(IsFileP(t, p)), t)
IsDir(d, t, p)  == Out(BoolR(IsDirP(t, p)), t)
IsLink(d, t, p) == Out(BoolR(IsLinkP(t, p)), t)

Names(t, p) == Sorted(Children(t, Follow(t, p).p))     \* p must be a directory

ListDir(d, t, p) ==
  LET r == Follow(t, p) IN
  IF r.e # "" THEN Fail(r.e, t)
  ELSE IF t[r.p].k # "d" THEN Fail("ENOTDIR", t)
  ELSE Out(<<"names">> \o Sorted(Children(t, r.p)), t)

(* Shell-style matching of a name: '*', '?', '[abc]', '[!abc]' and literal   *)
(* characters.                                                               *)
Chars(s)  == {SubSeq(s, i, i) : i \in 1..Len(s)}
Close(pat) ==      \* position of the ']' that closes the set pat starts with, or 0
  LET first == IF SubSeq(pat, 2, 2) = "!" THEN 4 ELSE 3
      is == {i \in first..Len(pat) : SubSeq(pat, i, i) = "]"} IN
  IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : i <= j
InSet(c, set) == IF SubSeq(set, 1, 1) = "!" THEN c \notin Chars(SubSeq(set, 2, Len(set)))
                                           ELSE c \in Chars(set)
RECURSIVE Match(_, _)
Match(s, pat) ==
  IF pat = "" THEN s = ""
  ELSE LET h == SubSeq(pat, 1, 1)
           pr == SubSeq(pat, 2, Len(pat)) IN
       CASE h = "*" -> Match(s, pr) \/ (s # "" /\ Match(SubSeq(s, 2, Len(s)), pat))
         [] h = "[" /\ Close(pat) > 0 ->
              /\ s # ""
              /\ InSet(SubSeq(s, 1, 1), SubSeq(pat, 2, Close(pat) - 1))
              /\ Match(SubSeq(s, 2, Len(s)), SubSeq(pat, Close(pat) + 1, Len(pat)))
         [] h = "?" -> s # "" /\ Match(SubSeq(s, 2, Len(s)), pr)
         [] OTHER   -> s # "" /\ SubSeq(s, 1, 1) = h /\ Match(SubSeq(s, 2, Len(s)), pr)

Glob(d, t, p, pat) ==
  LET l == ListDir(d, t, p) IN
  IF IsErr(l) THEN l
  ELSE Out(<<"paths">> \o
           [i \in 1..Len(SelectSeq(Tail(l.res), LAMBDA n : Match(n, pat))) |->
              PathStr(Append(p, SelectSeq(Tail(l.res), LAMBDA n : Match(n, pat))[i]))], t)

(* Files of a directory as walk sees them: what is (a link to) a directory   *)
(* goes to the first list, everything else to the second.                    *)
DirsOf(t, p)  == SelectSeq(Names(t, p), LAMBDA n : IsDirP(t, Append(p, n)))
FilesOf(t, p) == SelectSeq(Names(t, p), LAMBDA n : ~IsDirP(t, Append(p, n)))

RECURSIVE WalkSeq(_, _, _, _, _)
(* The flattened sequence of (directory, dirs, files) triples.  prune: names *)
(* the consumer deletes from the list of a top-down entry.                   *)
WalkSeq(t, p, topdown, follow, prune) ==
  LET ds == DirsOf(t, p)
      here == <<"|D", PathStr(p), "|d">> \o ds \o <<"|f">> \o FilesOf(t, p)
      enter == SelectSeq(ds, LAMBDA n : /\ (follow \/ ~IsLinkP(t, Append(p, n)))
                                        /\ ~(topdown /\ n \in prune))
      below == FoldLeft(LAMBDA acc, n : acc \o WalkSeq(t, Append(p, n), topdown, follow, prune),
                        <<>>, enter)
  IN IF topdown THEN here \o below ELSE below \o here

Walk(d, t, p, topdown, follow, prune) ==
  LET l == ListDir(d, t, p) IN
  IF IsErr(l) THEN l
  ELSE Out(<<"walk">> \o WalkSeq(t, p, topdown, follow, prune), t)

-------------------------------------------------------------------------------
(* Namespace *)
Mkdir(d, t, p) ==
  LET s == Slot(t, p) IN
  IF s.e # "" THEN Fail(s.e, t)
  ELSE IF s.p \in DOMAIN t THEN Fail("EEXIST", t)
  ELSE Out(OkR, Put(t, s.p, DirNode(d)))

RECURSIVE Makedirs(_, _, _)
Makedirs(d, t, p) ==
  IF IsDirP(t, p) THEN Out(OkR, t)
  ELSE LET up == IF IsDirP(t, Parent(p)) THEN Out(OkR, t) ELSE Makedirs(d, t, Parent(p)) IN
       IF IsErr(up) THEN up ELSE Mkdir(d, up.t, p)

Symlink(d, t, target, p) ==
  LET s == Slot(t, p) IN
  IF s.e # "" THEN Fail(s.e, t)
  ELSE IF s.p \in DOMAIN t THEN Fail("EEXIST", t)
  ELSE Out(OkR, Put(t, s.p, LinkNode(target)))

Readlink(d, t, p) ==
  LET r == NoFollow(t, p) IN
  IF r.e # "" THEN Fail(r.e, t)
  ELSE IF t[r.p].k # "l" THEN Fail("EINVAL", t)
  ELSE Out(<<"link", PathStr(t[r.p].to), "own">>, t)

(* A missing path; what does not exist because of a link loop may be reported *)
(* either way.                                                               *)
Missing(t, p) == IF Follow(t, p).e = "ELOOP" THEN "NOFILE_ELOOP" ELSE "NOFILE"

(* p leads to q without using links inside the directory q itself; nothing is *)
(* stated about emptying a directory through a link that is lost on the way.  *)
Stable(t, p, q) == NoFollow(DelSet(t, Subtree(t, q) \ {q}), p) = [e |-> "", p |-> q]

RemoveP(d, t, p, recursive) ==
  IF IsLinkP(t, p) THEN Out(OkR, DelSet(t, {NoFollow(t, p).p}))
  ELSE IF ~ExistsP(t, p) THEN Fail(Missing(t, p), t)
  ELSE LET q == Follow(t, p).p IN
       IF t[q].k = "f" THEN Out(OkR, DelSet(t, {q}))
       ELSE IF recursive /\ ~Stable(t, p, q) THEN Fail("UNDEFINED", t)
       ELSE IF recursive THEN Out(OkR, DelSet(t, Subtree(t, q) \ {<<>>}))
       ELSE IF Children(t, q) # {} THEN Fail("ENOTEMPTY", t)
       ELSE Out(OkR, DelSet(t, {q} \ {<<>>}))

-------------------------------------------------------------------------------
(* Content *)

(* The file that opening p for writing or appending would write:  e # "" or  *)
(* the canonical path p, which may not exist yet.                            *)
RECURSIVE WriteSlot(_, _, _, _)
WriteSlot(d, t, p, n) ==
  LET s == Slot(t, p) IN
  IF p = <<>> THEN [e |-> "EISDIR", p |-> <<>>]
  ELSE IF s.e # "" THEN s
  ELSE IF s.p \notin DOMAIN t THEN s
  ELSE CASE t[s.p].k = "d" -> [e |-> "EISDIR", p |-> <<>>]
         [] t[s.p].k = "f" -> s
         [] OTHER ->
              LET r == Follow(t, s.p) IN
              IF r.e = "" THEN IF t[r.p].k = "d" THEN [e |-> "EISDIR", p |-> <<>>] ELSE r
              ELSE IF r.e # "ENOENT" \/ d = "memory" THEN r       \* DIALECT
              ELSE IF n >= MaxLink THEN [e |-> "ELOOP", p |-> <<>>]
              ELSE WriteSlot(d, t, t[s.p].to, n + 1)

WriteFile(d, t, p, c) ==
  LET s == WriteSlot(d, t, p, 0) IN
  IF s.e # "" THEN Fail(s.e, t)
  ELSE IF s.p \in DOMAIN t THEN Out(OkR, [t EXCEPT ![s.p].c = c, ![s.p].t = -1])
  ELSE Out(OkR, Put(t, s.p, FileNode(d, c)))

(* A zip member implies its directories. *)
WriteMember(t, p, c) ==
  LET dirs == {SubSeq(p, 1, i) : i \in 0..(Len(p) - 1)} IN
  IF KindAt(t, p) = "d" \/ \E q \in dirs : KindAt(t, q) = "f"
  THEN Fail("UNDEFINED", t)
  ELSE Out(OkR, [q \in DOMAIN t \cup dirs \cup {p} |->
                   IF q = p THEN FileNode("zip", c)
                   ELSE IF q \in DOMAIN t THEN t[q] ELSE DirNode("zip")])

AppendFile(d, t, p, c) ==
  LET s == WriteSlot(d, t, p, 0) IN
  IF s.e # "" THEN Fail(s.e, t)
  ELSE IF s.p \in DOMAIN t
       THEN Out(OkR, IF c = <<>> THEN t ELSE [t EXCEPT ![s.p].c = @ \o c, ![s.p].t = -1])
  ELSE Out(OkR, Put(t, s.p, FileNode(d, c)))

FileOf(t, p) ==      \* canonical path of the file p denotes
  LET r == Follow(t, p) IN
  IF r.e # "" THEN r
  ELSE IF t[r.p].k = "d" THEN [e |-> "EISDIR", p |-> <<>>] ELSE r

ReadFile(d, t, p) ==
  LET r == FileOf(t, p) IN
  IF r.e # "" THEN Fail(r.e, t) ELSE Out(<<"data">> \o t[r.p].c, t)

(* A session that reads the first k tokens and stops there. *)
ReadHead(d, t, p, k) ==
  LET r == FileOf(t, p) IN
  IF r.e # "" THEN Fail(r.e, t)
  ELSE LET c == t[r.p].c IN Out(<<"data">> \o SubSeq(c, 1, IF k < Len(c) THEN k ELSE Len(c)), t)

RECURSIVE SizeOf(_)
SizeOf(c) == IF c = <<>> THEN 0 ELSE TokSize[Head(c)] + SizeOf(Tail(c))

-------------------------------------------------------------------------------
(* Metadata of the file p resolves to.  For a directory: UNDEFINED (not      *)
(* modelled, no statement).                                                  *)
MetaOf(t, p) ==
  LET r == Follow(t, p) IN
  IF r.e = "" /\ t[r.p].k = "d" THEN [e |-> "UNDEFINED", p |-> <<>>] ELSE r

Size(d, t, p) ==
  LET r == MetaOf(t, p) IN
  IF r.e # "" THEN Fail(r.e, t) ELSE Out(<<"num", ToString(SizeOf(t[r.p].c))>>, t)

Mode(d, t, p) ==
  LET r == MetaOf(t, p) IN
  IF r.e # "" THEN Fail(r.e, t)
  ELSE Out(<<"mode", ToString(t[r.p].r), ToString(t[r.p].x)>>, t)

Mtime(d, t, p) ==
  LET r == MetaOf(t, p) IN
  IF r.e # "" THEN Fail(r.e, t) ELSE Out(<<"time", ToString(t[r.p].t)>>, t)

IsExec(d, t, p, mask) ==
  LET r == MetaOf(t, p) IN
  IF r.e # "" THEN Fail(r.e, t) ELSE Out(BoolR((t[r.p].x & mask) # 0), t)

SetExec(d, t, p, x) ==
  LET r == MetaOf(t, p) IN
  IF r.e # "" THEN Fail(r.e, t) ELSE Out(OkR, [t EXCEPT ![r.p].x = x])

SetMode(d, t, p, r0, x) ==
  LET r == MetaOf(t, p) IN
  IF r.e # "" THEN Fail(r.e, t) ELSE Out(OkR, [t EXCEPT ![r.p].r = r0, ![r.p].x = x])

SetMtime(d, t, p, m) ==
  LET r == MetaOf(t, p) IN
  IF r.e # "" THEN Fail(r.e, t) ELSE Out(OkR, [t EXCEPT ![r.p].t = m])

(* Setting a link's own mode and reading it back leaves the tree (in         *)
(* particular the link's target) alone.                                      *)
LinkMode(d, t, p, r0, x) ==
  LET r == NoFollow(t, p) IN
  IF r.e # "" THEN Fail(r.e, t)
  ELSE IF t[r.p].k # "l" THEN Fail("UNDEFINED", t)
  ELSE Out(<<"mode", ToString(r0), ToString(x)>>, t)

(* Reading a link's own information tells that it is one. *)
LinkInfo(d, t, p) ==
  LET r == NoFollow(t, p) IN
  IF r.e # "" THEN Fail(r.e, t)
  ELSE IF t[r.p].k # "l" THEN Fail("UNDEFINED", t)
  ELSE Out(<<"islnk">>, t)

WithStat(n, m)   == [n EXCEPT !.r = m.r, !.x = m.x, !.t = m.t]

Copystat(d, t, p, q) ==
  LET a == MetaOf(t, p)
      b == MetaOf(t, q) IN
  IF "UNDEFINED" \in {a.e, b.e} THEN Fail("UNDEFINED", t)
  ELSE IF a.e # "" THEN Fail(a.e, t)
  ELSE IF b.e # "" THEN Fail(b.e, t)
  ELSE Out(OkR, [t EXCEPT ![b.p] = WithStat(@, t[a.p])])
===============================================================================
