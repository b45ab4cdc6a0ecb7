---------------------------------- MODULE Dump ----------------------------------
(***************************************************************************)
(* The dump of a memory file system (C25): what it shows of the tree, and     *)
(* that it changes nothing.                                                   *)
(*                                                                           *)
(* Names and texts are sequences of code points, contents sequences of bytes  *)
(* (Handle.tla); a path is a sequence of names.  A tree T is a function from  *)
(* paths to nodes, the root not being among them:                             *)
(*   [kind |-> "dir"], [kind |-> "file", data |-> bytes],                     *)
(*   [kind |-> "link", to |-> path]                                           *)
(***************************************************************************)
EXTENDS Handle, FiniteSets, SequencesExt

TStart   == <<77, 69, 77, 79, 82, 89, 32, 68, 85, 77, 80, 58, 32, 83, 84, 65, 82, 84, 10>>   \* MEMORY DUMP: START\n
TEnd     == <<77, 69, 77, 79, 82, 89, 32, 68, 85, 77, 80, 58, 32, 69, 78, 68, 10>>   \* MEMORY DUMP: END\n
TFile    == <<45, 45, 45, 32, 83, 84, 65, 82, 84, 32>>   \* --- START 
TBody    == <<32, 45, 45, 45, 10>>   \*  ---\n
TFileEnd == <<10, 45, 45, 45, 32, 69, 78, 68, 32, 45, 45, 45, 10, 10>>   \* \n--- END ---\n\n
TLink    == <<76, 73, 78, 75, 58, 32>>   \* LINK: 
TTo      == <<32, 45, 62, 32>>   \*  -> 
TDir     == <<68, 73, 82, 58, 32>>   \* DIR: 
TRoot    == <<109, 101, 109, 111, 114, 121, 58, 47, 47, 47>>   \* memory:///
TBinary  == <<66, 105, 110, 97, 114, 121, 58, 32>>   \* Binary: 
TPng     == <<46, 112, 110, 103>>   \* .png
TGif     == <<46, 103, 105, 102>>   \* .gif

-------------------------------------------------------------------------------
(* --- trees --- *)
DirNode == [kind |-> "dir"]
FileNode(b) == [kind |-> "file", data |-> b]
LinkNode(t) == [kind |-> "link", to |-> t]
Base(p) == p[Len(p)]
Parent(p) == SubSeq(p, 1, Len(p) - 1)
Below(q, p) == Len(p) >= Len(q) /\ SubSeq(p, 1, Len(q)) = q      \* p is q or below q
Put1(T, p, n) == [x \in DOMAIN T \cup {p} |-> IF x = p THEN n ELSE T[x]]

(* p with the links on its way and at its end followed *)
RECURSIVE RealN(_, _, _)
RealN(T, p, fuel) ==
  LET ks == {i \in DOMAIN p : SubSeq(p, 1, i) \in DOMAIN T /\ T[SubSeq(p, 1, i)].kind = "link"} IN
  IF ks = {} \/ fuel = 0 THEN p
  ELSE LET k == CHOOSE i \in ks : \A j \in ks : i <= j IN
       RealN(T, T[SubSeq(p, 1, k)].to \o SubSeq(p, k + 1, Len(p)), fuel - 1)
Real(T, p) == RealN(T, p, 12)
Spot(T, p) == Append(Real(T, Parent(p)), Base(p))                \* the entry p itself

Without(T, q) == [x \in {y \in DOMAIN T : ~Below(q, y)} |-> T[x]]
Moved(T, a, b) ==
  LET rest == Without(Without(T, b), a)
      new(y) == b \o SubSeq(y, Len(a) + 1, Len(y))
      part == {y \in DOMAIN T : Below(a, y)}
      at(z) == CHOOSE y \in part : new(y) = z IN
  [z \in DOMAIN rest \cup {new(y) : y \in part} |-> IF \E y \in part : new(y) = z THEN T[at(z)] ELSE rest[z]]

(* what a successful operation makes of a tree *)
Effect(T, ev) ==
  CASE ev.op = "mkdir" -> Put1(T, Spot(T, ev.p), DirNode)
    [] ev.op = "write" -> Put1(T, Real(T, ev.p), FileNode(ev.data))
    [] ev.op = "append" -> LET q == Real(T, ev.p) IN
                           Put1(T, q, FileNode((IF q \in DOMAIN T THEN T[q].data ELSE <<>>) \o ev.data))
    [] ev.op = "remove" -> Without(T, Spot(T, ev.p))
    [] ev.op = "symlink" -> Put1(T, Spot(T, ev.p), LinkNode(ev.q))
    [] ev.op = "move" -> Moved(T, Spot(T, ev.p), Spot(T, ev.q))
    [] ev.op = "copy" -> Put1(T, Real(T, ev.q), T[Real(T, ev.p)])
    [] OTHER -> T

-------------------------------------------------------------------------------
(* --- the dump --- *)
RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
              ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Less(Tail(a), Tail(b))
Names(T, d) == {Base(p) : p \in {x \in DOMAIN T : Len(x) = Len(d) + 1 /\ Below(d, x)}}

(* the paths below d, in the order of the dump: every directory is followed by what is in it *)
RECURSIVE Order(_, _), Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))
Order(T, d) ==
  LET ns == SetToSortSeq(Names(T, d), Less) IN
  Flatten([i \in DOMAIN ns |-> LET p == Append(d, ns[i]) IN
             <<p>> \o (IF T[p].kind = "dir" THEN Order(T, p) ELSE <<>>)])

RECURSIVE Slashed(_)
Slashed(p) == IF p = <<>> THEN <<>> ELSE IF Len(p) = 1 THEN p[1] ELSE p[1] \o <<47>> \o Slashed(Tail(p))
Url(p) == TRoot \o Slashed(p)

Low(c) == IF c \in 65..90 THEN c + 32 ELSE c
EndsWith(n, s) == Len(n) > Len(s) /\ \A i \in DOMAIN s : Low(n[Len(n) - Len(s) + i]) = s[i]
IsImage(n) == EndsWith(n, TPng) \/ EndsWith(n, TGif)

(* md5: the digests of contents, as given; suffix: what link targets end with *)
Shown(T, p, plain, md5, suffix) ==
  LET n == T[p] IN
  CASE n.kind = "dir" -> TDir \o Url(p) \o <<10>>
    [] n.kind = "link" -> TLink \o Url(p) \o TTo \o Url(n.to) \o suffix \o <<10>>
    [] n.kind = "file" -> TFile \o Url(p) \o TBody
                          \o (IF plain /\ IsImage(Base(p)) THEN TBinary \o md5[n.data] ELSE Dec(n.data))
                          \o TFileEnd
Text(T, plain, md5, suffix) ==
  LET ps == Order(T, <<>>) IN
  TStart \o Flatten([i \in DOMAIN ps |-> Shown(T, ps[i], plain, md5, suffix)]) \o TEnd
(* texts only have a dump if they are texts *)
Dumpable(T, plain) == \A p \in DOMAIN T : T[p].kind = "file" => (plain /\ IsImage(Base(p))) \/ Valid(T[p].data)
===============================================================================
