---------------------------------- MODULE DumpModel ----------------------------------
(***************************************************************************)
(* How the memory file system makes its dump: walking its nodes, while files  *)
(* are being read and written; sessions share the position of their file.     *)
(* Checked to give Dump.tla's text whatever happened before, and to leave the *)
(* sessions alone.  Laws of the text, stated without its definition.          *)
(***************************************************************************)
EXTENDS Dump, Json, IOUtils

CONSTANTS MaxOps, Whole, Still, Sorted

A == <<97>>
B == <<97, 46, 112, 110, 103>>      \* a.png
MPaths == {<<A>>, <<B>>, <<A, A>>, <<A, B>>}
Datas == {<<98>>, <<99, 195, 164>>}
MD5(T) == [d \in {T[p].data : p \in {x \in DOMAIN T : T[x].kind = "file"}} |-> <<0>> \o d]

(* T: the tree as it should be; K: the keys in the order they were made; P: the *)
(* position the file at each path has; H: the session (or none), on file F      *)
VARIABLES T, K, P, H, F, hist, wrong
vars == <<T, K, P, H, F, hist, wrong>>
None == [bin |-> TRUE, r |-> FALSE, w |-> FALSE, app |-> FALSE, pos |-> 0]
NoF == [x \in {} |-> 0]

Has(p) == p \in DOMAIN T
CanMake(p) == ~Has(p) /\ (Len(p) = 1 \/ (Has(Parent(p)) /\ T[Parent(p)].kind = "dir"))
IsFile(p) == Has(p) /\ T[p].kind = "file"
Log(o) == hist' = Append(hist, o)

Mkdir(p) == CanMake(p) /\ T' = Effect(T, [op |-> "mkdir", p |-> p]) /\ K' = Append(K, p) /\ Log(<<"mkdir", p>>)
            /\ UNCHANGED <<P, H, F, wrong>>
Write(p, d) == (CanMake(p) \/ IsFile(p)) /\ F # p /\ T' = Effect(T, [op |-> "write", p |-> p, data |-> d])
               /\ K' = (IF Has(p) THEN K ELSE Append(K, p)) /\ P' = Put1(P, p, 0) /\ Log(<<"write", p, d>>)
               /\ UNCHANGED <<H, F, wrong>>
Symlink(p, q) == CanMake(p) /\ p # q /\ T' = Effect(T, [op |-> "symlink", p |-> p, q |-> q])
                 /\ K' = Append(K, p) /\ Log(<<"symlink", p, q>>) /\ UNCHANGED <<P, H, F, wrong>>
Delete(p) == Has(p) /\ (\A x \in DOMAIN T : Below(p, x) => x = p) /\ F # p /\ T' = Effect(T, [op |-> "remove", p |-> p])
             /\ K' = SelectSeq(K, LAMBDA x : x # p) /\ Log(<<"remove", p>>) /\ UNCHANGED <<P, H, F, wrong>>
OpenR(p) == IsFile(p) /\ F = <<>> /\ F' = p /\ H' = Open("rb", T[p].data) /\ P' = Put1(P, p, 0) /\ Log(<<"open", p>>)
            /\ UNCHANGED <<T, K, wrong>>
(* a session reads at the position of its file *)
Read == F # <<>> /\ LET x == Step([H EXCEPT !.pos = P[F]], T[F].data, [op |-> "read", n |-> 1])
                        y == Step(H, T[F].data, [op |-> "read", n |-> 1]) IN
        /\ P' = Put1(P, F, x.pos) /\ H' = [H EXCEPT !.pos = y.pos] /\ wrong' = (wrong \/ x.res # y.res)
        /\ Log(<<"read">>) /\ UNCHANGED <<T, K, F>>
Close == F # <<>> /\ F' = <<>> /\ H' = None /\ Log(<<"close">>) /\ UNCHANGED <<T, K, P, wrong>>

(* --- the algorithm --- *)
Data(p) == IF Whole THEN T[p].data ELSE From(T[p].data, P[p])
RECURSIVE AlgOrder(_)
AlgOrder(d) ==
  LET all == SelectSeq(K, LAMBDA x : Len(x) = Len(d) + 1 /\ Below(d, x))
      ns == IF Sorted THEN SortSeq(all, LAMBDA x, y : Less(Base(x), Base(y))) ELSE all IN
  Flatten([i \in DOMAIN ns |-> <<ns[i]>> \o (IF T[ns[i]].kind = "dir" THEN AlgOrder(ns[i]) ELSE <<>>)])
AlgText(plain) ==
  LET ps == AlgOrder(<<>>)
      V == [p \in DOMAIN T |-> IF T[p].kind = "file" THEN FileNode(Data(p)) ELSE T[p]] IN
  TStart \o Flatten([i \in DOMAIN ps |-> Shown(V, ps[i], plain, MD5(V), <<>>)]) \o TEnd
Dump1(plain) ==
  /\ LET a == AlgText(plain) IN wrong' = (wrong \/ a # Text(T, plain, MD5(T), <<>>))
  /\ P' = (IF Still THEN P ELSE [p \in DOMAIN P |-> IF IsFile(p) THEN Len(T[p].data) ELSE P[p]])
  /\ Log(<<"dump", plain>>) /\ UNCHANGED <<T, K, H, F>>

Init == T = NoF /\ K = <<>> /\ P = NoF /\ H = None /\ F = <<>> /\ hist = <<>> /\ wrong = FALSE
Next == /\ Len(hist) < MaxOps /\ ~wrong
        /\ \/ \E p \in MPaths : Mkdir(p) \/ Delete(p) \/ OpenR(p) \/ (\E d \in Datas : Write(p, d))
                                \/ (\E q \in {<<A>>, <<A, B>>} : Symlink(p, q))
           \/ Read \/ Close
           \/ \E plain \in BOOLEAN : Dump1(plain)
Spec == Init /\ [][Next]_vars
Right == ~wrong

(* --- laws --- *)
Count(s, t) == Cardinality({i \in 0..(Len(s) - Len(t)) : SubSeq(s, i + 1, i + Len(t)) = t})
Once == LET ps == Order(T, <<>>) IN
        /\ {ps[i] : i \in DOMAIN ps} = DOMAIN T /\ Len(ps) = Cardinality(DOMAIN T)
        /\ \A i, j \in DOMAIN ps : i < j /\ Parent(ps[i]) = Parent(ps[j]) => Less(Base(ps[i]), Base(ps[j]))
        /\ \A i, j \in DOMAIN ps : Below(ps[i], ps[j]) => i <= j
Lines1 == LET s == Text(T, FALSE, MD5(T), <<>>) IN
  \A p \in DOMAIN T :
    CASE T[p].kind = "dir" -> Count(s, TDir \o Url(p) \o <<10>>) = 1
      [] T[p].kind = "link" -> Count(s, TLink \o Url(p) \o TTo \o Url(T[p].to) \o <<10>>) = 1
      [] OTHER -> Count(s, TFile \o Url(p) \o TBody \o Dec(T[p].data) \o TFileEnd) = 1
Suppressed == LET s == Text(T, TRUE, MD5(T), <<>>) IN
  \A p \in DOMAIN T : T[p].kind = "file" =>
     Count(s, TFile \o Url(p) \o TBody \o (IF IsImage(Base(p)) THEN TBinary \o MD5(T)[T[p].data] ELSE Dec(T[p].data)) \o TFileEnd) = 1
Export == IF IOEnv.EXPORT = "1" /\ Len(hist) = MaxOps THEN PrintT("HIST " \o ToJson(hist)) ELSE TRUE
View == <<T, K, P, H, F, Len(hist), wrong>>
===============================================================================
