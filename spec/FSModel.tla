-------------------------------- MODULE FSModel --------------------------------
(***************************************************************************)
(* Exhaustive model of the tree semantics: all trees that calls of the       *)
(* interface can produce within the bounds, and in each of them every call.  *)
(* The laws below state the properties C08-C18 declaratively, independently  *)
(* of the operational definitions in FS.tla and Transfer.tla.                *)
(*                                                                          *)
(* With EXPORT=1 every reachable world is printed ("TREE ..."), and once the *)
(* calls of the property ("CALLS ..."); the harness then makes each of these *)
(* calls on each of these trees with the real code.                         *)
(***************************************************************************)
EXTENDS VPath, Json, IOUtils

CONSTANTS N,            \* names
          Depth,        \* length of paths
          MaxNodes,     \* entries per tree
          Backends,     \* names of the backends of the world
          Cs,           \* contents
          Prop

MOrd   == <<"a", "b", "c">>
MToks  == [a |-> 1, b |-> 2]
MDialL == [L |-> "local"]
MDialM == [M |-> "memory"]
MDialX == [L |-> "local", M |-> "memory"]
MCs1   == {<<"a">>}
MCs2   == {<<"a">>, <<"b">>}
MCs0   == {<<>>, <<"a">>}

VARIABLE W

Paths  == UNION {[1..k -> N] : k \in 0..Depth}
NPaths == Paths \ {<<>>}

-------------------------------------------------------------------------------
(* Calls *)
C(op, b, p)     == [op |-> op, b |-> b, p |-> p, b2 |-> b, q |-> <<>>]
Q1              == {C(op, b, p) : op \in Queries \ {"glob"}, b \in Backends, p \in Paths}
QG              == {C("glob", b, p) @@ [pat |-> g] : b \in Backends, p \in Paths, g \in {"*", "a", "?", "[!a]*"}}
CMk             == {C(op, b, p) : op \in {"mkdir", "makedirs"}, b \in Backends, p \in Paths}
CRm             == {C("remove", b, p) @@ [g |-> g] : b \in Backends, p \in NPaths, g \in BOOLEAN}
CRmRoot         == {C("remove", b, <<>>) @@ [g |-> TRUE] : b \in {b \in Backends : Dial[b] = "memory"}}
CLn             == {[C("symlink", b, p) EXCEPT !.q = q] : b \in Backends, p \in Paths, q \in Paths}
CRl             == {C("readlink", b, p) : b \in Backends, p \in Paths}
CWr             == {C("write", b, p) @@ [c |-> c] : b \in Backends, p \in Paths, c \in Cs}
CAp             == {C("append", b, p) @@ [c |-> <<"b">>] : b \in Backends, p \in Paths}
CRd             == {C(op, b, p) : op \in {"read", "md5"}, b \in Backends, p \in Paths}
CWk             == {C("walk", b, p) @@ [td |-> td, f |-> f, ig |-> ig] :
                      b \in Backends, p \in Paths, td \in BOOLEAN, f \in BOOLEAN, ig \in {<<>>, <<"a">>}}
CTr(op, b, b2)  == {[C(op, b, p) EXCEPT !.b2 = b2, !.q = q] : p \in Paths, q \in Paths}
CCp             == UNION {{c @@ [f |-> f] : c \in CTr("copy", b, b2), f \in BOOLEAN} : b \in Backends, b2 \in Backends}
CCt             == UNION {{c @@ [f |-> f, ig |-> ig] : c \in CTr("copytree", b, b2), f \in BOOLEAN, ig \in {<<>>, <<"a">>}}
                           : b \in Backends, b2 \in Backends}
CMv             == {c \in UNION {CTr("move", b, b2) : b \in Backends, b2 \in Backends} : c.p # <<>>}
CMeta           == {C(op, b, p) @@ [m |-> 0] : op \in {"mode", "mtime", "size"}, b \in Backends, p \in Paths}
                   \cup {C("isexec", b, p) @@ [m |-> m] : b \in Backends, p \in Paths, m \in {1, 7}}
                   \cup {C("setexec", b, p) @@ [m |-> m] : b \in Backends, p \in Paths, m \in {0, 5}}
                   \cup {C("setmode", b, p) @@ [r |-> 384, m |-> 1] : b \in Backends, p \in Paths}
                   \cup {C("setmtime", b, p) @@ [m |-> 1000] : b \in Backends, p \in Paths}
                   \cup {[C("copystat", b, p) EXCEPT !.q = q] : b \in Backends, p \in Paths, q \in Paths}

Calls ==
  CASE Prop = "C08" -> Q1 \cup QG
    [] Prop = "C09" -> CMk
    [] Prop = "C10" -> CWr \cup CAp \cup CRd
    [] Prop = "C11" -> CRm \cup CRmRoot
    [] Prop = "C12" -> CLn \cup CRl
    [] Prop = "C13" -> CWk
    [] Prop = "C14" -> CCp
    [] Prop = "C15" -> CCt
    [] Prop = "C16" -> CMv
    [] Prop = "C17" -> {c \in CCp \cup CCt \cup CMv : c.b # c.b2}
    [] Prop = "C18" -> CMeta \cup CWr \cup CAp
    [] Prop = "C29" -> CWk \cup CCp \cup CCt \cup CMv \cup {c \in CRm : c.g} \cup {c \in CMk : c.op = "makedirs"}
    [] Prop = "C21" -> CCp \cup CCt \cup CMv \cup {c \in CRm : c.g}

(* What builds the trees. *)
Mutators == CMk \cup CLn \cup CWr
            \cup (IF Prop = "C18" THEN {c \in CMeta : c.op \in {"setexec", "setmtime"} /\ c.m \in {5, 1000}} ELSE {})

-------------------------------------------------------------------------------
Init == W = [b \in Backends |-> EmptyTree(Dial[b])]
Next == \E ev \in Mutators :
          LET o == Step(W, ev) IN
          /\ o.res[1] # "err" /\ o.W # W
          /\ \A b \in Backends : Cardinality(DOMAIN o.W[b]) <= MaxNodes + 1
          /\ W' = o.W
Spec == Init /\ [][Next]_W

-------------------------------------------------------------------------------
(* Laws *)
Same(w, v, b, X) ==        \* nothing differs but on backend b within the paths X
  /\ \A x \in DOMAIN w : x # b => w[x] = v[x]
  /\ \A p \in DOMAIN w[b] \cup DOMAIN v[b] :
       p \in X \/ (p \in DOMAIN w[b] /\ p \in DOMAIN v[b] /\ w[b][p] = v[b][p])

Bool(o) == o.res[2] = "T"
Lst(t, p) == ListDir("", t, p).res

LawC08(w, ev, o) ==
  LET t == w[ev.b]
      p == ev.p
      q(op) == Bool(Step(w, C(op, ev.b, p)))
      lst == Step(w, C("listdir", ev.b, p)).res IN
  /\ o.W = w
  /\ ev.op = "exists" =>
       /\ q("exists") = (q("isfile") \/ q("isdir"))
       /\ ~(q("isfile") /\ q("isdir"))
       /\ q("isdir") = (lst[1] = "names")
       /\ p # <<>> => LET up == Lst(t, Parent(p)) IN
            /\ up[1] = "err" => ~q("exists") /\ ~q("islink")
            /\ up[1] = "names" =>
                 /\ (\E i \in 2..Len(up) : up[i] = Name(p)) = (q("exists") \/ q("islink"))
       /\ (q("exists") /\ ~q("islink")) \/ ~q("exists") \/ q("islink")
  /\ ev.op = "islink" => q("islink") = (Step(w, C("readlink", ev.b, p)).res[1] = "link")
  /\ ev.op = "listdir" /\ o.res[1] = "names" =>
       /\ \A i, j \in 2..Len(o.res) : i < j => o.res[i] # o.res[j]
       /\ \A n \in N : (\E i \in 2..Len(o.res) : o.res[i] = n) =
                       (Bool(Step(w, C("exists", ev.b, Append(p, n)))) \/ Bool(Step(w, C("islink", ev.b, Append(p, n)))))
  /\ ev.op = "glob" => /\ o.res[1] = "err" <=> lst[1] = "err"
                       /\ ev.pat = "*" /\ lst[1] # "err" =>
                            o.res = <<"paths">> \o [i \in 1..(Len(lst) - 1) |-> PathStr(Append(p, lst[i + 1]))]

LawC09(w, ev, o) ==
  LET t == w[ev.b]  u == o.W[ev.b]
      new == DOMAIN u \ DOMAIN t IN
  IF o.res[1] = "err" THEN o.W = w
  ELSE /\ Same(w, o.W, ev.b, new)
       /\ \A p \in new : u[p] = DirNode(Dial[ev.b])
       /\ IsDirP(u, ev.p)
       /\ ev.op = "mkdir" => /\ Cardinality(new) = 1
                             /\ Lst(u, ev.p) = <<"names">>
                             /\ ~ExistsP(t, ev.p) /\ ~IsLinkP(t, ev.p)
       /\ ev.op = "makedirs" => /\ IsDirP(t, ev.p) => new = {}
                                /\ \A p, q \in new : IsUnder(p, q) \/ IsUnder(q, p)
                                /\ new # {} => Follow(u, ev.p).p \in new
                                /\ Step(o.W, ev) = [o EXCEPT !.res = OkR]

LawC10(w, ev, o) ==
  LET t == w[ev.b]  u == o.W[ev.b]
      rd(v) == ReadFile(Dial[ev.b], v, ev.p).res IN
  CASE ev.op \in {"write", "append"} ->
         IF o.res[1] = "err" THEN o.W = w
         ELSE /\ rd(u) = <<"data">> \o (IF ev.op = "append" /\ rd(t)[1] = "data" THEN Tail(rd(t)) ELSE <<>>) \o ev.c
              /\ Same(w, o.W, ev.b, {Follow(u, ev.p).p})
              /\ Size("", u, ev.p).res = <<"num", ToString(SizeOf(Tail(rd(u))))>>
    [] OTHER -> o.W = w /\ (o.res[1] = "data") = IsFileP(t, ev.p)

LawC11(w, ev, o) ==
  LET t == w[ev.b]  u == o.W[ev.b]
      at == IF IsLinkP(t, ev.p) THEN NoFollow(t, ev.p) ELSE Follow(t, ev.p) IN
  IF o.res[1] = "err" THEN o.W = w
  ELSE /\ Same(w, o.W, ev.b, Subtree(t, at.p))
       /\ DOMAIN u \subseteq DOMAIN t
       /\ at.p # <<>> => /\ at.p \notin DOMAIN u /\ NoFollow(u, ev.p).e # ""
       /\ Subtree(u, at.p) \subseteq {<<>>}
       /\ IsLinkP(t, ev.p) => Cardinality(DOMAIN u) = Cardinality(DOMAIN t) - 1
       /\ ~ev.g => Cardinality(DOMAIN u) >= Cardinality(DOMAIN t) - 1

(* Every call is transparent: links before the last component do not matter. *)
Direct(t, p) == IF p = <<>> THEN p
                ELSE LET r == Follow(t, Parent(p)) IN IF r.e = "" THEN Append(r.p, Name(p)) ELSE p
NoPaths == (Queries \ {"glob"}) \cup {"mkdir", "write", "append", "read", "readlink", "remove", "size", "mode",
                                    "mtime", "setexec", "isexec", "setmode", "copy"}
LawC12(w, ev, o) ==
  LET t == w[ev.b]  u == o.W[ev.b] IN
  /\ ev.op = "symlink" =>
       IF o.res[1] = "err" THEN o.W = w
       ELSE /\ \E s \in NPaths \cup {Slot(t, ev.p).p} : s \notin DOMAIN t /\ Same(w, o.W, ev.b, {s})
            /\ Readlink("", u, ev.p).res = <<"link", PathStr(ev.q), "own">>
            /\ NoFollow(t, ev.p).e # ""
  /\ ev.op = "readlink" => (o.res[1] = "err") = ~IsLinkP(t, ev.p)
  /\ ev.op = "readlink" => \A op \in NoPaths : \A g \in BOOLEAN :
       LET e  == C(op, ev.b, ev.p) @@ [c |-> <<"a">>, m |-> 5, r |-> 384, f |-> g, g |-> g]
           e2 == [e EXCEPT !.p = Direct(t, ev.p)]
           a  == Step(w, e)
           b  == Step(w, e2) IN
       \/ op \notin {"remove", "copy"} /\ g          \* once is enough
       \/ Undef(a) \/ Undef(b)
       \/ a = b
  \* following the last component too: same as on the resolved path
  /\ LET r == Follow(t, ev.p) IN
     ev.op = "readlink" /\ r.e = "" => \A op \in {"exists", "isfile", "isdir", "listdir", "read", "size", "mode", "write", "setexec"} :
       LET e == C(op, ev.b, ev.p) @@ [c |-> <<"a">>, m |-> 5] IN Step(w, e) = Step(w, [e EXCEPT !.p = r.p])

Ds(res) == SelectSeq([i \in 1..Len(res) |-> IF i > 1 /\ res[i - 1] = "|D" THEN res[i] ELSE "|"],
                     LAMBDA x : x # "|")
LawC13(w, ev, o) ==
  LET t == w[ev.b]
      r == Follow(t, ev.p)
      ds == Ds(o.res)
      below == {p \in DOMAIN t : IsUnder(p, r.p) /\ t[p].k = "d"} IN
  /\ o.W = w
  /\ (o.res[1] = "err") = ~IsDirP(t, ev.p)
  /\ o.res[1] # "err" =>
       /\ \A i, j \in 1..Len(ds) : i # j => ds[i] # ds[j]
       /\ ~ev.f /\ (ev.ig = <<>> \/ ~ev.td) =>
            Range(ds) = {PathStr(Rebase(p, r.p, ev.p)) : p \in below}
       /\ ~ev.f /\ ev.td /\ ev.ig # <<>> =>
            Range(ds) = {PathStr(Rebase(p, r.p, ev.p)) : p \in
                           {p \in below : \A i \in (Len(r.p) + 1)..Len(p) : p[i] \notin Range(ev.ig)}}
       /\ \A i, j \in 1..Len(ds) : \A p \in {p \in below : PathStr(Rebase(p, r.p, ev.p)) = ds[j]} :
            p # r.p /\ PathStr(Rebase(Parent(p), r.p, ev.p)) = ds[i] => (ev.td <=> i < j)

LawC14(w, ev, o) ==
  LET s == Loc(ev.b, ev.p)
      d == Into(w, s, Loc(ev.b2, ev.q))
      t == w[ev.b]
      v == o.W
      keep == ~ev.f /\ IsLinkP(t, ev.p)
      at == IF keep THEN NoFollow(v[d.b], d.p).p ELSE Follow(v[d.b], d.p).p IN
  IF o.res[1] = "err"
  THEN /\ o.W = w
       /\ IsFileP(t, ev.p) \/ o.res[2] \in {"NOFILE", "NOFILE_ELOOP", "ASSERT"}
  ELSE /\ Same(w, v, d.b, {at})
       /\ IsFileP(v[s.b], s.p) => ReadFile("", v[s.b], s.p) = [ReadFile("", t, s.p) EXCEPT !.t = v[s.b]] \/ keep
       /\ keep => v[d.b][at] = t[NoFollow(t, ev.p).p]
       /\ ~keep => LET n == v[d.b][at]  m == t[Follow(t, ev.p).p] IN
            n.k = "f" /\ n.c = m.c /\ (s.b = d.b => n = m)

Tree(t, p) == [q \in {Rebase(x, p, <<>>) : x \in Subtree(t, p)} |-> t[p \o q]]
Plain(f) == [q \in DOMAIN f |-> Strip(f[q])]
LawC15(w, ev, o) ==
  LET s == Loc(ev.b, ev.p)
      d == Into(w, s, Loc(ev.b2, ev.q))
      t == w[ev.b]
      v == o.W
      fresh == NoFollow(w[d.b], d.p).e # ""
      src == Follow(t, ev.p).p
      links == {p \in Subtree(t, src) : t[p].k = "l"} IN
  CASE Undef(o) -> TRUE
    [] o.res[1] = "err" /\ o.strict -> o.W = w
    [] o.res[1] = "err" /\ ~o.strict -> Frame(w, v, d)
    [] ~ev.f /\ IsLinkP(t, ev.p) ->
        /\ Same(w, v, d.b, {NoFollow(v[d.b], d.p).p})
        /\ v[d.b][NoFollow(v[d.b], d.p).p] = t[NoFollow(t, ev.p).p]
    [] OTHER ->
        /\ Frame(w, v, d)
        /\ s.b # d.b => v[s.b] = t
        /\ s.b = d.b => \A p \in Subtree(t, src) : p \in DOMAIN v[s.b] /\ v[s.b][p] = t[p]
        /\ ev.ig = <<>> /\ fresh =>
             LET at == Follow(v[d.b], d.p).p IN
             IF links = {} \/ ~ev.f
             THEN IF s.b = d.b THEN Tree(v[d.b], at) = Tree(t, src)
                  ELSE Plain(Tree(v[d.b], at)) = Plain(Tree(t, src))
             ELSE /\ \A p \in Subtree(v[d.b], at) : v[d.b][p].k # "l"
                  /\ LET a == WalkSeq(v[d.b], at, TRUE, FALSE, {})
                         b == WalkSeq(t, src, TRUE, TRUE, {}) IN
                     Len(a) = Len(b) /\ \A i \in 1..Len(a) : (i = 1 \/ a[i - 1] # "|D") => a[i] = b[i]
        /\ ev.ig # <<>> /\ fresh =>
             \A p \in Subtree(v[d.b], Follow(v[d.b], d.p).p) :
               v[d.b][p].k = "d" /\ p # Follow(v[d.b], d.p).p => Name(p) \notin Range(ev.ig)

LawC16(w, ev, o) ==
  LET s == Loc(ev.b, ev.p)
      d == Into(w, s, Loc(ev.b2, ev.q))
      t == w[ev.b]
      v == o.W
      a == NoFollow(t, ev.p).p
      b == Slot(w[d.b], d.p).p IN
  CASE Undef(o) -> TRUE
    [] o.res[1] = "err" -> o.W = w
    [] OTHER ->
        /\ a \notin DOMAIN v[s.b]
        /\ Plain(Tree(v[d.b], b)) = Plain(Tree(t, a))
        /\ s.b = d.b => Tree(v[d.b], b) = Tree(t, a)
        /\ \A x \in DOMAIN w : \A p \in DOMAIN w[x] \cup DOMAIN v[x] :
             \/ x = s.b /\ IsUnder(p, a)
             \/ x = d.b /\ IsUnder(p, b)
             \/ p \in DOMAIN w[x] /\ p \in DOMAIN v[x] /\ w[x][p] = v[x][p]

LawC18(w, ev, o) ==
  LET t == w[ev.b]  u == o.W[ev.b]
      at == Follow(t, ev.p).p
      n == u[at]  m == t[at]
      tgt == IF ev.op = "copystat" THEN Follow(t, ev.q).p ELSE Follow(u, ev.p).p IN
  IF o.res[1] = "err" THEN o.W = w
  ELSE CASE ev.op = "setexec" -> n = [m EXCEPT !.x = ev.m] /\ Same(w, o.W, ev.b, {at})
         [] ev.op = "setmode" -> n = [m EXCEPT !.x = ev.m, !.r = ev.r] /\ Same(w, o.W, ev.b, {at})
         [] ev.op = "setmtime" -> n = [m EXCEPT !.t = ev.m] /\ Same(w, o.W, ev.b, {at})
         [] ev.op = "copystat" -> /\ Same(w, o.W, ev.b, {tgt})
                                  /\ u[tgt].c = t[tgt].c /\ u[tgt].k = "f"
                                  /\ u[tgt].x = m.x /\ u[tgt].r = m.r /\ u[tgt].t = m.t
         [] ev.op \in {"write", "append"} ->
              /\ Same(w, o.W, ev.b, {tgt}) /\ u[tgt].t = -1
              /\ tgt \in DOMAIN t => u[tgt].r = t[tgt].r /\ u[tgt].x = t[tgt].x
         [] ev.op = "isexec" -> o.W = w /\ Bool(o) = (\E b \in {1, 2, 4} : (m.x \div b) % 2 = 1 /\ (ev.m \div b) % 2 = 1)
         [] OTHER -> o.W = w

LawHolds(w, ev, o) ==
  CASE Prop = "C08" -> LawC08(w, ev, o)
    [] Prop = "C09" -> LawC09(w, ev, o)
    [] Prop = "C10" -> LawC10(w, ev, o)
    [] Prop = "C11" -> LawC11(w, ev, o)
    [] Prop = "C12" -> LawC12(w, ev, o)
    [] Prop = "C13" -> LawC13(w, ev, o)
    [] Prop = "C14" -> LawC14(w, ev, o)
    [] Prop = "C15" -> LawC15(w, ev, o)
    [] Prop = "C16" -> LawC16(w, ev, o)
    [] Prop = "C17" -> /\ ev.op = "copy" => LawC14(w, ev, o) /\ o.W[ev.b] = w[ev.b]
                       /\ ev.op = "copytree" => LawC15(w, ev, o) /\ o.W[ev.b] = w[ev.b]
                       /\ ev.op = "move" => LawC16(w, ev, o)
    [] Prop = "C18" -> LawC18(w, ev, o)
    [] Prop = "C29" -> CASE ev.op = "walk" -> LawC13(w, ev, o)
                         [] ev.op = "copy" -> LawC14(w, ev, o)
                         [] ev.op = "copytree" -> LawC15(w, ev, o)
                         [] ev.op = "move" -> LawC16(w, ev, o)
                         [] ev.op = "remove" -> LawC11(w, ev, o)
                         [] ev.op = "makedirs" -> LawC09(w, ev, o)
    [] Prop = "C21" -> TRUE                 \* see FaultModel

(* Walking through a link cycle does not end. *)
Endless(w, ev) == ev.op = "walk" /\ ev.f /\ IsDirP(w[ev.b], ev.p) /\ Cyclic(w[ev.b], ev.p)

TypeOK == \A b \in Backends : WellFormed(W[b])
Laws == \A ev \in Calls : \/ Endless(W, ev)
                          \/ LET o == Step(W, ev) IN
                             /\ \A b \in Backends : WellFormed(o.W[b])
                             /\ LawHolds(W, ev, o)

-------------------------------------------------------------------------------
(* Export *)
Nodes(t) == LET ps == SetToSeq(DOMAIN t) IN [i \in 1..Len(ps) |-> <<ps[i], t[ps[i]]>>]
Export == IF "EXPORT" \in DOMAIN IOEnv /\ IOEnv.EXPORT = "1"
          THEN PrintT("TREE " \o ToJson([b \in Backends |-> Nodes(W[b])])) ELSE TRUE
ASSUME IF "EXPORT" \in DOMAIN IOEnv /\ IOEnv.EXPORT = "1"
       THEN PrintT("CALLS " \o ToJson(SetToSeq(Calls))) ELSE TRUE
===============================================================================
