-------------------------------- MODULE FaultModel --------------------------------
(***************************************************************************)
(* Copy, move and removal as sequences of primitive operations, any of which  *)
(* may fail: the clauses of Fault.tla hold after a failure at any moment, and  *)
(* without one the outcome is that of Transfer.tla and FS.tla.                *)
(*                                                                          *)
(* A call is a stack of tasks; a task is either a primitive (done in one step, *)
(* or failing before, after, or - writing - in the middle) or is replaced by   *)
(* further tasks.  Measures leaves out one of the precautions.                *)
(***************************************************************************)
EXTENDS FSModel, Fault

CONSTANT Measures       \* "copy first", "stop", "own"

VARIABLES V,      \* the world now (W: at the beginning of the call)
          todo,   \* tasks
          ev,     \* the call
          st      \* "build", "run", "ok", "err", and then "again", "done" for removals
vars == <<W, V, todo, ev, st>>
Has(m) == m \in Measures

NoCall == C("exists", CHOOSE b \in Backends : TRUE, <<>>)

T1(a, x)       == [a |-> a, s |-> x, d |-> x, f |-> FALSE, ig |-> {}, c |-> <<>>]
T2(a, s, d, f) == [T1(a, s) EXCEPT !.d = d, !.f = f]
Map(seq, Op(_)) == [i \in 1..Len(seq) |-> Op(seq[i])]
Cat(ss) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, ss)

Prims == {"mkdir", "create", "write", "stat", "link", "unlink", "rmdir"}

(* What a task that is no primitive is replaced with, in world v. *)
RmTasks(v, l) ==
  LET t == T(v, l)
      follow == ~Has("own") IN
  IF IsLinkP(t, l.p) /\ ~(follow /\ IsDirP(t, l.p)) THEN <<T1("unlink", l)>>
  ELSE IF ~IsDirP(t, l.p) THEN <<T1("unlink", l)>>
  ELSE Map(DirsOf(t, l.p), LAMBDA n : T1("rmtree", Sub(l, n)))
       \o Map(FilesOf(t, l.p), LAMBDA n : T1("unlink", Sub(l, n)))
       \o (IF IsLinkP(t, l.p) THEN <<T1("unlink", l)>> ELSE <<T1("rmdir", l)>>)

FileTasks(v, s, d, f) ==
  IF IsLinkP(T(v, s), s.p) /\ ~f
  THEN (IF IsFileP(T(v, d), d.p) THEN <<T1("unlink", d)>> ELSE <<>>) \o <<T2("link", s, d, f)>>
  ELSE <<T2("create", s, d, f), T2("write", s, d, f)>> \o (IF s.b = d.b THEN <<T2("stat", s, d, f)>> ELSE <<>>)

TreeTasks(v, k) ==
  LET s == k.s  d == k.d
      ds == SelectSeq(DirsOf(T(v, s), s.p), LAMBDA n : n \notin k.ig)
      fs == FilesOf(T(v, s), s.p)
      keep(n) == IsLinkP(T(v, s), Append(s.p, n)) /\ ~k.f IN
  Map(ds, LAMBDA n : IF keep(n) THEN T2("file", Sub(s, n), Sub(d, n), k.f) ELSE T1("makedirs", Sub(d, n)))
  \o Map(fs, LAMBDA n : T2("file", Sub(s, n), Sub(d, n), k.f))
  \o Map(SelectSeq(ds, LAMBDA n : ~keep(n)), LAMBDA n : [k EXCEPT !.s = Sub(s, n), !.d = Sub(d, n)])

Expand(v, k) ==
  LET s == k.s  d == k.d IN
  CASE k.a = "makedirs" ->
         IF IsDirP(T(v, s), s.p) THEN <<>>
         ELSE <<T1("makedirs", [s EXCEPT !.p = Parent(@)]), T1("mkdir", s)>>
    [] k.a = "rmtree" -> RmTasks(v, s)
    [] k.a = "file" -> FileTasks(v, s, d, k.f)
    [] k.a = "level" -> TreeTasks(v, k)
    [] k.a = "tree" ->
         IF IsLinkP(T(v, s), s.p) /\ ~k.f THEN FileTasks(v, s, d, FALSE)
         ELSE <<T1("makedirs", d), [k EXCEPT !.a = "level"]>>

(* The world after a primitive. *)
Do(v, k) ==
  LET s == k.s  d == k.d  D == Dial[d.b]  t == T(v, d)
      on(o) == [v EXCEPT ![d.b] = o.t] IN
  CASE k.a = "mkdir"  -> on(Mkdir(D, t, d.p))
    [] k.a = "create" -> on(WriteFile(D, t, d.p, <<>>))
    [] k.a = "write"  -> on(WriteFile(D, t, d.p, IF IsFileP(T(v, s), s.p) THEN T(v, s)[Follow(T(v, s), s.p).p].c ELSE <<>>))
    [] k.a = "stat"   -> [v EXCEPT ![d.b] = [t EXCEPT ![Follow(t, d.p).p] = WithStat(@, T(v, s)[Follow(T(v, s), s.p).p])]]
    [] k.a = "link"   -> on(Symlink(D, t, T(v, s)[NoFollow(T(v, s), s.p).p].to, d.p))
    [] k.a = "unlink" -> on(RemoveP(D, t, d.p, FALSE))
    [] k.a = "rmdir"  -> on(RemoveP(D, t, d.p, FALSE))

(* The tasks of a call. *)
Tasks(w, c) ==
  LET s == Loc(c.b, c.p)
      d == Target(w, c)
      isfile == IsFileP(T(w, s), s.p)
      copy(f, ig) == IF isfile /\ c.op # "copytree" THEN <<T2("file", s, d, f)>>
                     ELSE <<[T2("tree", s, d, f) EXCEPT !.ig = ig]>>
      rm == <<T1("rmtree", s)>> IN
  CASE c.op = "copy" -> copy(c.f, {})
    [] c.op = "copytree" -> copy(c.f, Range(c.ig))
    [] c.op = "remove" -> rm
    [] c.op = "move" -> IF Has("copy first") THEN copy(FALSE, {}) \o rm
                        ELSE \* one after the other: make, create, remove, write
                             IF isfile /\ ~IsLinkP(T(w, s), s.p)
                             THEN <<T2("create", s, d, FALSE)>> \o rm
                                  \o <<[T2("fill", s, d, FALSE) EXCEPT !.c = T(w, s)[Follow(T(w, s), s.p).p].c]>>
                             ELSE copy(FALSE, {}) \o rm

-------------------------------------------------------------------------------
FInit == W = [b \in Backends |-> EmptyTree(Dial[b])] /\ V = W /\ todo = <<>> /\ ev = NoCall /\ st = "build"

Build == /\ st = "build"
         /\ \E c \in Mutators :
              LET o == Step(W, c) IN
              /\ o.res[1] # "err" /\ o.W # W
              /\ \A b \in Backends : Cardinality(DOMAIN o.W[b]) <= MaxNodes + 1
              /\ W' = o.W /\ V' = o.W
         /\ UNCHANGED <<todo, ev, st>>
Begin == /\ st = "build"
         /\ \E c \in Calls : /\ Faulty(W, c)
                              /\ ev' = c /\ todo' = Tasks(W, c)
         /\ st' = "run" /\ UNCHANGED <<W, V>>

Eval(k) == IF k.a = "fill" THEN [V EXCEPT ![k.d.b] = WriteFile(Dial[k.d.b], @, k.d.p, k.c).t] ELSE Do(V, k)

Run == /\ st \in {"run", "again"} /\ todo # <<>>
       /\ LET k == Head(todo) IN
          IF k.a \notin Prims \cup {"fill"}
          THEN todo' = Expand(V, k) \o Tail(todo) /\ UNCHANGED <<V, W, ev, st>>
          ELSE \/ V' = Eval(k) /\ todo' = Tail(todo) /\ UNCHANGED <<W, ev, st>>
               \/ /\ st = "run"
                  /\ V' \in {V, Eval(k)}
                  /\ IF Has("stop") THEN st' = "err" /\ todo' = <<>>
                     ELSE st' = st /\ todo' = Tail(todo)
                  /\ UNCHANGED <<W, ev>>
End == /\ st \in {"run", "again"} /\ todo = <<>>
       /\ st' = (IF st = "run" THEN "ok" ELSE "done") /\ UNCHANGED <<W, V, ev, todo>>
(* a removal is tried again *)
Again == /\ st = "err" /\ ev.op = "remove" /\ NoFollow(V[ev.b], ev.p).e = ""
         /\ st' = "again" /\ todo' = Tasks(V, ev) /\ UNCHANGED <<W, V, ev>>
FNext == Build \/ Begin \/ Run \/ End \/ Again
FSpec == FInit /\ [][FNext]_vars

(* The removal is judged when it was tried again. *)
Ended == IF st = "ok" THEN <<"ok">> ELSE <<"err", "other", "">>
Rec(again) == [res |-> Ended, same |-> TRUE, strict |-> TRUE, again |-> again]
Right ==
  /\ st = "ok" => FaultClauses(W, ev, Rec(<<"ok">>), V, V) = {}
  /\ st = "err" => FaultClauses(W, ev, Rec(<<"ok">>), V, IF ev.op = "remove" THEN Step(W, ev).W ELSE V) = {}
  /\ st = "done" => SameWorld(W, ev, Step(W, ev).W, V)
FExport == st # "build" \/ Export
Sound == \A b \in Backends : WellFormed(V[b])
===============================================================================
