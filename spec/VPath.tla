---------------------------------- MODULE VPath ----------------------------------
(***************************************************************************)
(* The specification's step for one call of the public interface.           *)
(*                                                                          *)
(* A call is a record: op, the backend b and path p it is made on, and the   *)
(* arguments the operation needs (b2, q: second location; c: content tokens; *)
(* r, m: permission bits, exec bits or a time; f: follow links; td: top down; *)
(* ig: names ignored or pruned; g: recursive; pat: a pattern).               *)
(***************************************************************************)
EXTENDS Transfer

Toks(s) == {s[i] : i \in DOMAIN s}

Step(w, ev) ==
  LET d == Dial[ev.b]
      t == w[ev.b]
      p == ev.p
      s == Loc(ev.b, p)
      dest == Loc(ev.b2, ev.q)
      lift(o) == Lift(w, ev.b, o) IN
  CASE ev.op = "exists"   -> lift(Exists(d, t, p))
    [] ev.op = "isfile"   -> lift(IsFile(d, t, p))
    [] ev.op = "isdir"    -> lift(IsDir(d, t, p))
    [] ev.op = "islink"   -> lift(IsLink(d, t, p))
    [] ev.op = "listdir"  -> lift(ListDir(d, t, p))
    [] ev.op = "glob"     -> lift(Glob(d, t, p, ev.pat))
    [] ev.op = "walk"     -> lift(Walk(d, t, p, ev.td, ev.f, Toks(ev.ig)))
    [] ev.op = "mkdir"    -> lift(Mkdir(d, t, p))
    [] ev.op = "makedirs" -> lift(Makedirs(d, t, p))
    [] ev.op = "symlink"  -> lift(Symlink(d, t, ev.q, p))
    [] ev.op = "readlink" -> lift(Readlink(d, t, p))
    [] ev.op = "remove"   -> lift(RemoveP(d, t, p, ev.g))
    [] ev.op = "write"    -> lift(WriteFile(d, t, p, ev.c))
    [] ev.op = "append"   -> lift(AppendFile(d, t, p, ev.c))
    [] ev.op = "read"     -> lift(ReadFile(d, t, p))
    [] ev.op = "head"     -> lift(ReadHead(d, t, p, ev.m))
    [] ev.op = "md5"      -> lift(ReadFile(d, t, p))
    [] ev.op = "size"     -> lift(Size(d, t, p))
    [] ev.op = "mode"     -> lift(Mode(d, t, p))
    [] ev.op = "mtime"    -> lift(Mtime(d, t, p))
    [] ev.op = "isexec"   -> lift(IsExec(d, t, p, ev.m))
    [] ev.op = "setexec"  -> lift(SetExec(d, t, p, ev.m))
    [] ev.op = "setmode"  -> lift(SetMode(d, t, p, ev.r, ev.m))
    [] ev.op = "setmtime" -> lift(SetMtime(d, t, p, ev.m))
    [] ev.op = "linkmode" -> lift(LinkMode(d, t, p, ev.r, ev.m))
    [] ev.op = "linkinfo" -> lift(LinkInfo(d, t, p))
    [] ev.op = "copystat" -> lift(Copystat(d, t, p, ev.q))
    [] ev.op = "copy"     -> CopyFile(w, s, dest, ev.f)
    [] ev.op = "copytree" -> CopyTree(w, s, dest, ev.f, Toks(ev.ig))
    [] ev.op = "move"     -> Move(w, s, dest)

Queries == {"exists", "isfile", "isdir", "islink", "listdir", "glob"}
Transfers == {"copy", "copytree", "move"}
ThroughLink(t, p) == \E i \in 1..Len(p) : IsLinkP(t, SubSeq(p, 1, i))
Undef(o) == o.res[1] = "err" /\ o.res[2] = "UNDEFINED"
===============================================================================
