------------------------------- MODULE InjectModel -------------------------------
(***************************************************************************)
(* How the memory file system calls the callbacks: one at the beginning of    *)
(* every call of an URI's method, the parts of a compound operation being     *)
(* such calls too. Checked to do what Inject.tla says in every history of     *)
(* the bounds; each measure is necessary.                                     *)
(***************************************************************************)
EXTENDS Inject, Json, IOUtils

CONSTANTS Paths, Depth, Measures

MPaths == {<<"f">>, <<"d">>, <<"d", "f">>}
Kinds == {"log", "raise", "once", "onceraise"}
Targets(o) == IF o = "copy" THEN Paths ELSE {<<>>}
MOps == {"exists", "write", "remove_r", "copy", "lock"}

VARIABLES F, G, C, K, M, id, hist, faults     \* the files, those of the plain file system
vars == <<F, G, C, K, M, id, hist, faults>>

(* --- the operations without callbacks: what files there are, and their versions --- *)
Plain(f, o, p, q) ==
  CASE o = "exists" -> [f |-> f, res |-> <<"bool", p \in DOMAIN f>>]
    [] o = "write" -> [f |-> Set(f, p, IF p \in DOMAIN f THEN f[p] + 1 ELSE 1), res |-> <<"none">>]
    [] o = "lock" -> [f |-> Set(f, p, 9), res |-> <<"none">>]
    [] o = "remove_r" -> [f |-> [x \in {y \in DOMAIN f : ~IsPrefix(p, y)} |-> f[x]], res |-> <<"none">>]
    [] o = "copy" -> IF p \in DOMAIN f THEN [f |-> Set(f, q, f[p]), res |-> <<"none">>] ELSE [f |-> f, res |-> <<"err">>]

(* --- calls: [f, C, calls, raised] --- *)
Key(p) == IF "whole path" \in Measures THEN p ELSE <<p[Len(p)]>>
Found(c, p) == IF "whole path" \in Measures THEN {x \in DOMAIN c : x = p} ELSE {x \in DOMAIN c : Key(x) = Key(p)}
Hook(s, p) ==
  LET xs == Found(s.C, p) IN
  IF xs = {} \/ s.raised # 0 THEN s
  ELSE LET x == CHOOSE y \in xs : TRUE
           c == s.C[x] IN
       [s EXCEPT !.C = IF Once(c) /\ "removed" \in Measures THEN Drop(@, x) ELSE @,
                 !.calls = Append(@, [id |-> c.id, at |-> p, before |-> s.f = F]),
                 !.raised = IF Raises(c) /\ ("not swallowed" \in Measures \/ s.op # "exists") THEN c.id ELSE 0]
Effect(s, o, p, q) == IF s.raised # 0 THEN s ELSE LET x == Plain(s.f, o, p, q) IN [s EXCEPT !.f = x.f, !.res = x.res]
Call(s, o, p, q) == IF "first" \in Measures THEN Effect(Hook(s, p), o, p, q) ELSE Hook(Effect(s, o, p, q), p)

Start(o) == [f |-> F, C |-> C, calls |-> <<>>, raised |-> 0, res |-> <<"none">>, op |-> o]
Run(o, p, q) ==
  LET s == Start(o) IN
  CASE o = "copy" -> LET a == Hook(s, p)                                  \* itself
                         b == Call(a, "exists", p, <<>>)                  \* its parts
                         c == IF b.res = <<"bool", TRUE>> THEN Effect(Hook(b, q), "copy", p, q)
                              ELSE IF b.raised # 0 THEN b ELSE [b EXCEPT !.res = <<"err">>] IN c
    [] o = "lock" -> LET a == Hook(s, p) IN
                     IF a.raised = 0 /\ p \in K /\ "lock first" \in Measures THEN [a EXCEPT !.res = <<"locked">>]
                     ELSE LET b == Effect(a, "lock", p, q) IN IF b.raised = 0 /\ p \in K THEN [b EXCEPT !.res = <<"locked">>] ELSE b
    [] OTHER -> Call(s, o, p, q)

Init == F = (<<"f">> :> 1) @@ (<<"d", "f">> :> 1) /\ G = F /\ C = NoFun /\ K = {} /\ M = NoFun /\ id = 0 /\ hist = <<>> /\ faults = {}

Do(o, p, q) ==
  LET s == Run(o, p, q)
      g == IF s.raised # 0 \/ s.res = <<"locked">> THEN [f |-> G, res |-> <<"skipped">>] ELSE Plain(G, o, p, q)
      e == [op |-> o, p |-> p, q |-> q, real |-> p, qreal |-> q, calls |-> s.calls, raised |-> s.raised,
            res |-> s.res, plain |-> g.res, same |-> s.f = F, equal |-> s.f = g.f] IN
  /\ F' = s.f /\ G' = (IF s.raised # 0 THEN s.f ELSE g.f) /\ C' = s.C
  /\ faults' = Faults(C, K, e) \cup (IF After(C, e) = s.C THEN {} ELSE {"left"})
  /\ hist' = Append(hist, <<o, p, q>>)
  /\ UNCHANGED <<K, M, id>>

Next ==
  /\ Len(hist) < Depth /\ faults = {}
  /\ \/ \E p \in Paths, k \in Kinds \cup {"none"} :
          /\ IF k = "none" THEN C' = Drop(C, p) /\ p \in DOMAIN C /\ id' = id
             ELSE C' = Set(C, p, [id |-> id + 1, kind |-> k]) /\ id' = id + 1
          /\ hist' = Append(hist, <<"callback", p, k>>) /\ UNCHANGED <<F, G, K, M, faults>>
     \/ \E p \in Paths : K' = (IF p \in K THEN K \ {p} ELSE K \cup {p})
                         /\ hist' = Append(hist, <<"hold", p>>) /\ UNCHANGED <<F, G, C, M, id, faults>>
     \/ \E o \in MOps, p \in Paths : \E q \in Targets(o) : p # q /\ Do(o, p, q)
Spec == Init /\ [][Next]_vars
Right == faults = {}
Export == /\ IF IOEnv.EXPORT = "1" /\ hist = <<>>
             THEN PrintT("SPACE " \o ToJson([single |-> Single, compound |-> Compound, kinds |-> Kinds])) ELSE TRUE
          /\ IF IOEnv.EXPORT = "1" /\ Len(hist) = Depth /\ (\E i \in DOMAIN hist : hist[i][1] \in {"callback", "hold"})
             THEN PrintT("HIST " \o ToJson(hist)) ELSE TRUE
View == <<F, G, C, K, Len(hist), faults>>
===============================================================================
