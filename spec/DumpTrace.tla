---------------------------------- MODULE DumpTrace ----------------------------------
(* Validation of recorded histories against Dump.tla (C25).  N: the trees, by *)
(* namespace; S: the sessions, each with its namespace and file.              *)
EXTENDS Dump, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
NoFun == [x \in {} |-> 0]

VARIABLES l, N, S, cnt
vars == <<l, N, S, cnt>>
Ev == Trace[l]
Spaces == {"0", "1"}
NoTrees == [s \in Spaces |-> NoFun]
Init == l = 2 /\ N = NoTrees /\ S = NoFun /\ cnt = [judged |-> 0, bad |-> 0, cases |-> 0]

Table(ts) == LET ds == {ts[i][1] : i \in DOMAIN ts}
                 at == [d \in ds |-> CHOOSE i \in DOMAIN ts : ts[i][1] = d] IN [d \in ds |-> ts[at[d]][2]]

Keep == [want |-> Ev.res, N |-> N, S |-> S]
Judge(ev) ==
  LET T == N[ev.ns] IN
  CASE ev.op = "open" ->
         IF ev.res # <<"none">> THEN Keep
         ELSE LET q == Real(T, ev.p)
                  d == IF q \in DOMAIN T THEN T[q].data ELSE <<>> IN
              [want |-> ev.res, N |-> [N EXCEPT ![ev.ns] = Put1(T, q, FileNode(Opened(ev.mode, d)))],
               S |-> Put1(S, ev.h, [at |-> q, h |-> Open(ev.mode, Opened(ev.mode, d))])]
    [] ev.op = "call" ->
         LET s == S[ev.h]
             x == Step(s.h, T[s.at].data, ev.call) IN
         [want |-> x.res, N |-> [N EXCEPT ![ev.ns] = Put1(T, s.at, FileNode(x.d))],
          S |-> [S EXCEPT ![ev.h].h.pos = x.pos]]
    [] ev.op = "dump" -> [want |-> <<"text", Text(T, ev.plain, Table(ev.md5), ev.suffix)>>, N |-> N, S |-> S]
    [] OTHER -> [Keep EXCEPT !.N = IF ev.res = <<"none">> THEN [N EXCEPT ![ev.ns] = Effect(T, ev)] ELSE N]

RECURSIVE Diff(_, _, _)
Diff(a, b, i) == IF i > Len(a) \/ i > Len(b) THEN i ELSE IF a[i] # b[i] THEN i ELSE Diff(a, b, i + 1)
Tell(j, ev) == IF ev.op = "dump"
               THEN IF ev.res[1] # "text" THEN ToString(ev.res)
                    ELSE "differs at " \o ToString(Diff(j.want[2], ev.res[2], 1)) \o " of " \o ToString(Len(j.want[2]))
               ELSE "expected " \o ToString(j.want) \o " got " \o ToString(ev.res)

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ IF Ev.op = "reset"
     THEN N' = NoTrees /\ S' = NoFun /\ cnt' = [cnt EXCEPT !.cases = @ + 1]
     ELSE LET j == Judge(Ev) IN
          /\ N' = j.N /\ S' = j.S
          /\ cnt' = [cnt EXCEPT !.judged = @ + 1, !.bad = @ + (IF j.want = Ev.res THEN 0 ELSE 1)]
          /\ IF j.want = Ev.res THEN TRUE ELSE PrintT("BAD " \o ToString(l) \o " " \o Ev.op \o " " \o Tell(j, Ev))
  /\ IF l < Len(Trace) THEN TRUE ELSE PrintT("DONE " \o ToJson(cnt'))
Spec == Init /\ [][Next]_vars
===============================================================================
