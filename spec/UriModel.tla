--------------------------------- MODULE UriModel ---------------------------------
(***************************************************************************)
(* Exhaustive check of the laws of Uri.tla: every URI over small component  *)
(* sets and everything derived from it in up to Depth steps.                *)
(***************************************************************************)
EXTENDS Uri, Json, IOUtils

CONSTANTS Schemes, Users, Passwords, Hosts, Ports, Archives, N, Seps, Suffixes, Depth

MQueries == {NoMap, [x \in {"k"} |-> "v&=+ /"], [x \in {"username"} |-> "bob"], [x \in {"k", "l#"} |-> IF x = "k" THEN "" ELSE "^"]}
MSeps == {"/", "\\"}
MExtras == {NoMap, [x \in {"k"} |-> "1"], [x \in {"password"} |-> "pw"]}

VARIABLES u, depth
vars == <<u, depth>>

Paths == {"/", "/a", "/a/", "/.b", "/a/.b", "/#c/((d))", "./a", ".", "./.b/a", "/x:/@e", "/C", "/C/a", "/C/a/.b/", ""}
WF(v) ==
  /\ v.local => v.host = "" /\ v.port = 0 /\ v.user = Get(v.ex, "username") /\ v.au = "" /\ v.ap = "" /\ v.arch = "" /\ v.path # ""
  /\ v.host = "" => v.port = 0 /\ v.au = "" /\ v.ap = ""
  /\ v.au = "" => v.ap = ""
  /\ v.arch # "" => v.host = "" /\ ~Starts(v.path, ".")
  /\ v.host # "" => ~Starts(v.path, ".")
  /\ v.path = "" => v.host # ""
  /\ IsHttp(v.sch) => v.host # "" /\ First(v.path, {"#"}) = 0
  /\ ~IsHttp(v.sch) => v.frag = ""
  /\ v.sep = "\\" => v.local
  /\ v.local => v.q = NoMap \/ v.sep = "/"
  /\ v.path = "." => v.local /\ v.q = NoMap

Make(sch, a, p, h, po, ar, pa, q, ex, sep) ==
  LET auth == [au |-> a, ap |-> p, host |-> h, port |-> po] IN
  Value(sch, auth, ar, [path |-> pa, q |-> q, frag |-> IF sch = "http" /\ pa = "/a" THEN "f" ELSE ""], ex, sep)

(* chosen step by step to avoid building the whole product *)
Init == /\ depth = 0
        /\ \E sch \in Schemes, pa \in Paths, h \in Hosts, ar \in Archives, sep \in Seps :
             \E po \in IF h = "" THEN {0} ELSE Ports, a \in IF h = "" THEN {""} ELSE Users :
             \E p \in IF a = "" THEN {""} ELSE Passwords, q \in MQueries, ex \in MExtras :
               /\ u = Make(sch, a, p, h, po, ar, pa, q, ex, sep)
               /\ u.local => u.host = "" /\ u.arch = ""
               /\ WF([u EXCEPT !.user = IF u.local THEN Get(u.ex, "username") ELSE @])

Plain(v) == IF IsHttp(v.sch) THEN {n \in N : First(n, {"#"}) = 0} ELSE N
Next == /\ depth < Depth
        /\ depth' = depth + 1
        /\ \/ \E n \in Plain(u) : u' = Join(u, <<n>>)
           \/ u' = Split(u)[1]
           \/ u.path \notin {"", "."} /\ \E s \in Suffixes : u' = Suffix(u, s)
           \/ ~u.local /\ ~IsHttp(u.sch) /\ \E s \in Schemes \ {"http", "file"} : u' = SetScheme(u, s)
           \/ u' = SetQuery(u, "k", "new &")
           \/ u' = DelQuery(u, "k")
Spec == Init /\ [][Next]_vars

-------------------------------------------------------------------------------
Bare(v) == v.path = ""
NoSlash(p) == IF RStrip(p, {"/"}) = "" THEN "/" ELSE RStrip(p, {"/"})

(* C03/C04: text and value determine each other *)
LawText ==
  LET v == Parse(Text(u), NoMap, u.sep) IN
  IF u.local THEN \/ v.path = u.path
                  \/ u.sep = "\\" /\ DriveForm(u.path) /\ v.path = u.path \o "/"
  ELSE Equal(u, v) /\ v.au = u.au /\ v.ap = u.ap /\ v.frag = u.frag
LawQuery == Query(QueryText(u.q, DOMAIN u.q)) = u.q

(* C01 *)
LawJoinSplit == \A n \in Plain(u) : Split(Join(u, <<n>>)) = <<At(u, NoSlash(u.path)), n>>
LawJoinMany == \A n, m \in Plain(u) : Join(u, <<n, m>>) = Join(Join(u, <<n>>), <<m>>)
LawJoinSlash == Bare(u) \/ \A n \in Plain(u) : Join(At(u, u.path \o "/"), <<n>>) = Join(u, <<n>>)
LawDirectory == /\ Directory(u, 2) = Directory(Directory(u, 1), 1)
                /\ Starts(u.path, "/") => Directory(u, 9) = At(u, "/")
LawSplitext == LET b == Basename(u) IN Splitext(b)[1] \o Splitext(b)[2] = b
LawSuffix == Bare(u) \/ u.path = "." \/ \A s \in Suffixes :
               Split(Suffix(u, s)) = <<Split(At(u, u.path))[1], Basename(u) \o s>>
LawLast == LastName(u) = IF Basename(u) # "" \/ Bare(u) \/ u.path \in {"/"} THEN Basename(u) ELSE Basename(Split(u)[1])

(* C02 *)
LawKey == /\ \A n \in Plain(u) : Key(Join(u, <<n>>)) = Key(u)
          /\ Key(Split(u)[1]) = Key(u)
          /\ \A s \in Suffixes : Key(Suffix(u, s)) = Key(u)
LawEqual == Equal(u, u) /\ ~Equal(u, Join(u, <<"zz">>)) /\ ~Equal(u, SetQuery(u, "zz", "1"))

(* C27: names containing the separator are several names *)
LawSep == u.sep = "/" \/ \A n, m \in N : Join(u, <<n \o "\\" \o m>>) = Join(u, <<n, m>>)

Laws == LawText /\ LawQuery /\ LawJoinSplit /\ LawJoinMany /\ LawJoinSlash /\ LawDirectory /\ LawSplitext /\
        LawSuffix /\ LawLast /\ LawKey /\ LawEqual /\ LawSep

RECURSIVE Pairs(_, _)
Pairs(m, ks) == IF ks = {} THEN <<>> ELSE LET k == CHOOSE x \in ks : TRUE IN <<<<k, m[k]>>>> \o Pairs(m, ks \ {k})
Export == IF depth > 0 \/ IOEnv.EXPORT # "1" THEN TRUE
          ELSE PrintT("URI " \o ToJson([sch |-> u.sch, sep |-> u.sep, ex |-> Pairs(u.ex, DOMAIN u.ex), local |-> u.local,
                   text |-> IF u.local /\ u.q # NoMap THEN PathText(u) \o "?" \o QueryText(u.q, DOMAIN u.q) ELSE Text(u)]))
===============================================================================
