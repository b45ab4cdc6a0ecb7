--------------------------------- MODULE RfcModel ---------------------------------
(***************************************************************************)
(* Laws of Rfc.tla on every URI, authority and pair of base and reference      *)
(* made of the given pieces, the examples of RFC 3986, and the cases for the   *)
(* code.                                                                        *)
(***************************************************************************)
EXTENDS Rfc, Json, IOUtils

CONSTANTS Schemes, Auths, Paths, Queries, Frags, Bases, Segs, MaxSegs

SS == Schemes \cup {None}
AS == Auths \cup {None}
QS == Queries \cup {None}
FS == Frags \cup {None}
RECURSIVE PathsOf(_)
PathsOf(n) == IF n = 0 THEN {""} ELSE PathsOf(n - 1) \cup {p \o (IF p = "" \/ Ends(p, "/") THEN "" ELSE "/") \o s : p \in PathsOf(n - 1), s \in Segs}
              \cup {p \o "/" : p \in {x \in PathsOf(n - 1) : ~Ends(x, "/")}}
RefPaths == PathsOf(MaxSegs)

Mode == {"uri", "authority", "join"}
Users == {None, "", "u"}
Hosts == {None, "h", "h.x"}
Ports == {None, "", "8"}

VARIABLES kind, c, text
Init == \/ /\ kind = "uri"
           /\ \E s \in SS, a \in AS, p \in Paths, q \in QS, f \in FS :
                /\ (a = None \/ p = "" \/ Starts(p, "/"))
                /\ (a # None \/ ~Starts(p, "//"))
                /\ (s # None \/ a # None \/ First(p, {":"}) = 0)
                /\ (f # None => s \in {"http", "https"})
                /\ c = [scheme |-> s, auth |-> a, path |-> p, query |-> q, frag |-> f]
           /\ text = <<Unsplit(c)>>
        \/ /\ kind = "authority"
           /\ \E u \in Users, w \in {None, "", "w", "w:x"}, h \in Hosts, p \in Ports :
                /\ (u = None => w = None)
                /\ c = [user |-> u, pw |-> w, host |-> h, port |-> p]
           /\ text = <<JoinAuthority(c)>>
        \/ /\ kind = "join"
           /\ \E b \in Bases, p \in RefPaths, pre \in {"", "/", "http:", "//h", "//h/"}, q \in QS, f \in FS :
                /\ (pre = "//h" => p = "" \/ Starts(p, "/"))
                /\ (pre = "/" => ~Starts(p, "/"))
                /\ (pre = "//h/" => ~Starts(p, "/"))
                /\ text = <<b, pre \o p \o Opt("?", q) \o Opt("#", f)>>
           /\ c = Resolve(text[1], text[2])
Next == FALSE /\ UNCHANGED <<kind, c, text>>
Spec == Init /\ [][Next]_<<kind, c, text>>

Segments(p) == LET RECURSIVE G(_)
                   G(s) == LET i == First(s, {"/"}) IN IF i = 0 THEN {s} ELSE {Upto(s, i - 1)} \cup G(From(s, i + 1)) IN G(p)
Laws ==
  CASE kind = "uri" -> /\ Split(text[1]) = c
                       /\ Unsplit(Split(text[1])) = text[1]
                       /\ Unsplit(Generic(text[1])) = text[1]
    [] kind = "authority" -> SplitAuthority(text[1]) = c /\ JoinAuthority(SplitAuthority(text[1])) = text[1]
    [] kind = "join" ->
         LET b == Generic(text[1])
             r == Generic(text[2])
             t == Unsplit(c) IN
         /\ c.scheme = b.scheme /\ c.frag = r.frag
         /\ (r.path # "" \/ r.auth # None) => (c.query = r.query /\ {".", ".."} \cap Segments(c.path) = {})
         /\ Generic(t) = c                                            \* the result is an URI again
         /\ r.path = "" /\ r.auth = None => c.path = b.path
         /\ Resolve(t, "") = [c EXCEPT !.frag = None]
         /\ RemoveDots(RemoveDots(c.path)) = RemoveDots(c.path)

Ex(ref, want) == Unsplit(Resolve("http://a/b/c/d;p?q", ref)) = want
ASSUME /\ Ex("g:h", "g:h") /\ Ex("g", "http://a/b/c/g") /\ Ex("./g", "http://a/b/c/g") /\ Ex("g/", "http://a/b/c/g/")
       /\ Ex("/g", "http://a/g") /\ Ex("//g", "http://g") /\ Ex("?y", "http://a/b/c/d;p?y") /\ Ex("g?y", "http://a/b/c/g?y")
       /\ Ex("#s", "http://a/b/c/d;p?q#s") /\ Ex("g#s", "http://a/b/c/g#s") /\ Ex("g?y#s", "http://a/b/c/g?y#s")
       /\ Ex(";x", "http://a/b/c/;x") /\ Ex("g;x", "http://a/b/c/g;x") /\ Ex("g;x?y#s", "http://a/b/c/g;x?y#s")
       /\ Ex("", "http://a/b/c/d;p?q") /\ Ex(".", "http://a/b/c/") /\ Ex("./", "http://a/b/c/") /\ Ex("..", "http://a/b/")
       /\ Ex("../", "http://a/b/") /\ Ex("../g", "http://a/b/g") /\ Ex("../..", "http://a/") /\ Ex("../../", "http://a/")
       /\ Ex("../../g", "http://a/g")
ASSUME /\ Ex("../../../g", "http://a/g") /\ Ex("../../../../g", "http://a/g") /\ Ex("/./g", "http://a/g") /\ Ex("/../g", "http://a/g")
       /\ Ex("g.", "http://a/b/c/g.") /\ Ex(".g", "http://a/b/c/.g") /\ Ex("g..", "http://a/b/c/g..") /\ Ex("..g", "http://a/b/c/..g")
       /\ Ex("./../g", "http://a/b/g") /\ Ex("./g/.", "http://a/b/c/g/") /\ Ex("g/./h", "http://a/b/c/g/h") /\ Ex("g/../h", "http://a/b/c/h")
       /\ Ex("g;x=1/./y", "http://a/b/c/g;x=1/y") /\ Ex("g;x=1/../y", "http://a/b/c/y") /\ Ex("g?y/./x", "http://a/b/c/g?y/./x")
       /\ Ex("g?y/../x", "http://a/b/c/g?y/../x") /\ Ex("g#s/./x", "http://a/b/c/g#s/./x") /\ Ex("g#s/../x", "http://a/b/c/g#s/../x")
       /\ Ex("http:g", "http://a/b/c/g")
Export == IOEnv.EXPORT # "1" \/ PrintT("CASE " \o ToJson(<<kind, text>>))
===============================================================================
