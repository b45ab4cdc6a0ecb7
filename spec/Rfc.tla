----------------------------------- MODULE Rfc -----------------------------------
(***************************************************************************)
(* Generic URIs after RFC 3986: components (appendix B), recomposition (5.3), *)
(* reference resolution (5.2), authorities, and the default values of schemes. *)
(* Dialect: an authority may be an URI in double parentheses; outside of http   *)
(* and https a '#' is an ordinary character.                                    *)
(* A component that is not there is None.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

None == "<none>"
Ch(s, i) == SubSeq(s, i, i)
From(s, i) == SubSeq(s, i, Len(s))
Upto(s, i) == SubSeq(s, 1, i)
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Ends(s, p) == Len(s) >= Len(p) /\ From(s, Len(s) - Len(p) + 1) = p
First(s, C) == LET I == {i \in 1..Len(s) : Ch(s, i) \in C} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
LastOf(s, c) == LET I == {i \in 1..Len(s) : Ch(s, i) = c} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : j <= i
FindStr(s, p, k) ==
  LET I == {i \in k..(Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p} IN
  IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
Before(s, C) == LET i == First(s, C) IN IF i = 0 THEN s ELSE Upto(s, i - 1)

-------------------------------------------------------------------------------
(* Components *)
SplitScheme(t) == LET i == First(t, {":", "/", "?", "#"}) IN
  IF i > 1 /\ Ch(t, i) = ":" THEN <<Upto(t, i - 1), From(t, i + 1)>> ELSE <<None, t>>
SplitAuth(r) ==
  IF ~Starts(r, "//") THEN <<None, r>>
  ELSE LET x == From(r, 3)
           e == IF Starts(x, "((") THEN FindStr(x, "))", 3) ELSE 0
           a == IF e > 0 THEN Upto(x, e + 1) ELSE Before(x, {"/", "?", "#"}) IN
       <<a, From(x, Len(a) + 1)>>
(* the generic components; with hash, '#' starts a fragment *)
Parts(t, hash) ==
  LET s == SplitScheme(t)
      a == SplitAuth(s[2])
      h == IF hash THEN First(a[2], {"#"}) ELSE 0
      body == IF h = 0 THEN a[2] ELSE Upto(a[2], h - 1)
      q == First(body, {"?"}) IN
  [scheme |-> s[1], auth |-> a[1],
   path |-> IF q = 0 THEN body ELSE Upto(body, q - 1),
   query |-> IF q = 0 THEN None ELSE From(body, q + 1),
   frag |-> IF h = 0 THEN None ELSE From(a[2], h + 1)]
Generic(t) == Parts(t, TRUE)
Split(t) == Parts(t, SplitScheme(t)[1] \in {"http", "https"})
Opt(pre, x) == IF x = None THEN "" ELSE pre \o x
Unsplit(c) == (IF c.scheme = None THEN "" ELSE c.scheme \o ":") \o Opt("//", c.auth) \o c.path \o Opt("?", c.query) \o Opt("#", c.frag)

(* Authorities: user:password@host:port *)
SplitAuthority(a) ==
  LET i == First(a, {"@"})
      ui == IF i = 0 THEN None ELSE Upto(a, i - 1)
      hp == IF i = 0 THEN a ELSE From(a, i + 1)
      j == IF ui = None THEN 0 ELSE First(ui, {":"})
      k == First(hp, {":"})
      h == IF k = 0 THEN hp ELSE Upto(hp, k - 1) IN
  [user |-> IF j = 0 THEN ui ELSE Upto(ui, j - 1),
   pw |-> IF j = 0 THEN None ELSE From(ui, j + 1),
   host |-> IF h = "" THEN None ELSE h,
   port |-> IF k = 0 THEN None ELSE From(hp, k + 1)]
JoinAuthority(c) == (IF c.user = None THEN "" ELSE c.user \o Opt(":", c.pw) \o "@") \o Opt("", c.host) \o Opt(":", c.port)

-------------------------------------------------------------------------------
(* Reference resolution *)
RemoveLast(out) == LET i == LastOf(out, "/") IN IF i = 0 THEN "" ELSE Upto(out, i - 1)
RECURSIVE Dots(_, _)
Dots(in, out) ==
  IF in = "" THEN out
  ELSE IF Starts(in, "../") THEN Dots(From(in, 4), out)
  ELSE IF Starts(in, "./") THEN Dots(From(in, 3), out)
  ELSE IF Starts(in, "/./") THEN Dots(From(in, 3), out)
  ELSE IF in = "/." THEN Dots("/", out)
  ELSE IF Starts(in, "/../") THEN Dots(From(in, 4), RemoveLast(out))
  ELSE IF in = "/.." THEN Dots("/", RemoveLast(out))
  ELSE IF in \in {".", ".."} THEN Dots("", out)
  ELSE LET i == First(From(in, 2), {"/"})
           n == IF i = 0 THEN Len(in) ELSE i IN
       Dots(From(in, n + 1), out \o Upto(in, n))
RemoveDots(p) == Dots(p, "")
Merge(b, path) == IF b.auth # None /\ b.path = "" THEN "/" \o path
                  ELSE Upto(b.path, LastOf(b.path, "/")) \o path
(* a reference with the scheme of the base counts as one without (5.2.2) *)
Resolve(base, ref) ==
  LET b == Generic(base)
      r0 == Generic(ref)
      r == IF r0.scheme = b.scheme THEN [r0 EXCEPT !.scheme = None] ELSE r0 IN
  IF r.scheme # None THEN [r EXCEPT !.path = RemoveDots(@)]
  ELSE IF r.auth # None THEN [r EXCEPT !.scheme = b.scheme, !.path = RemoveDots(@)]
  ELSE IF r.path = "" THEN [b EXCEPT !.query = IF r.query # None THEN r.query ELSE b.query, !.frag = r.frag]
  ELSE [b EXCEPT !.path = RemoveDots(IF Starts(r.path, "/") THEN r.path ELSE Merge(b, r.path)),
                 !.query = r.query, !.frag = r.frag]
UpToSlash(p, q) == p = q \/ p \o "/" = q \/ q \o "/" = p
SameUri(a, b) == [a EXCEPT !.path = ""] = [b EXCEPT !.path = ""] /\ UpToSlash(a.path, b.path)

-------------------------------------------------------------------------------
(* Schemes and their default values: user, password, host, port, path *)
D(u, p, h, port, path) == [user |-> u, pw |-> p, host |-> h, port |-> port, path |-> path]
Defaults(s) ==
  CASE s = "http"   -> D(None, None, None, "80", "/")
    [] s = "https"  -> D(None, None, None, "443", "/")
    [] s = "imap"   -> D(None, None, "localhost", "143", "/")
    [] s = "imaps"  -> D(None, None, "localhost", "993", "/")
    [] s = "ftp"    -> D("anonymous", "anonymous", None, "21", "/")
    [] s = "tftp"   -> D(None, None, None, "69", "/")
    [] s = "telnet" -> D(None, None, None, "23", "/")
    [] OTHER        -> D(None, None, None, None, "/")
Or(x, y) == IF x = None THEN y ELSE x
(* given: what the caller gives as defaults instead, or None; all seven *)
ParseUrl(t, given) ==
  LET c == Split(t)
      a == SplitAuthority(c.auth)
      d0 == Defaults(c.scheme)
      d == IF given = <<>> THEN <<d0.user, d0.pw, d0.host, d0.port, d0.path, None, None>> ELSE given IN
  <<c.scheme, Or(a.user, d[1]), Or(a.pw, d[2]), Or(a.host, d[3]), Or(a.port, d[4]),
    IF c.path = "" THEN d[5] ELSE c.path, Or(c.query, d[6]), Or(c.frag, d[7])>>
UnparseUrl(x) ==
  x[1] \o "://" \o JoinAuthority([user |-> x[2], pw |-> x[3], host |-> x[4], port |-> x[5]])
  \o (IF x[6] = None THEN "" ELSE x[6]) \o Opt("?", x[7]) \o Opt("#", x[8])
(* mailto:user@host *)
ParseMail(t) == LET c == Split(t)
                    i == First(c.path, {"@"}) IN
                <<c.scheme, Upto(c.path, i - 1), From(c.path, i + 1), c.query, c.frag>>
===============================================================================
