----------------------------------- MODULE Uri -----------------------------------
(***************************************************************************)
(* The value a URI object denotes, its textual form, and the operations     *)
(* that derive one URI from another (properties C01-C05, C27).              *)
(*                                                                          *)
(* A URI value is a record                                                  *)
(*   sch         scheme                                                     *)
(*   au, ap      user and password as written in the text ("" if absent)    *)
(*   user, pw    user and password in effect                                *)
(*   host, port  ("" and 0 if absent)                                       *)
(*   arch        text of the enclosing archive's URI ("" if none)           *)
(*   path        with forward slashes: "/a/b", "./a/b", or "" right after   *)
(*               a host                                                     *)
(*   q           query arguments, a map                                     *)
(*   ex          extra arguments, a map                                     *)
(*   frag        fragment (http only)                                       *)
(*   sep         the separator of path texts                                *)
(*   local       made as a local path                                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

(* Percent encoding.  The characters ^ ~ ` } stand for others (see the       *)
(* harness) and carry their UTF-8 encoding. *)
EncChars == {"&", "=", "%", "+", "#", "?", "/", ":", "@", "\\", ";", ",", "\"", "'", "<", ">", "{", "|", "[", "]", "(", ")", "*", "!", "$", "^", "~", "`", "}"}
Enc == [c \in EncChars |->
    CASE c = "&" -> "%26"
    [] c = "=" -> "%3D"
    [] c = "%" -> "%25"
    [] c = "+" -> "%2B"
    [] c = "#" -> "%23"
    [] c = "?" -> "%3F"
    [] c = "/" -> "%2F"
    [] c = ":" -> "%3A"
    [] c = "@" -> "%40"
    [] c = "\\" -> "%5C"
    [] c = ";" -> "%3B"
    [] c = "," -> "%2C"
    [] c = "\"" -> "%22"
    [] c = "'" -> "%27"
    [] c = "<" -> "%3C"
    [] c = ">" -> "%3E"
    [] c = "{" -> "%7B"
    [] c = "|" -> "%7C"
    [] c = "[" -> "%5B"
    [] c = "]" -> "%5D"
    [] c = "(" -> "%28"
    [] c = ")" -> "%29"
    [] c = "*" -> "%2A"
    [] c = "!" -> "%21"
    [] c = "$" -> "%24"
    [] c = "^" -> "%C3%A4"
    [] c = "~" -> "%E6%97%A5"
    [] c = "`" -> "%F0%9F%98%80"
    [] c = "}" -> "%C3%A9"]
Encoded == EncChars \cup {" "}

-------------------------------------------------------------------------------
(* Text. *)
Ch(s, i) == SubSeq(s, i, i)
From(s, i) == SubSeq(s, i, Len(s))
Upto(s, i) == SubSeq(s, 1, i)
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

(* positions of the characters C in s *)
Positions(s, C) == {i \in 1..Len(s) : Ch(s, i) \in C}
First(s, C) == LET I == Positions(s, C) IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
LastOf(s, C) == LET I == Positions(s, C) IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : j <= i
FindStr(s, p, k) ==
  LET I == {i \in k..(Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p} IN
  IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j

RECURSIVE RStrip(_, _)
RStrip(s, C) == IF s # "" /\ Ch(s, Len(s)) \in C THEN RStrip(Upto(s, Len(s) - 1), C) ELSE s
RECURSIVE LStrip(_, _)
LStrip(s, C) == IF s # "" /\ Ch(s, 1) \in C THEN LStrip(From(s, 2), C) ELSE s
Strip(s, C) == LStrip(RStrip(s, C), C)

RECURSIVE SplitAt(_, _)
SplitAt(s, c) == LET i == First(s, {c}) IN
                 IF i = 0 THEN <<s>> ELSE <<Upto(s, i - 1)>> \o SplitAt(From(s, i + 1), c)

RECURSIVE Glue(_, _)
Glue(parts, c) == IF Len(parts) = 0 THEN "" ELSE IF Len(parts) = 1 THEN parts[1]
                  ELSE parts[1] \o c \o Glue(Tail(parts), c)
Subst(s, a, b) == IF Positions(s, {a}) = {} THEN s ELSE Glue(SplitAt(s, a), b)

RECURSIVE Num(_)
Num(s) == IF s = "" THEN 0
          ELSE 10 * Num(Upto(s, Len(s) - 1)) +
               (CHOOSE d \in 0..9 : ToString(d) = Ch(s, Len(s)))

Put(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
Over(m, n) == [x \in DOMAIN m \cup DOMAIN n |-> IF x \in DOMAIN n THEN n[x] ELSE m[x]]
Without(m, ks) == [x \in DOMAIN m \ ks |-> m[x]]
NoMap == [x \in {} |-> ""]
Get(m, k) == IF k \in DOMAIN m THEN m[k] ELSE ""

-------------------------------------------------------------------------------
(* Query arguments: key=value&..., percent encoded; '+' is a space. *)
RECURSIVE Decode(_)
Decode(s) ==
  LET i == First(s, {"%", "+"}) IN
  IF i = 0 THEN s
  ELSE LET r == From(s, i) IN
       Upto(s, i - 1) \o
       (IF Ch(s, i) = "+" THEN " " \o Decode(From(s, i + 1))
        ELSE IF Starts(r, "%20") THEN " " \o Decode(From(s, i + 3))
        ELSE IF \E c \in EncChars : Starts(r, Enc[c])
        THEN LET c == CHOOSE x \in EncChars : Starts(r, Enc[x]) IN c \o Decode(From(r, Len(Enc[c]) + 1))
        ELSE "%" \o Decode(From(s, i + 1)))

RECURSIVE Encode(_)
Encode(s) ==
  LET i == First(s, Encoded) IN
  IF i = 0 THEN s
  ELSE Upto(s, i - 1) \o (IF Ch(s, i) = " " THEN "+" ELSE Enc[Ch(s, i)]) \o Encode(From(s, i + 1))

RECURSIVE Items(_)
Items(parts) ==
  IF parts = <<>> THEN NoMap
  ELSE LET item == parts[Len(parts)]
           i == First(item, {"="})
           k == IF i = 0 THEN item ELSE Upto(item, i - 1)
           v == IF i = 0 THEN "" ELSE From(item, i + 1) IN
       \* the last of equal keys counts
       Put(Items(Upto(parts, Len(parts) - 1)), Decode(Strip(k, {" "})), Decode(Strip(v, {" "})))
Query(s) == IF s = "" THEN NoMap ELSE Items(SplitAt(s, "&"))

RECURSIVE QueryText(_, _)
QueryText(q, ks) ==
  IF ks = {} THEN ""
  ELSE LET k == CHOOSE x \in ks : TRUE
           rest == QueryText(q, ks \ {k}) IN
       Encode(k) \o "=" \o Encode(q[k]) \o (IF rest = "" THEN "" ELSE "&" \o rest)

-------------------------------------------------------------------------------
(* Parsing. *)
IsHttp(s) == s \in {"http", "https"}
Letters == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z","+","-"}

SchemeOf(t) ==
  LET i == FindStr(t, "://", 1) IN
  IF i > 1 /\ \A j \in 1..(i - 1) : Ch(t, j) \in Letters THEN Upto(t, i - 1) ELSE ""

(* The internal form of a local path text. *)
Drive(p) == IF Len(p) > 1 /\ Ch(p, 2) = ":" THEN "/" \o Ch(p, 1) \o From(p, 3) ELSE p
Internal(t) ==
  LET p == Drive(Subst(t, "\\", "/")) IN
  IF p = "." \/ Starts(p, "/") \/ Starts(p, "./") THEN p ELSE "./" \o p

(* path, query and fragment of what follows the authority *)
Rest(sch, t) ==
  LET h == IF IsHttp(sch) THEN First(t, {"#"}) ELSE 0
      body == IF h = 0 THEN t ELSE Upto(t, h - 1)
      i == First(body, {"?"}) IN
  [path |-> IF i = 0 THEN body ELSE Upto(body, i - 1),
   q    |-> IF i = 0 THEN NoMap ELSE Query(From(body, i + 1)),
   frag |-> IF h = 0 THEN "" ELSE From(t, h + 1)]

Authority(a) ==
  LET at == First(a, {"@"})
      info == IF at = 0 THEN "" ELSE Upto(a, at - 1)
      hp == From(a, at + 1)
      c == First(info, {":"})
      d == First(hp, {":"}) IN
  [au   |-> IF c = 0 THEN info ELSE Upto(info, c - 1),
   ap   |-> IF c = 0 THEN "" ELSE From(info, c + 1),
   host |-> IF d = 0 THEN hp ELSE Upto(hp, d - 1),
   port |-> IF d = 0 THEN 0 ELSE Num(From(hp, d + 1))]
NoAuthority == [au |-> "", ap |-> "", host |-> "", port |-> 0]

Value(sch, auth, arch, rest, ex, sep) ==
  [sch |-> sch, au |-> auth.au, ap |-> auth.ap, host |-> auth.host, port |-> auth.port, arch |-> arch,
   user |-> IF auth.au # "" THEN auth.au
            ELSE IF Get(ex, "username") # "" THEN Get(ex, "username") ELSE Get(rest.q, "username"),
   pw   |-> IF auth.ap # "" THEN auth.ap
            ELSE IF Get(ex, "password") # "" THEN Get(ex, "password") ELSE Get(rest.q, "password"),
   path |-> rest.path, q |-> rest.q, frag |-> rest.frag, ex |-> Without(ex, {"username", "password"}),
   sep |-> sep, local |-> sch = "file"]

Parse(text, ex, sep) ==
  LET sch == SchemeOf(text) IN
  IF sch \in {"", "file"}
  THEN LET r == Rest("file", IF sch = "" THEN text ELSE From(text, 8)) IN
       Value("file", NoAuthority, "", [r EXCEPT !.path = Internal(r.path)], ex, sep)
  ELSE LET t == From(text, Len(sch) + 4)
           close == IF Starts(t, "((") THEN FindStr(t, "))", 3) ELSE 0 IN
       IF close # 0
       THEN Value(sch, NoAuthority, SubSeq(t, 3, close - 1), Rest(sch, From(t, close + 2)), ex, sep)
       ELSE LET e == First(t, {"/", "?", "#"})
                a == IF e = 0 THEN t ELSE Upto(t, e - 1)
                b == IF e = 0 THEN "" ELSE From(t, e) IN
            IF a = "." THEN Value(sch, NoAuthority, "", Rest(sch, "." \o b), ex, sep)
            ELSE Value(sch, IF a = "" THEN NoAuthority ELSE Authority(a), "", Rest(sch, b), ex, sep)

-------------------------------------------------------------------------------
(* The textual form and what else is reported. *)
DriveForm(p) == Len(p) > 1 /\ Starts(p, "/") /\ Ch(p \o "/", 3) = "/"
PathText(u) ==
  IF ~u.local \/ u.sep = "/" THEN u.path
  ELSE IF DriveForm(u.path) THEN Ch(u.path, 2) \o ":" \o u.sep \o Subst(From(u.path, 4), "/", u.sep)
  ELSE Subst(u.path, "/", u.sep)

LoginText(u) == IF u.au = "" /\ u.ap = "" THEN "" ELSE u.au \o (IF u.ap = "" THEN "" ELSE ":" \o u.ap) \o "@"
Text(u) ==
  IF u.local THEN PathText(u)
  ELSE u.sch \o "://" \o
       (IF u.arch # "" THEN "((" \o u.arch \o "))"
        ELSE LoginText(u) \o u.host \o (IF u.port = 0 THEN "" ELSE ":" \o ToString(u.port))) \o
       u.path \o
       (IF u.q = NoMap THEN "" ELSE "?" \o QueryText(u.q, DOMAIN u.q)) \o
       (IF u.frag = "" THEN "" ELSE "#" \o u.frag)

IsAbsolute(u) == Starts(u.path, "/")
UniPath(u) == IF Starts(u.path, ".") \/ Starts(u.path, "/") THEN u.path ELSE "./" \o u.path

(* Equality: where it points to, not as whom or with which extras. *)
Equal(u, v) == /\ u.sch = v.sch /\ u.host = v.host /\ u.port = v.port /\ u.arch = v.arch
               /\ u.path = v.path /\ u.q = v.q

(* The backend: everything but the path.  The query is part of a resource's *)
(* name for http, otherwise it consists of arguments for the backend.       *)
Args(u) == Without(IF IsHttp(u.sch) THEN u.ex ELSE Over(u.ex, u.q), {"username", "password"})
Key(u) == <<u.sch, u.host, u.port, u.user, u.pw, u.arch, Args(u)>>

-------------------------------------------------------------------------------
(* Derivation. *)
At(u, path) == [u EXCEPT !.path = path, !.frag = ""]

Names(u, args) ==
  LET raw == [i \in DOMAIN args |-> IF u.sep = "/" THEN args[i] ELSE Subst(args[i], u.sep, "/")] IN
  [i \in DOMAIN raw |-> IF i = Len(raw) THEN raw[i] ELSE Strip(raw[i], {"/"})]
Join(u, args) == At(u, RStrip(u.path, {"/"}) \o "/" \o Glue(Names(u, args), "/"))

Split(u) ==
  LET i == LastOf(u.path, {"/"}) IN
  IF i = 0 THEN <<At(u, u.path), u.path>>
  ELSE <<At(u, IF i = 1 THEN "/" ELSE Upto(u.path, i - 1)), From(u.path, i + 1)>>
RECURSIVE Directory(_, _)
Directory(u, n) == IF n = 0 THEN u ELSE Directory(Split(u)[1], n - 1)
Basename(u) == Split(u)[2]
LastName(u) == LET p == SplitAt(u.path, "/") IN
               IF p[Len(p)] # "" \/ Len(p) = 1 THEN p[Len(p)] ELSE p[Len(p) - 1]
Suffix(u, s) == At(u, u.path \o s)

(* extension: from the last dot, if something other than dots is before it *)
Splitext(name) ==
  LET i == LastOf(name, {"."}) IN
  IF i = 0 \/ LStrip(Upto(name, i), {"."}) = "" THEN <<name, "">>
  ELSE <<Upto(name, i - 1), From(name, i)>>

SetScheme(u, s) == [u EXCEPT !.sch = s]
SetQuery(u, k, v) == [u EXCEPT !.q = Put(u.q, k, v)]
DelQuery(u, k) == [u EXCEPT !.q = Without(u.q, {k})]

===============================================================================
