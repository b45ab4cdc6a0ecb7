--------------------------------- MODULE ZipModel ---------------------------------
(***************************************************************************)
(* Connections to one archive that keep what they read of it: the archive is  *)
(* a sequence of entries to which writing appends; a connection has the       *)
(* entries it has seen when it opened the archive, or nothing.  Its answers   *)
(* have to be those of Zip.tla.  The measures can be switched off:             *)
(*   Fresh:  questions open the archive again                                  *)
(*   Append: writing to an existing archive keeps what it has                  *)
(*   Last:   of several entries with one name the last counts                  *)
(*   Parts:  paths are compared name by name, not as texts                     *)
(***************************************************************************)
EXTENDS Zip, Json, IOUtils

CONSTANTS Conns, Paths, Contents, Steps, Fresh, Appends, Last, Parts

MPaths == {<<1>>, <<10>>, <<2, 1>>}
MPaths4 == MPaths \cup {<<2, 10, 1>>}

VARIABLES A, E, seen, hist, told
vars == <<A, E, seen, hist, told>>
view == <<A, E, seen, told>>
None == <<>>      \* archives have entries

Entry(es, p) == {i \in DOMAIN es : es[i][1] = p}
ReadE(es, p) == IF Entry(es, p) = {} THEN <<"missing">>
                ELSE <<"data", es[CHOOSE i \in Entry(es, p) : \A j \in Entry(es, p) : IF Last THEN j <= i ELSE j >= i][2]>>
(* names are numbers: as texts, 1 is a prefix of 10 to 19 *)
TextPrefix(p, q) == \/ Prefix(p, q)
                    \/ ~Parts /\ Len(p) > 0 /\ Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p) - 1) = SubSeq(p, 1, Len(p) - 1)
                       /\ q[Len(p)] \div 10 = p[Len(p)]
IsFileE(es, p) == Entry(es, p) # {}
IsDirE(es, p) == p = <<>> \/ \E i \in DOMAIN es : TextPrefix(p, es[i][1]) /\ es[i][1] # p
NamesE(es, p) == {es[i][1][Len(p) + 1] : i \in {j \in DOMAIN es : Prefix(p, es[j][1]) /\ Len(es[j][1]) > Len(p)}}
ListE(es, p) == IF IsDirE(es, p) THEN <<"names", SortedSeq(NamesE(es, p))>> ELSE <<"missing">>

Asked == Paths \cup UNION {Above(p) : p \in Paths} \cup {<<1>>, <<1, 1>>}

Init == A = NoArchive /\ E = None /\ seen = [c \in Conns |-> None] /\ hist = <<>> /\ told = TRUE
Log(h) == hist' = Append(hist, h)
Entries2 == IF E = None THEN <<>> ELSE E

DoWrite(c, p, x) ==
  /\ E' = IF Appends THEN Append(Entries2, <<p, x>>) ELSE << <<p, x>> >>
  /\ A' = Write(A, p, x)
  /\ seen' = [seen EXCEPT ![c] = E']
  /\ told' = TRUE /\ Log(<<"write", c, p, x>>)
DoRead(c, p) ==
  /\ seen' = [seen EXCEPT ![c] = E]
  /\ told' = ((IF E = None THEN <<"missing">> ELSE ReadE(E, p)) = Read(A, p))
  /\ Log(<<"read", c, p, "">>) /\ UNCHANGED <<A, E>>
DoAsk(c, p) ==
  LET es == IF E = None THEN <<>> ELSE IF Fresh \/ seen[c] = None THEN E ELSE seen[c] IN
  /\ seen' = [seen EXCEPT ![c] = IF E = None THEN @ ELSE es]
  /\ told' = /\ IsFileE(es, p) = IsFile(A, p)
             /\ IsDirE(es, p) = IsDir(A, p)
             /\ ListE(es, p) = Listing(A, p)
  /\ Log(<<"ask", c, p, "">>) /\ UNCHANGED <<A, E>>
DoClose(c) == /\ seen[c] # None /\ seen' = [seen EXCEPT ![c] = None] /\ told' = TRUE
              /\ Log(<<"close", c, <<>>, "">>) /\ UNCHANGED <<A, E>>

Next == /\ Len(hist) < Steps
        /\ \E c \in Conns :
             \/ \E p \in Paths : \E x \in Contents : DoWrite(c, p, x)
             \/ \E p \in Asked : DoRead(c, p) \/ DoAsk(c, p)
             \/ DoClose(c)
Spec == Init /\ [][Next]_vars

Told == told
ToldFault == told \/ ~PrintT("HIST " \o ToJson(hist))
(* Laws of Zip.tla *)
Laws == /\ \A p \in DOMAIN A.files : Exists(A, p) /\ \A q \in Above(p) : IsDir(A, q)
        /\ \A p \in Asked : Exists(A, p) /\ p # <<>> => LET q == SubSeq(p, 1, Len(p) - 1) IN
             IsDir(A, q) /\ p[Len(p)] \in Names(A, q)
        /\ \A p \in Asked : \A n \in Names(A, p) : IsDir(A, p) /\ Exists(A, Append(p, n))
        /\ \A p \in Asked : IsDir(A, p) =>
             LET w == Walk(A, p, TRUE) IN
             /\ {w[i][1] : i \in DOMAIN w} = {q \in Dirs(A) : Prefix(p, q)}
             /\ Cardinality({w[i][1] : i \in DOMAIN w}) = Len(w)
             /\ {Walk(A, p, FALSE)[i] : i \in DOMAIN w} = {w[i] : i \in DOMAIN w}
             /\ UNION {{Append(w[i][1], w[i][3][j]) : j \in DOMAIN w[i][3]} : i \in DOMAIN w}
                = {q \in DOMAIN A.files : Prefix(p, q) /\ q # p /\ ~IsDir(A, q)}
Export == IOEnv.EXPORT # "1" \/ hist = <<>> \/ PrintT("HIST " \o ToJson(hist))
===============================================================================
