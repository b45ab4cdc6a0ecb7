------------------------------- MODULE HandleModel -------------------------------
(***************************************************************************)
(* Every session of some calls on every content in the bounds: the laws of    *)
(* Handle.tla, stated without its definitions of the calls, and the cases     *)
(* to run on the code.                                                        *)
(***************************************************************************)
EXTENDS Handle, Json, IOUtils

CONSTANTS Alphabet, MaxLen, Texts, Ns, Depth

Contents == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Ops == {[op |-> "read", n |-> n] : n \in Ns \cup {0 - 1}}
       \cup {[op |-> o] : o \in {"readline", "readlines", "next"}}
       \cup {[op |-> "seek", n |-> 0, whence |-> w] : w \in {0, 2}}
       \cup {[op |-> "write", data |-> t] : t \in Texts}

MTexts == {<<>>, <<98>>, <<10, 8364>>}

VARIABLES d0, mode, d, H, hist
vars == <<d0, mode, d, H, hist>>

Given(o) == IF o.op = "write" /\ H.bin THEN [o EXCEPT !.data = Enc(o.data)] ELSE o

Init == /\ \E c \in Contents : d0 = Enc(c)
        /\ mode \in DOMAIN Modes
        /\ d = Opened(mode, d0) /\ H = Open(mode, d) /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E o \in Ops : LET x == Step(H, d, Given(o)) IN
             /\ (IF H.bin THEN TRUE ELSE Valid(From(x.d, x.pos)))      \* texts are not cut within a character
             /\ d' = x.d /\ H' = [H EXCEPT !.pos = x.pos] /\ hist' = Append(hist, Given(o))
        /\ UNCHANGED <<d0, mode>>
Spec == Init /\ [][Next]_vars

-------------------------------------------------------------------------------
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Do(o) == Step(H, d, o)
At(p, o) == Step([H EXCEPT !.pos = p], d, o)
All == Do([op |-> "read", n |-> 0 - 1])

Codec == (Valid(d) => Enc(Dec(d)) = d) /\ \A t \in Texts : Dec(Enc(t)) = t

(* reading piece by piece gives the same as reading all *)
Pieces == H.r =>
  /\ All.d = d /\ All.pos = Len(d)
  /\ Bytes(H, All.res[2]) = From(d, H.pos)
  /\ \A n \in Ns \cup {0} :
       LET x == Do([op |-> "read", n |-> n])
           y == At(x.pos, [op |-> "read", n |-> 0 - 1]) IN
       /\ x.res[2] \o y.res[2] = All.res[2]
       /\ Len(x.res[2]) = Least(n, Len(All.res[2]))
  /\ LET x == Do([op |-> "readlines"]) IN
       /\ Flat(x.res[2]) = All.res[2] /\ x.pos = Len(d)
       /\ \A i \in DOMAIN x.res[2] : LET s == x.res[2][i] IN
            /\ s # <<>>
            /\ \A j \in DOMAIN s : s[j] = NL => j = Len(s)
            /\ i < Len(x.res[2]) => s[Len(s)] = NL
       /\ LET y == Do([op |-> "readline"])
              z == Do([op |-> "next"]) IN
          IF x.res[2] = <<>> THEN y.res[2] = <<>> /\ z.res = <<"stop">>
          ELSE y.res[2] = x.res[2][1] /\ z.res = y.res
ReadRefused == ~H.r => \A o \in Ops : o.op \in {"read", "readline", "readlines", "next"} => Do(o) = [res |-> <<"err">>, d |-> d, pos |-> H.pos]
WriteRefused == ~H.w => \A o \in Ops : o.op = "write" => Do(Given(o)) = [res |-> <<"err">>, d |-> d, pos |-> H.pos]
(* writing puts the text at the position, or at the end, and touches nothing else *)
Writing == H.w => \A t \in Texts :
  LET o == Given([op |-> "write", data |-> t])
      x == Do(o)
      p == IF H.app THEN Len(d) ELSE H.pos
      b == Enc(t) IN
  /\ SubSeq(x.d, p + 1, x.pos) = b
  /\ SubSeq(x.d, 1, p) = SubSeq(d, 1, p)
  /\ From(x.d, x.pos) = From(d, x.pos)
  /\ Len(x.d) = IF p + Len(b) > Len(d) THEN p + Len(b) ELSE Len(d)
  /\ x.res = <<"int", Len(o.data)>>
Appending == H.app => SubSeq(d, 1, Len(d0)) = d0
Fresh == hist = <<>> => /\ H.pos = (IF H.app THEN Len(d0) ELSE 0)
                        /\ d = (IF Truncating(mode) THEN <<>> ELSE d0)
Export == IOEnv.EXPORT # "1" \/ Len(hist) < Depth \/ PrintT("SESS " \o ToJson(<<mode, d0, hist>>))
===============================================================================
