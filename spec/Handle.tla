---------------------------------- MODULE Handle ----------------------------------
(***************************************************************************)
(* Sessions on a file: what reading, writing and seeking return and leave.    *)
(* A file is a sequence of bytes; texts are sequences of code points, stored  *)
(* as UTF-8.  No newline is ever translated; lines end at 10 only.             *)
(* A session: [bin, r, w, app, pos].                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

NL == 10
Modes == [ r   |-> [bin |-> FALSE, r |-> TRUE,  w |-> FALSE, app |-> FALSE],
           rb  |-> [bin |-> TRUE,  r |-> TRUE,  w |-> FALSE, app |-> FALSE],
           rp  |-> [bin |-> FALSE, r |-> TRUE,  w |-> TRUE,  app |-> FALSE],
           rbp |-> [bin |-> TRUE,  r |-> TRUE,  w |-> TRUE,  app |-> FALSE],
           w   |-> [bin |-> FALSE, r |-> FALSE, w |-> TRUE,  app |-> FALSE],
           wb  |-> [bin |-> TRUE,  r |-> FALSE, w |-> TRUE,  app |-> FALSE],
           a   |-> [bin |-> FALSE, r |-> FALSE, w |-> TRUE,  app |-> TRUE],
           ab  |-> [bin |-> TRUE,  r |-> FALSE, w |-> TRUE,  app |-> TRUE] ]
Truncating(mode) == mode \in {"w", "wb"}

(* UTF-8 *)
Enc1(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Ascii(s) == \A i \in DOMAIN s : s[i] < 128
RECURSIVE Enc(_)
Enc(s) == IF Ascii(s) THEN s ELSE Enc1(Head(s)) \o Enc(Tail(s))
Width(b) == IF b < 128 THEN 1 ELSE IF b < 224 THEN 2 ELSE IF b < 240 THEN 3 ELSE 4
RECURSIVE Dec(_)
Dec(b) == IF Ascii(b) THEN b
          ELSE LET n == Width(b[1])
                   c == CASE n = 1 -> b[1]
                          [] n = 2 -> (b[1] - 192) * 64 + (b[2] - 128)
                          [] n = 3 -> (b[1] - 224) * 4096 + (b[2] - 128) * 64 + (b[3] - 128)
                          [] n = 4 -> (b[1] - 240) * 262144 + (b[2] - 128) * 4096 + (b[3] - 128) * 64 + (b[4] - 128)
               IN <<c>> \o Dec(SubSeq(b, n + 1, Len(b)))

RECURSIVE Valid(_)
Valid(b) == IF b = <<>> THEN TRUE ELSE LET n == Width(b[1]) IN
  /\ b[1] < 128 \/ b[1] >= 192
  /\ n <= Len(b)
  /\ \A i \in 2..n : b[i] \in 128..191
  /\ Valid(SubSeq(b, n + 1, Len(b)))

Least(a, b) == IF a < b THEN a ELSE b
(* the bytes from position p on *)
From(d, p) == SubSeq(d, p + 1, Len(d))
(* the number of bytes the first n characters of b have *)
RECURSIVE CharBytes(_, _)
CharBytes(b, n) == IF Ascii(b) THEN Least(n, Len(b))
                   ELSE IF n = 0 THEN 0 ELSE LET k == Width(b[1]) IN k + CharBytes(SubSeq(b, k + 1, Len(b)), n - 1)
(* the number of bytes of the first line of b *)
LineBytes(b) == IF \E i \in DOMAIN b : b[i] = NL
                THEN CHOOSE i \in DOMAIN b : b[i] = NL /\ \A j \in 1..(i - 1) : b[j] # NL
                ELSE Len(b)
RECURSIVE Lines(_)
Lines(b) == IF b = <<>> THEN <<>>
            ELSE LET n == LineBytes(b) IN <<SubSeq(b, 1, n)>> \o Lines(SubSeq(b, n + 1, Len(b)))
Zeros(n) == [i \in 1..n |-> 0]
(* d with the bytes x at position p *)
Put(d, p, x) == IF x = <<>> THEN d ELSE
  LET base == IF p > Len(d) THEN d \o Zeros(p - Len(d)) ELSE d IN
  SubSeq(base, 1, p) \o x \o SubSeq(base, p + Len(x) + 1, Len(base))

Open(mode, d) == LET m == Modes[mode] IN
  [bin |-> m.bin, r |-> m.r, w |-> m.w, app |-> m.app, pos |-> IF m.app THEN Len(d) ELSE 0]
Opened(mode, d) == IF Truncating(mode) THEN <<>> ELSE d

-------------------------------------------------------------------------------
(* What a call does: [res, d, pos].  Results: <<"data", x>> bytes or code
   points, <<"lines", xs>>, <<"int", n>>, <<"none">>, <<"stop">>, <<"err">> *)
Cook(H, b) == IF H.bin THEN b ELSE Dec(b)
Answer(H, d, b) == [res |-> <<"data", Cook(H, b)>>, d |-> d, pos |-> H.pos + Len(b)]
Fail(H, d) == [res |-> <<"err">>, d |-> d, pos |-> H.pos]
Bytes(H, x) == IF H.bin THEN x ELSE Enc(x)

Step(H, d, ev) ==
  LET rest == From(d, H.pos) IN
  CASE ev.op \in {"read", "readline", "readlines", "next"} /\ ~H.r -> Fail(H, d)
    [] ev.op \in {"write", "truncate"} /\ ~H.w -> Fail(H, d)
    [] ev.op = "read" ->
         IF ev.n < 0 THEN Answer(H, d, rest)
         ELSE Answer(H, d, SubSeq(rest, 1, IF H.bin THEN Least(ev.n, Len(rest)) ELSE CharBytes(rest, ev.n)))
    [] ev.op = "readline" -> Answer(H, d, SubSeq(rest, 1, LineBytes(rest)))
    [] ev.op = "next" -> IF rest = <<>> THEN [res |-> <<"stop">>, d |-> d, pos |-> H.pos]
                         ELSE Answer(H, d, SubSeq(rest, 1, LineBytes(rest)))
    [] ev.op = "readlines" ->
         LET ls == Lines(rest) IN
         [res |-> <<"lines", [i \in DOMAIN ls |-> Cook(H, ls[i])]>>, d |-> d, pos |-> H.pos + Len(rest)]
    [] ev.op = "tell" -> [res |-> <<"int", H.pos>>, d |-> d, pos |-> H.pos]
    [] ev.op = "seek" ->
         LET p == CASE ev.whence = 0 -> ev.n [] ev.whence = 1 -> H.pos + ev.n [] ev.whence = 2 -> Len(d) + ev.n IN
         [res |-> <<"int", p>>, d |-> d, pos |-> p]
    [] ev.op = "write" ->
         LET b == Bytes(H, ev.data)
             p == IF H.app THEN Len(d) ELSE H.pos IN
         [res |-> <<"int", Len(ev.data)>>, d |-> Put(d, p, b), pos |-> p + Len(b)]
    [] ev.op = "truncate" -> [res |-> <<"int", ev.n>>, d |-> SubSeq(d, 1, ev.n), pos |-> H.pos]
    [] OTHER -> [res |-> <<"none">>, d |-> d, pos |-> H.pos]      \* flush, close
===============================================================================
