----------------------------- MODULE StreamReader ----------------------------
(***************************************************************************)
(* How members of compressed archives are read: a decoder that only goes     *)
(* forward, a buffer with what it returned last, and a position inside of    *)
(* the buffer.  Seeking forward decodes and drops, seeking backward uses the *)
(* buffer or starts all over.  Whatever is done, a read returns the bytes    *)
(* following the position that the calls made so far amount to (FileIO), and *)
(* the reported position is that position.  Byte k of the file has value k.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS N,         \* size of the file
          Block,     \* what the decoder returns at once
          Rewind,    \* TRUE: starting over resets where the buffer is
          InBuffer,  \* "both": the buffer is only used for what is inside of it; "end": for everything before its end
          Advance    \* TRUE: the reported position follows reads

VARIABLES decoded, off, buf, at, reported, want, ok
vars == <<decoded, off, buf, at, reported, want, ok>>

Min(a, b) == IF a < b THEN a ELSE b
Bytes(a, n) == [i \in 1..n |-> a + i - 1]
Fresh(o) == LET n == Min(Block, N) IN [decoded |-> n, off |-> o, buf |-> Bytes(0, n), at |-> 0]

(* reads n bytes, n >= 0: <<new reader, bytes>> *)
RECURSIVE Take(_, _)
Take(r, n) ==
    IF n = 0 THEN <<r, <<>>>>
    ELSE LET have == Len(r.buf) - r.at IN
         IF have > 0
         THEN LET m == Min(n, have)
                  rest == Take([r EXCEPT !.at = @ + m], n - m)
              IN <<rest[1], SubSeq(r.buf, r.at + 1, r.at + m) \o rest[2]>>
         ELSE IF r.decoded >= N THEN <<r, <<>>>>
         ELSE LET m == Min(Block, N - r.decoded)
              IN Take([decoded |-> r.decoded + m, off |-> r.off + Len(r.buf), buf |-> Bytes(r.decoded, m), at |-> 0], n)

Reader == [decoded |-> decoded, off |-> off, buf |-> buf, at |-> at]
Become(r) == decoded' = r.decoded /\ off' = r.off /\ buf' = r.buf /\ at' = r.at

Init ==
    /\ LET r == Fresh(0) IN decoded = r.decoded /\ off = r.off /\ buf = r.buf /\ at = r.at
    /\ reported = 0 /\ want = 0 /\ ok = TRUE

Seek(o) ==
    LET here == off + at
        r == IF o >= here THEN Take(Reader, o - here)[1]
             ELSE IF o < off + Len(buf) /\ (InBuffer = "end" \/ o >= off)
             THEN [Reader EXCEPT !.at = IF o - off < 0 THEN 0 ELSE o - off]
             ELSE Take(Fresh(IF Rewind THEN 0 ELSE off), o)[1]
    IN /\ Become(r)
       /\ want' = Min(o, N)
       /\ reported' = r.off + r.at
       /\ ok' = (reported' = want')

Read(n) ==
    LET r == Take(Reader, n) IN
    /\ Become(r[1])
    /\ want' = want + Len(r[2])
    /\ reported' = IF Advance THEN r[1].off + r[1].at ELSE reported
    /\ ok' = (r[2] = Bytes(want, Min(n, N - want)) /\ reported' = want')

Next == \/ \E o \in 0..N + 1 : Seek(o)
        \/ \E n \in 0..N + 1 : Read(n)
Spec == Init /\ [][Next]_vars

Correct == ok
=============================================================================
