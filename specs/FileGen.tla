------------------------------- MODULE FileGen ------------------------------
(* Call sequences on handles of a file.  Positions are <<boundary, delta>>:   *)
(* which offsets the boundaries are is decided for each real file.           *)
EXTENDS Naturals, Integers, Sequences, TLC, Json

CONSTANTS Handles, Bounds, Steps
VARIABLES hist, done
vars == <<hist, done>>

At == (0..Bounds) \X {-1, 0, 1}
Ops ==
      [op : {"seek"}, h : Handles, to : At, wh : 0..2]
 \cup [op : {"read", "readinto", "pread"}, h : Handles, to : At]       \* up to there
 \cup [op : {"read"}, h : Handles, n : {0, 1, 2}]
 \cup [op : {"rest", "tell", "reopen"}, h : Handles]

Init == hist = <<>> /\ done = FALSE
(* what is read depends on where one is: seeks and reads alternate most of the time *)
Call == /\ Len(hist) < Steps /\ done' = done
        /\ \E op \in Ops :
             /\ (hist # <<>> /\ hist[Len(hist)].op = "seek" => op.op # "seek" \/ op.h # hist[Len(hist)].h)
             /\ hist' = Append(hist, op)
Emit == /\ Len(hist) = Steps /\ ~done /\ done' = TRUE /\ hist' = hist
        /\ PrintT("@P " \o ToJson(hist))
Next == Call \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
