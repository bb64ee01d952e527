------------------------------ MODULE FileTrace -----------------------------
(***************************************************************************)
(* Every line of TRACES: files, the file of each handle (hs), and the calls  *)
(* made on the handles with what they returned, in this order per handle.    *)
(***************************************************************************)
EXTENDS FileIO, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, err
vars == <<tid, err>>

Problem(e, what, expected) == <<what, e, expected>>

RECURSIVE Run(_, _, _, _, _)
Run(ev, i, pos, views, hs) ==
    IF i > Len(ev) THEN <<>>
    ELSE LET e == ev[i]
             v == views[hs[e.h]].v
             size == views[hs[e.h]].n
             p == pos[e.h]
             Go(q) == Run(ev, i + 1, [pos EXCEPT ![e.h] = q], views, hs)
         IN CASE e.op = "open" -> Go(0)
              [] e.op = "size" -> IF e.r = size THEN Go(p) ELSE Problem(e, "size", size)
              [] e.op = "tell" -> IF e.r = p THEN Go(p) ELSE Problem(e, "position", p)
              [] e.op = "seek" ->
                    LET q == Target(size, p, e.off, e.wh) IN
                    (* before the start: refused without effect or stopped at the start *)
                    IF q >= 0 THEN (IF e.r = q THEN Go(q) ELSE Problem(e, "seek", q))
                    ELSE IF e.r = -1 THEN Go(p) ELSE IF e.r = 0 THEN Go(0) ELSE Problem(e, "seek", -1)
              [] e.op = "read" ->
                    LET want == Read(v, size, p, e.n) IN
                    IF e.r = want \/ (e.short /\ ShortOk(v, size, p, e.n, e.r)) THEN Go(p + Size(e.r))
                    ELSE Problem(e, "read", want)
              [] e.op = "pread" ->
                    LET want == Slice(v, e.o, e.n) IN
                    IF e.r = want THEN Go(p) ELSE Problem(e, "pread", want)

Diff(t) ==
    IF t.fault # "" THEN <<"fault", t.fault>>
    ELSE LET views == TLCEval([k \in 1..Len(t.files) |-> LET v == View(t.files[k]) IN [v |-> v, n |-> Size(v)]])
         IN Run(t.ev, 1, [h \in 1..Len(t.hs) |-> 0], views, t.hs)

(* One step for each trace, so that the traces are judged in parallel. *)
Init == tid \in 1..Len(Traces) /\ err = <<"undecided">>
Next ==
    /\ err = <<"undecided">>
    /\ err' = Diff(Traces[tid])
    /\ IF err' = <<>> THEN PrintT("@OK " \o ToString(tid))
       ELSE PrintT("@BAD " \o ToJson([tid |-> tid, err |-> err']))
    /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
=============================================================================
