---------------------------- MODULE SharedCursor ----------------------------
(***************************************************************************)
(* Handles of threads on one underlying file that has a single position.    *)
(* A read goes through the regions of the handle: it seeks the underlying    *)
(* file and then reads from it, which may return less than asked for, until  *)
(* it has everything.  Each read must return the bytes of its file.          *)
(***************************************************************************)
EXTENDS FileIO, Json

CONSTANTS Threads, Reads, Emit,
          Lock,      \* TRUE: a read is exclusive
          Whole,     \* TRUE: continues with the next region
          Advance    \* "got": by what was returned; "asked"

VARIABLES cursor, holder, th, sched
vars == <<cursor, holder, th, sched>>

Under == [t |-> "src", s |-> 1, n |-> 5]
(* thread 1 reads two regions in reverse order, thread 2 one after a gap *)
File(t) == IF t = 1 THEN [t |-> "cut", fs |-> <<Under>>, c |-> <<<<1, 3, 2>>, <<1, 0, 2>>>>]
                    ELSE [t |-> "cut", fs |-> <<Under>>, c |-> <<<<1, 2, 3>>>>]
Regions(t) == File(t).c

(* region and offset in it of position p *)
RECURSIVE Find(_, _, _)
Find(rs, i, p) == IF i > Len(rs) THEN <<0, 0>> ELSE IF p < rs[i][3] THEN <<i, p>> ELSE Find(rs, i + 1, p - rs[i][3])

Init ==
    /\ cursor = 0 /\ holder = 0 /\ sched = <<>>
    /\ th = [t \in Threads |-> [at |-> "idle", pos |-> 0, from |-> 0, want |-> 0, left |-> 0, got |-> <<>>, done |-> 0, ok |-> TRUE]]

Start(t) ==
    /\ th[t].at = "idle" /\ th[t].done < Reads
    /\ (Lock => holder = 0)
    /\ \E p \in 0..3, n \in {1, 3} :
        /\ holder' = IF Lock THEN t ELSE 0
        /\ th' = [th EXCEPT ![t].at = "seek", ![t].pos = p, ![t].from = p, ![t].want = n, ![t].left = n, ![t].got = <<>>]
    /\ UNCHANGED <<cursor, sched>>

Seek(t) ==
    /\ th[t].at = "seek"
    /\ LET f == Find(Regions(t), 1, th[t].pos) IN
       IF f[1] = 0 \/ th[t].left = 0
       THEN cursor' = cursor /\ th' = [th EXCEPT ![t].at = "end"] /\ sched' = sched
       ELSE /\ cursor' = Regions(t)[f[1]][2] + f[2]
            /\ th' = [th EXCEPT ![t].at = "read"]
            /\ sched' = IF Emit THEN Append(sched, t) ELSE sched
    /\ UNCHANGED holder

Fetch(t) ==
    /\ th[t].at = "read"
    /\ LET f == Find(Regions(t), 1, th[t].pos)
           ask == Min(th[t].left, Regions(t)[f[1]][3] - f[2])
       IN \E m \in (IF ask > 1 THEN {1, ask} ELSE {ask}) :
          LET data == Slice(View(Under), cursor, m)
              got == IF Advance = "got" THEN Size(data) ELSE ask IN
          /\ cursor' = cursor + Size(data)
          /\ th' = [th EXCEPT ![t].got = Concat(@, data), ![t].pos = @ + got, ![t].left = @ - got,
                              ![t].at = IF data # <<>> /\ (Whole \/ Size(data) < ask) /\ th[t].left > got THEN "seek" ELSE "end"]
    /\ sched' = IF Emit THEN Append(sched, t) ELSE sched
    /\ UNCHANGED holder

End(t) ==
    /\ th[t].at = "end"
    /\ holder' = IF holder = t THEN 0 ELSE holder
    /\ th' = [th EXCEPT ![t].at = "idle", ![t].done = @ + 1,
                        ![t].ok = @ /\ th[t].got = Slice(View(File(t)), th[t].from, th[t].want)]
    /\ UNCHANGED <<cursor, sched>>

Next == \E t \in Threads : Start(t) \/ Seek(t) \/ Fetch(t) \/ End(t)
Spec == Init /\ [][Next]_vars

Correct == \A t \in Threads : th[t].ok
Emitted == (Emit /\ \A t \in Threads : th[t].done = Reads) => PrintT("@S " \o ToJson(sched))
=============================================================================
