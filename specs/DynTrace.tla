------------------------------ MODULE DynTrace ------------------------------
(***************************************************************************)
(* Judges what is visible after each command given to a running mount        *)
(* (TRACES).  cts: contents, each a sequence of nodes                         *)
(* [p: path, t: type, d: data, x: extended attribute]; ev: the events.        *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, err
vars == <<tid, err>>

FAILED == -2
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Range(s) == {s[i] : i \in DOMAIN s}

(***************************************************************************)
(* Several sources at one mount point: one over the other, or each in a       *)
(* folder of its name (made unique by appending numbers).                     *)
(***************************************************************************)
RECURSIVE Unique(_, _, _, _)
Unique(src, i, taken, number) ==
    IF i > Len(src) THEN <<>>
    ELSE LET Free(k) == src[i].name \o "." \o ToString(k) \notin taken
             k == CHOOSE n \in number..(number + Len(src)) : Free(n) /\ \A m \in number..(n - 1) : ~Free(m)
             name == IF src[i].name \in taken THEN src[i].name \o "." \o ToString(k) ELSE src[i].name
         IN <<name>> \o Unique(src, i + 1, taken \cup {name}, IF src[i].name \in taken THEN k ELSE number)

Parts(src, sub) ==
    IF sub /\ Len(src) > 1
    THEN LET names == Unique(src, 1, {}, 1) IN [i \in 1..Len(src) |-> [at |-> <<names[i]>>, id |-> src[i].id]]
    ELSE [i \in 1..Len(src) |-> [at |-> <<>>, id |-> src[i].id]]

(* mounts: set of [p: mount point, parts] *)
Free(mounts, p) == p # <<>> /\ \A m \in mounts : ~Prefix(p, m.p) /\ ~Prefix(m.p, p)

Shown(cts, m) ==
    {<<m.p \o m.parts[i].at \o n.p, n.t, n.d, n.x>> : <<i, n>> \in
        {<<i, n>> \in UNION {{<<i, n>> : n \in Range(cts[m.parts[i].id])} : i \in DOMAIN m.parts} :
            \A j \in (i + 1)..Len(m.parts) : m.parts[j].at = m.parts[i].at =>
                n.p \notin {o.p : o \in Range(cts[m.parts[j].id])}}}
Implied(m) ==
    {<<SubSeq(q, 1, k), "d", 0, 0>> : <<q, k>> \in
        UNION {{<<m.p \o m.parts[i].at, k>> : k \in 1..Len(m.p \o m.parts[i].at)} : i \in DOMAIN m.parts}}
View(cts, mounts) == UNION {Shown(cts, m) \cup Implied(m) : m \in mounts}

Node(view, p) == {n \in view : n[1] = p}

(* the difference to what was observed *)
Diff(view, obs) ==
    LET o == {<<n.p, n.t, n.d, n.x>> : n \in Range(obs)} IN
    IF o = view /\ Cardinality(o) = Len(obs) THEN <<>>
    ELSE IF o = view THEN <<"twice">>
    ELSE IF view \ o # {} THEN <<"missing", CHOOSE n \in view \ o : TRUE, {n \in o : n[1] = (CHOOSE n2 \in view \ o : TRUE)[1]}>>
    ELSE <<"unexpected", CHOOSE n \in o \ view : TRUE>>

Remove(mounts, ps) == {m \in mounts : m.p \notin Range(ps)}

RECURSIVE Run(_, _, _, _, _, _)
Run(cts, ev, i, dyn, mounts, open) ==
    IF i > Len(ev) THEN <<>>
    ELSE
    LET e == ev[i]
        After(ms, calls, fds) ==
            LET d == Diff(View(cts, ms), e.view) IN
            IF d # <<>> THEN <<i, e.op>> \o d
            ELSE IF e.calls # calls THEN <<i, e.op, "started", e.calls, calls>>
            ELSE Run(cts, ev, i + 1, dyn, ms, fds)
    IN CASE e.op = "start" ->
              LET d == e.dyn
                  ms == IF Len(e.src) = 0 THEN {}
                        ELSE IF e.sub /\ Len(e.src) > 1
                        THEN LET parts == Parts(e.src, TRUE) IN
                             {[p |-> parts[k].at, parts |-> <<[at |-> <<>>, id |-> parts[k].id]>>] : k \in DOMAIN parts}
                        ELSE {[p |-> <<>>, parts |-> Parts(e.src, FALSE)]}
                  x == Diff(View(cts, ms), e.view)
              IN IF x # <<>> THEN <<i, e.op>> \o x ELSE Run(cts, ev, i + 1, d, ms, open)
         [] e.op = "mount" ->
              IF dyn /\ ~e.bad /\ Free(mounts, e.p)
              THEN After(mounts \cup {[p |-> e.p, parts |-> Parts(e.src, e.sub)]}, <<>>, open)
              ELSE After(mounts, <<>>, open)
         [] e.op = "unmount" ->
              LET ms == IF dyn THEN Remove(mounts, e.ps) ELSE mounts
              IN After(ms, IF e.foreign = <<>> THEN <<>> ELSE <<<<"--unmount">> \o e.foreign>>,
                       [h \in DOMAIN open |-> IF open[h].m \in mounts \ ms THEN [open[h] EXCEPT !.gone = TRUE] ELSE open[h]])
         [] e.op = "other" -> After(mounts, IF e.start = <<>> THEN <<>> ELSE <<e.start>>, open)
         [] e.op = "open" ->
              LET n == Node(View(cts, mounts), e.p)
                  f == {x \in n : x[2] = "f"}
                  r == IF f # {} THEN "ok" ELSE IF n = {} THEN "ENOENT" ELSE "EISDIR"
              IN IF e.r # r THEN <<i, e.op, e.r, r>>
                 ELSE After(mounts, <<>>, 
                         IF f = {} THEN open
                         ELSE [open EXCEPT ![e.h] = [d |-> (CHOOSE x \in f : TRUE)[3], gone |-> FALSE,
                                                     m |-> CHOOSE m \in mounts : Prefix(m.p, e.p)]])
         [] e.op = "read" -> 
              \* what is no longer mounted may be gone, but never something else
              IF e.r # open[e.h].d /\ ~(e.r = FAILED /\ open[e.h].gone) THEN <<i, e.op, e.r, open[e.h].d>> ELSE After(mounts, <<>>, open)

Nothing == [d |-> 0, gone |-> FALSE, m |-> [p |-> <<>>, parts |-> <<>>]]
Judge(t) == IF t.fault # "" THEN <<"fault", t.fault>> ELSE Run(t.cts, t.ev, 1, FALSE, {}, [h \in 1..3 |-> Nothing])

(* One step for each trace, so that the traces are judged in parallel. *)
Init == tid \in 1..Len(Traces) /\ err = <<"undecided">>
Next ==
    /\ err = <<"undecided">>
    /\ err' = Judge(Traces[tid])
    /\ IF err' = <<>> THEN PrintT("@OK " \o ToString(tid))
       ELSE PrintT("@BAD " \o ToJson([tid |-> tid, err |-> err']))
    /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
=============================================================================
