----------------------------- MODULE IndexLife ------------------------------
(***************************************************************************)
(* The life of an index file: archives change, mounts create, load, extend  *)
(* and reject it, and any mount may end at any point.                       *)
(*                                                                          *)
(* The archive has a content, a size and a modification time.  The index    *)
(* has the rows of some content, the file stats it was made for, and the    *)
(* traces of its creation: temporary tables while rows are collected, a     *)
(* reorganization which leaves nothing usable while it runs, and the        *)
(* version entry.                                                           *)
(*  Accept = "tables" : any index without temporary tables is used          *)
(*  Accept = "marker" : the version entry, stored last, is needed as well   *)
(*  Extend = "late"   : the entries are replaced after the new rows         *)
(*  Extend = "first"  : they are removed before anything else is touched    *)
(*  Restat            : loading an index stores the present file stats in it*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Accept, Extend, Restat, MaxChanges, MaxMounts, Emit

NONE == [kind |-> "none"]
BAD  == [kind |-> "garbage"]
FULL == "full"      \* all rows of the content
PART == "part"      \* some of them
LOST == "lost"      \* pages are being rewritten
Idx(c, rows, tmp, stats, marker, size, mtime) ==
    [kind |-> "db", c |-> c, rows |-> rows, tmp |-> tmp, stats |-> stats, marker |-> marker, size |-> size, mtime |-> mtime,
     made |-> <<0, 0>>]  \* size and time of the archive the rows are really of

VARIABLES arc,      \* [c, size, mtime]
          old,      \* contents that were the beginning of the present one: {[c, size]}
          idx,      \* what is on disk
          pc,       \* what the present mount is doing
          opt,      \* its options
          shown,    \* what it shows
          changes, mounts, hist
vars == <<arc, old, idx, pc, opt, shown, changes, mounts, hist>>

Init ==
    /\ arc = [c |-> 1, size |-> 2, mtime |-> 1] /\ old = {}
    /\ idx = NONE /\ pc = "off" /\ opt = [verify |-> FALSE, clear |-> FALSE] /\ shown = 0
    /\ changes = 0 /\ mounts = 0 /\ hist = <<>>

Note(x) == hist' = IF Emit THEN Append(hist, x) ELSE hist

(*------------------------- what happens between mounts -------------------*)
Idle == pc \in {"off", "up"}
Change(name, newOld, size, mtime) ==
    /\ Idle /\ changes < MaxChanges
    /\ changes' = changes + 1
    /\ arc' = [c |-> changes + 2, size |-> size, mtime |-> mtime]
    /\ old' = newOld
    /\ pc' = "off" /\ shown' = 0 /\ Note(name)
    /\ UNCHANGED <<idx, opt, mounts>>
Appended == Change("append", old \cup {[c |-> arc.c, size |-> arc.size]}, arc.size + 1, arc.mtime + 1)
AppendedInPlace == Change("append in place", old \cup {[c |-> arc.c, size |-> arc.size]}, arc.size, arc.mtime + 1)
Replaced == \E s \in {arc.size - 1, arc.size, arc.size + 1} :
    /\ s > 0
    /\ Change(IF s < arc.size THEN "smaller" ELSE IF s = arc.size THEN "same size" ELSE "bigger", {}, s, arc.mtime + 1)
Touched ==
    /\ Idle /\ changes < MaxChanges /\ changes' = changes + 1
    /\ arc' = [arc EXCEPT !.mtime = @ + 1] /\ pc' = "off" /\ shown' = 0 /\ Note("touch")
    /\ UNCHANGED <<old, idx, opt, mounts>>
Damaged ==
    /\ Idle /\ changes < MaxChanges /\ changes' = changes + 1 /\ idx # NONE
    /\ \/ idx' = NONE /\ Note("remove index")
       \/ idx' = BAD /\ Note("damage index")
    /\ pc' = "off" /\ shown' = 0
    /\ UNCHANGED <<arc, old, opt, mounts>>

(*------------------------------- one mount -------------------------------*)
Start == \E v, cl \in BOOLEAN :
    /\ Idle /\ mounts < MaxMounts /\ mounts' = mounts + 1
    /\ opt' = [verify |-> v, clear |-> cl]
    /\ idx' = IF cl THEN NONE ELSE idx
    /\ pc' = "load" /\ shown' = 0
    /\ Note(IF cl THEN "mount anew" ELSE IF v THEN "mount verifying" ELSE "mount")
    /\ UNCHANGED <<arc, old, changes>>

Accepted ==
    /\ idx.kind = "db" /\ ~idx.tmp
    /\ Accept = "marker" => idx.marker
Fits ==
    ~idx.stats \/ (idx.size = arc.size /\ (opt.verify => idx.mtime = arc.mtime)
                   /\ ~\E o \in old : o.c = idx.c)
Load ==
    /\ pc = "load"
    /\ IF Accepted /\ Fits
       THEN /\ shown' = (IF idx.rows = FULL THEN idx.c ELSE 0 - 1)
            /\ pc' = "up"
            /\ idx' = (IF Restat THEN [idx EXCEPT !.size = arc.size, !.mtime = arc.mtime] ELSE idx)
       ELSE IF Accepted /\ idx.stats /\ \E o \in old : o.c = idx.c
       THEN /\ pc' = (IF Extend = "first" THEN "unmark" ELSE "extend") /\ UNCHANGED <<shown, idx>>
       ELSE /\ idx' = NONE /\ pc' = "create" /\ UNCHANGED shown
    /\ UNCHANGED <<arc, old, opt, changes, mounts, hist>>

(* from scratch *)
Step(from, to, new) ==
    /\ pc = from /\ pc' = to /\ idx' = new
    /\ UNCHANGED <<arc, old, opt, shown, changes, mounts, hist>>
Build ==
    \/ Step("create", "rows", Idx(arc.c, PART, TRUE, FALSE, FALSE, 0, 0))
    \/ pc = "rows" /\ Step("rows", "tidy", [idx EXCEPT !.rows = FULL])
    \/ pc = "tidy" /\ Step("tidy", "vacuum", [idx EXCEPT !.tmp = FALSE])
    \/ pc = "vacuum" /\ Step("vacuum", "vacuumed", [idx EXCEPT !.rows = LOST])
    \/ pc = "vacuumed" /\ Step("vacuumed", "stats", [idx EXCEPT !.rows = FULL])
    \/ pc = "stats" /\ Step("stats", "mark", [idx EXCEPT !.stats = TRUE, !.size = arc.size, !.mtime = arc.mtime,
                                                          !.made = <<arc.size, arc.mtime>>])
    \/ pc = "mark" /\ Step("mark", "done", [idx EXCEPT !.marker = TRUE])
(* appending to an existing one *)
Extending ==
    \/ pc = "unmark" /\ Step("unmark", "extend", [idx EXCEPT !.marker = FALSE, !.stats = FALSE])
    \/ pc = "extend" /\ Step("extend", "rows", [idx EXCEPT !.tmp = TRUE, !.rows = PART, !.c = arc.c])
Done ==
    /\ pc = "done" /\ pc' = "up" /\ shown' = arc.c
    /\ UNCHANGED <<arc, old, idx, opt, changes, mounts, hist>>
Crash ==
    /\ pc \notin {"off", "up"} /\ pc' = "off" /\ shown' = 0
    /\ hist' = IF Emit THEN SubSeq(hist, 1, Len(hist) - 1) \o <<"crash">> ELSE hist
    /\ UNCHANGED <<arc, old, idx, opt, changes, mounts>>

Next == Appended \/ AppendedInPlace \/ Replaced \/ Touched \/ Damaged \/ Start \/ Load \/ Build \/ Extending \/ Done \/ Crash
Spec == Init /\ [][Next]_vars

(*------------------------------ what has to hold -------------------------*)
(* What an index accepted without looking at its content may describe: see IndexTrace *)
Excused(c) == idx.kind = "db" /\ idx.c = c /\ idx.made[1] = arc.size /\ (opt.verify => idx.made[2] = arc.mtime) /\ idx.stats
              /\ ~opt.clear /\ ~\E o \in old : o.c = c
Transparent == pc = "up" => shown = arc.c \/ Excused(shown)
NeverPart == pc = "up" => shown > 0
(* histories which end with a complete mount *)
Histories == Emit /\ pc = "up" /\ (changes > 0 \/ mounts > 1) => PrintT("@H " \o ToJson(hist))
=============================================================================
