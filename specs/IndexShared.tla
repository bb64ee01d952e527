---------------------------- MODULE IndexShared ----------------------------
(***************************************************************************)
(* Several mounts of one archive share the path of its index.  Each loads   *)
(* the index there, or creates one, writing row after row into a file that  *)
(* others can see, remove, or replace at any time, and that remains when    *)
(* the mount is killed.  What a mount finally shows must be all rows.       *)
(*                                                                         *)
(* A file is [rows, marked, lock]: marked tells readers that it is complete. *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences

CONSTANTS Mounts, Rows, Crashes,
          OnLocked,   \* "memory": leave an index alone that is in use; "remove"
          Reload,     \* "same": reopen by path only if that is still the own file; "path"
          Mark,       \* "last": after the rows were written; "first"
          Unmark      \* TRUE: before a complete index is extended

VARIABLES path, files, mount, crashes, grown
vars == <<path, files, mount, crashes, grown>>

None == 0
Memory == 99
Old == 1..(Rows - 2)          \* the archive before two more members were appended
All == IF grown THEN 1..Rows ELSE Old
New == [rows |-> {}, marked |-> Mark = "first", lock |-> None]
Idle == [at |-> "idle", file |-> None, shows |-> {}]

Init ==
    /\ path = None
    /\ files = <<>>
    /\ mount = [m \in Mounts |-> Idle]
    /\ crashes = Crashes
    /\ grown = FALSE

Locked(f, m) == files[f].lock \notin {None, m}

(* mounts compare what the index says about the archive with the archive *)
Fits(f) == files[f].marked

Grow ==
    /\ ~grown /\ grown' = TRUE
    /\ \A m \in Mounts : mount[m].at = "idle"      \* what it was opened with is another question
    /\ UNCHANGED <<path, files, mount, crashes>>

Open(m) ==
    /\ mount[m].at = "idle"
    /\ IF path # None /\ Locked(path, m)
       THEN IF OnLocked = "remove"
            THEN path' = None /\ mount' = [mount EXCEPT ![m].at = "create"]
            ELSE path' = path /\ mount' = [mount EXCEPT ![m].at = "fill", ![m].file = Memory]
       ELSE IF path # None /\ Fits(path)
       THEN /\ path' = path
            /\ mount' = [mount EXCEPT ![m].at = IF files[path].rows = All THEN "close" ELSE "extend", ![m].file = path]
       ELSE path' = None /\ mount' = [mount EXCEPT ![m].at = "create"]
    /\ UNCHANGED <<files, crashes, grown>>

(* creating is not atomic with having found nothing: an empty file, probes, is replaced *)
Create(m) ==
    /\ mount[m].at = "create"
    /\ IF path # None /\ (Locked(path, m) \/ files[path].rows # {})
       THEN path' = path /\ files' = files /\ mount' = [mount EXCEPT ![m].at = "fill", ![m].file = Memory]
       ELSE /\ files' = Append(files, New)
            /\ path' = Len(files) + 1
            /\ mount' = [mount EXCEPT ![m].at = "fill", ![m].file = Len(files) + 1]
    /\ UNCHANGED <<crashes, grown>>

Extend(m) ==
    /\ mount[m].at = "extend"
    /\ IF Locked(mount[m].file, m)
       THEN mount' = [mount EXCEPT ![m].at = "fill", ![m].file = Memory] /\ files' = files
       ELSE /\ files' = [files EXCEPT ![mount[m].file].lock = m, ![mount[m].file].marked = ~Unmark]
            /\ mount' = [mount EXCEPT ![m].at = "fill"]
    /\ UNCHANGED <<path, crashes, grown>>

(* Rows in memory are those of the mount itself. *)
Fill(m) ==
    /\ mount[m].at = "fill"
    /\ LET f == mount[m].file IN
       IF f = Memory
       THEN mount' = [mount EXCEPT ![m].at = "done", ![m].shows = All] /\ files' = files
       ELSE /\ files[f].rows # All /\ files[f].lock \in {None, m}
            /\ files' = [files EXCEPT ![f].lock = m, ![f].rows = @ \cup {CHOOSE r \in All : r \notin @ /\ \A q \in All \ @ : r <= q}]
            /\ mount' = mount
    /\ UNCHANGED <<path, crashes, grown>>

Complete(m) ==
    /\ mount[m].at = "fill" /\ mount[m].file # Memory
    /\ files[mount[m].file].rows = All
    /\ files' = [files EXCEPT ![mount[m].file].marked = TRUE]
    /\ mount' = [mount EXCEPT ![m].at = "close"]
    /\ UNCHANGED <<path, crashes, grown>>

(* releases the file and opens what is at the path now *)
Close(m) ==
    /\ mount[m].at = "close"
    /\ LET f == mount[m].file IN
       /\ files' = [files EXCEPT ![f].lock = IF @ = m THEN None ELSE @]
       /\ mount' = [mount EXCEPT ![m].at = "done",
                                 ![m].shows = IF Reload = "same" \/ path = f THEN files[f].rows
                                              ELSE IF path = None THEN {} ELSE files[path].rows]
    /\ UNCHANGED <<path, crashes, grown>>

Unmount(m) ==
    /\ mount[m].at = "done"
    /\ mount' = [mount EXCEPT ![m] = Idle]
    /\ UNCHANGED <<path, files, crashes, grown>>

Crash(m) ==
    /\ crashes > 0 /\ mount[m].at \in {"create", "extend", "fill", "close"}
    /\ crashes' = crashes - 1
    /\ mount' = [mount EXCEPT ![m] = Idle]
    /\ files' = IF mount[m].file \in {None, Memory} THEN files
                ELSE [files EXCEPT ![mount[m].file].lock = IF @ = m THEN None ELSE @]
    /\ UNCHANGED <<path, grown>>

Next == Grow \/ \E m \in Mounts :
    \/ Open(m) \/ Create(m) \/ Extend(m) \/ Fill(m) \/ Complete(m) \/ Close(m) \/ Unmount(m) \/ Crash(m)

Spec == Init /\ [][Next]_vars

Bound == Len(files) <= 4

(* what is shown when the mount is ready; later changes of the archive are not its concern *)
Transparent == [][\A m \in Mounts :
    mount'[m].at = "done" /\ mount[m].at # "done" => mount'[m].shows = All]_vars

(* an index that would be loaded is complete for some state of the archive *)
Honest == \A f \in 1..Len(files) :
    files[f].marked /\ files[f].lock = None => files[f].rows \in {Old, 1..Rows}
=============================================================================
