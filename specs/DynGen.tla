------------------------------- MODULE DynGen -------------------------------
(* Histories of commands given to a running mount and of what is done with   *)
(* its files meanwhile.                                                       *)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Names, Depth, Contents, Files, Handles, Steps
VARIABLES hist, done, used
vars == <<hist, done, used>>

Paths == UNION {[1..n -> Names] : n \in 1..Depth}
(* mounts of one, rarely two sources; invalid ones *)
Ops ==
      [op : {"mount"}, p : Paths, src : [1..1 -> Contents], sub : {FALSE}, bad : {"", "", "missing"}]
 \cup [op : {"mount"}, p : Paths, src : [1..1 -> Contents], sub : {FALSE}, bad : {"relative", "inside", "broken"}]
 \cup [op : {"mount"}, p : Paths, src : [1..2 -> Contents], sub : BOOLEAN, bad : {"", "second missing"}]
Again == {hist[i].p : i \in used}

(* what kind comes next is decided first: there are much more possible mounts than anything else *)
Kinds == {"mount", "mount one", "again", "unmount", "unmount some", "open", "open again", "read", "read on", "other"}
Of(k) ==
    CASE k = "mount one" -> {o \in Ops : Len(o.src) = 1 /\ o.bad = ""}
      [] k = "mount" -> Ops
      [] k = "again" -> {o \in Ops : o.p \in Again /\ o.bad = ""}
      [] k = "unmount" -> [op : {"unmount"}, ps : [1..1 -> Again], foreign : 0..1]
      [] k = "unmount some" -> [op : {"unmount"}, ps : [1..2 -> Again \cup Paths], foreign : 0..1]
      [] k \in {"open", "open again"} -> [op : {"open"}, h : Handles, p : Again, f : Files]
      [] k \in {"read", "read on"} -> [op : {"read"}, h : Handles]
      [] k = "other" -> [op : {"other"}, k : 1..6]

Opened == \E i \in DOMAIN hist : hist[i].op = "open"
(* little happens before something is mounted *)
Useful(k) ==
    CASE k \in {"again", "unmount", "open", "open again"} -> used # {}
      [] k \in {"read", "read on"} -> Opened
      [] k \in {"unmount some", "other"} -> Len(hist) > 2
      [] OTHER -> TRUE

Init == hist = <<>> /\ done = "start" /\ used = {}
Choose == /\ Len(hist) < Steps /\ done \notin Kinds
          /\ \E k \in Kinds : Useful(k) /\ done' = k
          /\ UNCHANGED <<hist, used>>
Do == /\ done \in Kinds
      /\ \E o \in Of(done) :
            /\ hist' = Append(hist, o)
            /\ used' = IF o.op = "mount" THEN used \cup {Len(hist) + 1} ELSE used
      /\ done' = "go"
Emit == /\ Len(hist) = Steps /\ done = "go" /\ done' = "end" /\ UNCHANGED <<hist, used>>
        /\ PrintT("@H " \o ToJson(hist))
Next == Choose \/ Do \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
