----------------------------- MODULE Subvolumes -----------------------------
(***************************************************************************)
(* Mounting and unmounting while the file system runs.  `mounts` is what a   *)
(* user knows: mount points and what is mounted there.  `tree` is what the   *)
(* mount source keeps: nested folders whose leaves are mounts.  A mount is    *)
(* first tested for being possible, then the inputs are opened (which may     *)
(* fail), then it is added; other commands may run in between with threads,   *)
(* which FUSE is not used with here.                                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Names, Depth, Contents,
          Test,     \* "pure": testing for being mountable changes nothing; "creates": it creates the parent folders
          Prune     \* TRUE: unmounting removes parent folders that are empty afterwards

VARIABLES mounts, tree, last
vars == <<mounts, tree, last>>

Paths == UNION {[1..n -> Names] : n \in 1..Depth}
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Proper(q) == {SubSeq(q, 1, n) : n \in 1..(Len(q) - 1)}
Folder == "folder"
With(f, p, v) == [q \in DOMAIN f \cup {p} |-> IF q = p THEN v ELSE f[q]]
WithFolders(f, p) == [q \in DOMAIN f \cup Proper(p) |-> IF q \in DOMAIN f THEN f[q] ELSE Folder]
Without(f, s) == [q \in DOMAIN f \ s |-> f[q]]

(* what users are promised *)
Free(p) == \A q \in DOMAIN mounts : ~Prefix(p, q) /\ ~Prefix(q, p)

(* what the mount source does *)
Behind(p) == \E q \in Proper(p) : q \in DOMAIN tree /\ tree[q] # Folder
Possible(p) == ~Behind(p) /\ p \notin DOMAIN tree
Tested(p) == IF Test = "creates" /\ ~Behind(p) THEN WithFolders(tree, p) ELSE tree

Mount(p, c, opens) ==
    /\ last' = [possible |-> Possible(p), free |-> Free(p)]
    /\ IF Possible(p) /\ opens
       THEN tree' = With(WithFolders(tree, p), p, c) /\ mounts' = With(mounts, p, c)
       ELSE tree' = Tested(p) /\ mounts' = mounts

Children(f, p) == {q \in DOMAIN f : Proper(q) # {} /\ Prefix(p, q) /\ p # q}
Unmount(p) ==
    /\ last' = [possible |-> p \in DOMAIN tree /\ tree[p] # Folder, free |-> p \in DOMAIN mounts]
    /\ IF p \in DOMAIN tree /\ tree[p] # Folder
       THEN LET rest == Without(tree, {p})
                empty == IF Prune THEN {q \in Proper(p) : Children(rest, q) \ Proper(p) = {}} ELSE {}
            IN tree' = Without(rest, empty) /\ mounts' = Without(mounts, {p})
       ELSE UNCHANGED <<tree, mounts>>

Init == mounts = << >> /\ tree = << >> /\ last = [possible |-> TRUE, free |-> TRUE]
Next == \E p \in Paths : Unmount(p) \/ \E c \in Contents, o \in BOOLEAN : Mount(p, c, o)
Spec == Init /\ [][Next]_vars

(* the nested folders are exactly what the mount points imply *)
Refines == /\ DOMAIN tree = DOMAIN mounts \cup UNION {Proper(p) : p \in DOMAIN mounts}
           /\ \A p \in DOMAIN tree : tree[p] = IF p \in DOMAIN mounts THEN mounts[p] ELSE Folder
(* whatever is free can be mounted, nothing else *)
Accepts == last.possible = last.free
Disjoint == \A p, q \in DOMAIN mounts : p # q => ~Prefix(p, q)
=============================================================================
