------------------------------- MODULE Posix -------------------------------
(***************************************************************************)
(* Abstract specification of an ordinary writable file system: the          *)
(* reference every mount with a write overlay is compared against.          *)
(*                                                                          *)
(* A path is a sequence of names, <<>> is the root.  A file system is a     *)
(* record                                                                   *)
(*   d  : path  -> inode number     (directory entries, hard links share)   *)
(*   n  : inode -> node                                                     *)
(*   nx : next unused inode number                                          *)
(* A node is [t, mode, data, tgt, mtime, uid, gid, sh] with t in            *)
(* {"d","f","l"}.  mtime NOW means "stamped during the history", ANY means  *)
(* unconstrained; sh marks inodes that were hard linked (attributes of      *)
(* aliases are unconstrained).                                              *)
(* Every operation is a function  fs -> [res, fs]  (res = "ok" or errno).   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NOW == -1
ANY == -2

Parent(p)   == SubSeq(p, 1, Len(p) - 1)
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
StrictPrefix(a, b) == Len(a) < Len(b) /\ SubSeq(b, 1, Len(a)) = a

Has(fs, p)  == p \in DOMAIN fs.d
Node(fs, p) == fs.n[fs.d[p]]
IsDir(fs, p) == Has(fs, p) /\ Node(fs, p).t = "d"
Children(fs, p) == {q \in DOMAIN fs.d : Len(q) = Len(p) + 1 /\ IsPrefixOf(p, q)}
Below(fs, p) == {q \in DOMAIN fs.d : IsPrefixOf(p, q)}

MkNode(t, mode, data, tgt, mtime, uid, gid) ==
    [t |-> t, mode |-> mode, data |-> data, tgt |-> tgt, mtime |-> mtime,
     uid |-> uid, gid |-> gid, sh |-> FALSE]

Ok(fs)       == [res |-> "ok", fs |-> fs]
Err(fs, e)   == [res |-> e, fs |-> fs]

(* What path resolution reports before the operation itself is looked at.  *)
(* ESYM stands for "a symbolic link would have to be followed": callers     *)
(* never do that here, the link's target is addressed directly instead.     *)
WalkErr(fs, p) ==
    LET bad == {i \in 0..(Len(p) - 1) : ~IsDir(fs, SubSeq(p, 1, i))}
    IN  IF bad = {} THEN ""
        ELSE LET i == CHOOSE i \in bad : \A j \in bad : i <= j
                 q == SubSeq(p, 1, i)
             IN IF ~Has(fs, q) THEN "ENOENT"
                ELSE IF Node(fs, q).t = "l" THEN "ESYM" ELSE "ENOTDIR"

(* Drop inodes which are neither linked nor held open. *)
Gc(fs, keep) ==
    LET used == {fs.d[p] : p \in DOMAIN fs.d} \cup keep
    IN [fs EXCEPT !.n = [i \in (DOMAIN fs.n) \cap used |-> fs.n[i]]]

AddNode(fs, p, node) ==
    [d |-> (p :> fs.nx) @@ fs.d, n |-> (fs.nx :> node) @@ fs.n, nx |-> fs.nx + 1]

RemoveEntry(fs, p) ==
    [fs EXCEPT !.d = [q \in (DOMAIN fs.d) \ {p} |-> fs.d[q]]]

(* Changing the entries of a directory changes its modification time. *)
Dirty(fs, p) ==
    IF p # <<>> /\ IsDir(fs, Parent(p)) THEN [fs EXCEPT !.n[fs.d[Parent(p)]].mtime = ANY] ELSE fs

New(fs, p, node) ==
    LET w == WalkErr(fs, p)
    IN IF p = <<>> THEN Err(fs, "EEXIST")
       ELSE IF w # "" THEN Err(fs, w)
       ELSE IF Has(fs, p) THEN Err(fs, "EEXIST")
       ELSE Ok(Dirty(AddNode(fs, p, node), p))

Create(fs, p, mode, uid, gid)  == New(fs, p, MkNode("f", mode, <<>>, "", NOW, uid, gid))
Mkdir(fs, p, mode, uid, gid)   == New(fs, p, MkNode("d", mode, <<>>, "", ANY, uid, gid))
Symlink(fs, p, tgt, uid, gid)  == New(fs, p, MkNode("l", 511, <<>>, tgt, NOW, uid, gid))

Unlink(fs, p) ==
    LET w == WalkErr(fs, p)
    IN IF w # "" THEN Err(fs, w)
       ELSE IF ~Has(fs, p) THEN Err(fs, "ENOENT")
       ELSE IF IsDir(fs, p) THEN Err(fs, "EISDIR")
       ELSE Ok(Dirty(RemoveEntry(fs, p), p))

Rmdir(fs, p) ==
    LET w == WalkErr(fs, p)
    IN IF w # "" THEN Err(fs, w)
       ELSE IF ~Has(fs, p) THEN Err(fs, "ENOENT")
       ELSE IF ~IsDir(fs, p) THEN Err(fs, "ENOTDIR")
       ELSE IF p = <<>> THEN Err(fs, "EBUSY")
       ELSE IF Children(fs, p) # {} THEN Err(fs, "ENOTEMPTY")
       ELSE Ok(Dirty(RemoveEntry(fs, p), p))

Rename(fs, a, b) ==
    LET wa == WalkErr(fs, a)
        wb == WalkErr(fs, b)
        moved == Below(fs, a)
        Dst(q) == b \o SubSeq(q, Len(a) + 1, Len(q))
        keep == (DOMAIN fs.d) \ (moved \cup {b})
        new  == [q \in {Dst(m) : m \in moved} |->
                    fs.d[a \o SubSeq(q, Len(b) + 1, Len(q))]]
    IN IF wa # "" THEN Err(fs, wa)
       ELSE IF wb # "" THEN Err(fs, wb)
       ELSE IF ~Has(fs, a) THEN Err(fs, "ENOENT")
       ELSE IF a = <<>> \/ b = <<>> THEN Err(fs, "EBUSY")
       ELSE IF StrictPrefix(a, b) THEN Err(fs, "EINVAL")
       ELSE IF StrictPrefix(b, a) THEN Err(fs, "ENOTEMPTY")
       ELSE IF a = b THEN Ok(fs)
       ELSE IF Has(fs, b) /\ fs.d[a] = fs.d[b] THEN Ok(fs)
       ELSE IF Has(fs, b) /\ IsDir(fs, a) /\ ~IsDir(fs, b) THEN Err(fs, "ENOTDIR")
       ELSE IF Has(fs, b) /\ ~IsDir(fs, a) /\ IsDir(fs, b) THEN Err(fs, "EISDIR")
       ELSE IF IsDir(fs, b) /\ Children(fs, b) # {} THEN Err(fs, "ENOTEMPTY")
       ELSE Ok(Dirty(Dirty([fs EXCEPT !.d = new @@ [q \in keep |-> fs.d[q]]], b), a))

Link(fs, a, b) ==
    LET wa == WalkErr(fs, a)
        wb == WalkErr(fs, b)
    IN IF wa # "" THEN Err(fs, wa)
       ELSE IF ~Has(fs, a) THEN Err(fs, "ENOENT")
       ELSE IF wb # "" THEN Err(fs, wb)
       ELSE IF Has(fs, b) THEN Err(fs, "EEXIST")
       ELSE IF IsDir(fs, a) THEN Err(fs, "EPERM")
       ELSE Ok(Dirty([fs EXCEPT !.d = (b :> fs.d[a]) @@ fs.d, !.n[fs.d[a]].sh = TRUE], b))

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

WriteData(data, off, bytes) ==
    IF Len(bytes) = 0 THEN data
    ELSE [i \in 1..Max(Len(data), off + Len(bytes)) |->
            IF i > off /\ i <= off + Len(bytes) THEN bytes[i - off]
            ELSE IF i <= Len(data) THEN data[i] ELSE 0]
TruncData(data, len) == [i \in 1..len |-> IF i <= Len(data) THEN data[i] ELSE 0]
Slice(data, off, len) == SubSeq(data, off + 1, Min(Len(data), off + len))

SetInode(fs, i, node) == [fs EXCEPT !.n[i] = node]

(* Attribute and data operations on an existing path; kinds: allowed types *)
OnPath(fs, p, kinds, F(_)) ==
    LET w == WalkErr(fs, p)
    IN IF w # "" THEN Err(fs, w)
       ELSE IF ~Has(fs, p) THEN Err(fs, "ENOENT")
       ELSE IF Node(fs, p).t \notin kinds
            THEN Err(fs, IF Node(fs, p).t = "l" THEN "ESYM" ELSE
                         IF Node(fs, p).t = "d" THEN "EISDIR" ELSE "EINVAL")
       ELSE Ok(SetInode(fs, fs.d[p], F(Node(fs, p))))

Truncate(fs, p, len) ==
    OnPath(fs, p, {"f"}, LAMBDA nd :
        [nd EXCEPT !.data = TruncData(nd.data, len),
                   \* truncate to the same length may leave the time alone
                   !.mtime = IF Len(nd.data) # len \/ @ = NOW THEN NOW ELSE ANY])
Chmod(fs, p, mode)   == OnPath(fs, p, {"f", "d"}, LAMBDA nd : [nd EXCEPT !.mode = mode])
Chown(fs, p, u, g)   ==
    OnPath(fs, p, {"f", "d", "l"}, LAMBDA nd :
        [nd EXCEPT !.uid = IF u = -1 THEN nd.uid ELSE u, !.gid = IF g = -1 THEN nd.gid ELSE g])
Utimens(fs, p, t)    == OnPath(fs, p, {"f", "d", "l"}, LAMBDA nd : [nd EXCEPT !.mtime = t])

(* Open-for-something on a path: only decides success; O_TRUNC is Truncate. *)
OpenRes(fs, p) == OnPath(fs, p, {"f"}, LAMBDA nd : nd)

=============================================================================
