------------------------------- MODULE Overlay -------------------------------
(***************************************************************************)
(* Layered design of the write overlay: an immutable lower tree, an upper   *)
(* folder, a set of whiteouts (hidden lower paths) and attribute rows.      *)
(* Overlay!Apply performs one mount operation on the layers the way the     *)
(* design prescribes; OverlayMC checks by exploring all bounded histories   *)
(* that the merged view always equals the plain file system of Posix, and   *)
(* emits the explored histories for replay against the real mount.          *)
(***************************************************************************)
EXTENDS Posix

NONE == -3

(* layers: up (Posix record), W (set of paths), M (path -> attribute row)   *)
Row(mode, mtime, uid, gid) == [mode |-> mode, mtime |-> mtime, uid |-> uid, gid |-> gid]
NoRow == Row(NONE, NONE, NONE, NONE)

InLow(low, p) == p \in DOMAIN low.d

Pick(a, b) == IF a # NONE THEN a ELSE b
WithRow(s, p, nd) ==
    IF p \in DOMAIN s.M
    THEN [nd EXCEPT !.mode = Pick(s.M[p].mode, @), !.mtime = Pick(s.M[p].mtime, @),
                    !.uid = Pick(s.M[p].uid, @), !.gid = Pick(s.M[p].gid, @)]
    ELSE nd

RECURSIVE VisibleDir(_, _, _)
Present(low, s, p) == p \notin s.W /\ (Has(s.up, p) \/ InLow(low, p))
Merged(low, s, p) == WithRow(s, p, IF Has(s.up, p) THEN Node(s.up, p) ELSE Node(low, p))
VisibleDir(low, s, p) ==
    IF p = <<>> THEN TRUE
    ELSE /\ VisibleDir(low, s, Parent(p))
         /\ Present(low, s, p)
         /\ Merged(low, s, p).t = "d"
Visible(low, s, p) == p = <<>> \/ (VisibleDir(low, s, Parent(p)) /\ Present(low, s, p))

AllPaths(low, s) == (DOMAIN s.up.d) \cup (DOMAIN low.d)
View(low, s) == [p \in {q \in AllPaths(low, s) : Visible(low, s, q)} |-> Merged(low, s, p)]

DropRow(s, p) == [s EXCEPT !.M = [q \in (DOMAIN s.M) \ {p} |-> s.M[q]]]
SetRow(s, p, r) == [s EXCEPT !.M = (p :> r) @@ s.M, !.W = @ \ {p}]
AttrRow(nd) == Row(nd.mode, nd.mtime, nd.uid, nd.gid)
HasRow(s, p) == p \in DOMAIN s.M

(* Hide p if the lower tree has it, forget its attributes in any case. *)
Hide(low, s, p) ==
    LET t == DropRow(s, p)
    IN IF InLow(low, p) THEN [t EXCEPT !.W = @ \cup {p}] ELSE [t EXCEPT !.W = @ \ {p}]

RECURSIVE UpParents(_, _, _)
UpParents(low, s, p) ==
    IF Len(p) <= 1 THEN s
    ELSE LET q == Parent(p)
             s1 == UpParents(low, s, q)
         IN IF Has(s1.up, q) THEN s1
            ELSE LET nd == Merged(low, s1, q)
                     s2 == IF HasRow(s1, q) THEN s1 ELSE SetRow(s1, q, AttrRow(nd))
                 IN [s2 EXCEPT !.up = AddNode(s2.up, q, [nd EXCEPT !.sh = FALSE])]

CopyUp(low, s, p) ==
    IF Has(s.up, p) THEN s
    ELSE LET nd == Merged(low, s, p)
             s1 == UpParents(low, s, p)
         IN [SetRow(s1, p, [AttrRow(nd) EXCEPT !.mtime = NONE])
               EXCEPT !.up = AddNode(s1.up, p, [nd EXCEPT !.mtime = NOW])]

FreshMtime(s, p) == IF HasRow(s, p) THEN [s EXCEPT !.M[p].mtime = NONE] ELSE s

ChildrenV(low, s, p) == {q \in DOMAIN View(low, s) : Len(q) = Len(p) + 1 /\ IsPrefixOf(p, q)}

NewNode(low, s, p, nd, row) ==
    LET s1 == UpParents(low, s, p)
        s2 == IF row THEN SetRow(s1, p, [AttrRow(nd) EXCEPT !.mtime = NONE])
              ELSE [DropRow(s1, p) EXCEPT !.W = @ \ {p}]
    IN [s2 EXCEPT !.up = AddNode(s2.up, p, nd)]

SetUpNode(s, p, nd) == [s EXCEPT !.up.n[s.up.d[p]] = nd]

MoveUp(up, a, b) ==     \* rename inside the upper folder, replacing b
    LET moved == Below(up, a)
        Dst(q) == b \o SubSeq(q, Len(a) + 1, Len(q))
        keep == (DOMAIN up.d) \ (moved \cup {b})
    IN [up EXCEPT !.d = [q \in {Dst(m) : m \in moved} |-> up.d[a \o SubSeq(q, Len(b) + 1, Len(q))]]
                          @@ [q \in keep |-> up.d[q]]]

RenameNonDir(low, s, a, b) ==
    LET nd == Merged(low, s, a)
        row == IF HasRow(s, a) THEN s.M[a] ELSE AttrRow(nd)
        s1 == UpParents(low, s, b)
        s2 == IF Has(s1.up, a)
              THEN [s1 EXCEPT !.up = MoveUp(s1.up, a, b)]
              ELSE [s1 EXCEPT !.up = AddNode(RemoveEntry(s1.up, b), b, nd)]
        s3 == SetRow(s2, b, row)
    IN Hide(low, s3, a)

RenameDir(low, s, a, b) ==      \* a exists only in the upper folder
    LET s1 == UpParents(low, s, b)
        rows == {q \in DOMAIN s1.M : IsPrefixOf(a, q)}
        Dst(q) == b \o SubSeq(q, Len(a) + 1, Len(q))
        moved == {Dst(q) : q \in rows}
        s2 == [s1 EXCEPT
                 !.up = MoveUp(s1.up, a, b),
                 !.M = [q \in moved |-> s1.M[a \o SubSeq(q, Len(b) + 1, Len(q))]]
                         @@ [q \in (DOMAIN s1.M) \ (rows \cup {b}) |-> s1.M[q]],
                 \* every path that now exists in the upper folder is not hidden
                 !.W = @ \ {Dst(q) : q \in Below(s1.up, a)}]
    IN s2

(* One operation on the layers, assuming Posix says it succeeds.            *)
(* result: <<layers, refused>>                                              *)
Apply(low, s, op) ==
    LET p == op.p
        nd == Merged(low, s, p)
    IN CASE op.op \in {"create", "mknod"} -> NewNode(low, s, p, MkNode("f", op.mode, <<>>, "", NOW, 0, 0), TRUE)
         [] op.op = "mkdir"   -> NewNode(low, s, p, MkNode("d", op.mode, <<>>, "", ANY, 0, 0), TRUE)
         [] op.op = "symlink" -> NewNode(low, s, p, MkNode("l", 511, <<>>, op.tgt, NOW, 0, 0), FALSE)
         [] op.op \in {"unlink", "rmdir"} ->
              Hide(low, IF Has(s.up, p) THEN [s EXCEPT !.up = RemoveEntry(s.up, p)] ELSE s, p)
         [] op.op = "rename" -> IF p = op.q THEN s
                                ELSE IF nd.t = "d" THEN RenameDir(low, s, p, op.q)
                                ELSE RenameNonDir(low, s, p, op.q)
         [] op.op = "link" ->
              LET s1 == UpParents(low, s, op.q)
                  s2 == [DropRow(s1, op.q) EXCEPT !.W = @ \ {op.q}]
              IN [s2 EXCEPT !.up.d = (op.q :> s2.up.d[p]) @@ s2.up.d, !.up.n[s2.up.d[p]].sh = TRUE]
         [] op.op = "truncate" ->
              LET s1 == CopyUp(low, s, p)
                  un == Node(s1.up, p)
                  time == IF Len(un.data) # op.len \/ Merged(low, s, p).mtime = NOW THEN NOW ELSE ANY
              IN FreshMtime(SetUpNode(s1, p, [un EXCEPT !.data = TruncData(un.data, op.len), !.mtime = time]), p)
         [] op.op = "append" ->
              LET s1 == CopyUp(low, s, p)
                  un == Node(s1.up, p)
              IN FreshMtime(SetUpNode(s1, p, [un EXCEPT !.data = @ \o op.data, !.mtime = NOW]), p)
         [] op.op \in {"chmod", "utimens"} ->
              LET s1 == IF HasRow(s, p) THEN s ELSE SetRow(s, p, AttrRow(nd))
                  s2 == IF op.op = "chmod" THEN [s1 EXCEPT !.M[p].mode = op.mode]
                        ELSE [s1 EXCEPT !.M[p].mtime = op.t]
              IN IF Has(s2.up, p)
                 THEN SetUpNode(s2, p, IF op.op = "chmod" THEN [Node(s2.up, p) EXCEPT !.mode = op.mode]
                                       ELSE [Node(s2.up, p) EXCEPT !.mtime = op.t])
                 ELSE s2

Refused(low, s, op) ==
    \/ op.op = "rename" /\ Merged(low, s, op.p).t = "d" /\ InLow(low, op.p)
    \/ op.op = "link" /\ ~Has(s.up, op.p)

(* The same operation on the reference file system. *)
Reference(fs, op) ==
    CASE op.op \in {"create", "mknod"} -> Create(fs, op.p, op.mode, 0, 0)
      [] op.op = "mkdir"    -> Mkdir(fs, op.p, op.mode, 0, 0)
      [] op.op = "symlink"  -> Symlink(fs, op.p, op.tgt, 0, 0)
      [] op.op = "unlink"   -> Unlink(fs, op.p)
      [] op.op = "rmdir"    -> Rmdir(fs, op.p)
      [] op.op = "rename"   -> Rename(fs, op.p, op.q)
      [] op.op = "link"     -> Link(fs, op.p, op.q)
      [] op.op = "truncate" -> Truncate(fs, op.p, op.len)
      [] op.op = "append"   ->
            OnPath(fs, op.p, {"f"}, LAMBDA nd : [nd EXCEPT !.data = @ \o op.data, !.mtime = NOW])
      [] op.op = "chmod"    -> Chmod(fs, op.p, op.mode)
      [] op.op = "utimens"  -> Utimens(fs, op.p, op.t)

SameNode(a, b) ==
    /\ a.t = b.t /\ a.data = b.data /\ a.tgt = b.tgt
    /\ (a.sh \/ b.sh \/ (a.mode = b.mode /\ a.uid = b.uid /\ a.gid = b.gid
                         /\ (a.t = "d" \/ a.mtime = b.mtime)))

Equal(low, s, fs) ==
    LET v == View(low, s)
    IN /\ DOMAIN v = DOMAIN fs.d
       /\ \A p \in DOMAIN v : p = <<>> \/ SameNode(v[p], Node(fs, p))
=============================================================================
