------------------------------ MODULE OverlayMC ------------------------------
(* Exhaustive bounded exploration of Overlay against Posix, and generation   *)
(* of the histories the real mount is driven through.                        *)
EXTENDS Overlay, Json

CONSTANTS Top, Sub, MaxDepth, Emit

VARIABLES fs, s, hist
vars == <<fs, s, hist>>

F(data, mode) == MkNode("f", mode, data, "", 1000, 7, 8)
D(mode)       == MkNode("d", mode, <<>>, "", 1000, 7, 8)
L(t)          == MkNode("l", 511, <<>>, t, 1000, 7, 8)
Low == [d |-> (<<>> :> 0) @@ (<<"d">> :> 1) @@ (<<"d", "a">> :> 2) @@ (<<"f">> :> 3),
        n |-> (0 :> D(ANY)) @@ (1 :> D(448)) @@ (2 :> F(<<1>>, 384)) @@ (3 :> F(<<2, 3>>, 493)),
        nx |-> 4]

Paths == {<<x>> : x \in Top} \cup {<<x, y>> : x \in Top, y \in Sub}

Ops ==
      [op : {"create"}, p : Paths, mode : {416}]
 \cup [op : {"mkdir"}, p : Paths, mode : {488}]
 \cup [op : {"symlink"}, p : Paths, tgt : {"x"}]
 \cup [op : {"unlink", "rmdir"}, p : Paths]
 \cup [op : {"rename", "link"}, p : Paths, q : Paths]
 \cup [op : {"truncate"}, p : Paths, len : {1}]
 \cup [op : {"append"}, p : Paths, data : {<<9>>}]
 \cup [op : {"chmod"}, p : Paths, mode : {256}]
 \cup [op : {"utimens"}, p : Paths, t : {2000}]

SameInode(op) == op.op = "rename" /\ Has(fs, op.p) /\ Has(fs, op.q) /\ op.p # op.q /\ fs.d[op.p] = fs.d[op.q]

Norm(x) == Gc(x, {})

Init ==
    /\ fs = Low
    /\ s = [up |-> [d |-> (<<>> :> 0), n |-> (0 :> D(ANY)), nx |-> 1], W |-> {}, M |-> <<>>]
    /\ hist = <<>>

Next ==
    /\ Len(hist) < MaxDepth
    /\ \E op \in Ops :
        LET r == Reference(fs, op)
        IN /\ ~SameInode(op)
           /\ hist' = Append(hist, op)
           /\ IF r.res = "ok" /\ ~Refused(Low, s, op)
              THEN /\ fs' = Norm(r.fs)
                   /\ s' = LET t == Apply(Low, s, op) IN [t EXCEPT !.up = Norm(t.up)]
              ELSE UNCHANGED <<fs, s>>
           /\ (Emit => PrintT("@H " \o ToJson(hist')))

Spec == Init /\ [][Next]_vars

(* inode numbers are an artefact: identify states up to renaming them *)
Abs(f) == [p \in DOMAIN f.d |-> Node(f, p)]
Alias(f) == {<<p, q>> \in (DOMAIN f.d) \X (DOMAIN f.d) : f.d[p] = f.d[q]}
StateView == <<Abs(fs), Alias(fs), Abs(s.up), Alias(s.up), s.W, s.M, Len(hist)>>

Refinement == Equal(Low, s, fs)
(* Layer discipline *)
UpperIsVisible == \A p \in DOMAIN s.up.d : p \notin s.W /\ (p = <<>> \/ Has(s.up, Parent(p)))
WhiteoutsAreLower == s.W \subseteq DOMAIN Low.d
RowsVisible == DOMAIN s.M \subseteq DOMAIN View(Low, s)
=============================================================================
