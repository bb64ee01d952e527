------------------------------ MODULE ViewDiff ------------------------------
(* The first difference between what was observed on a mount and what a world (see Members) shows, or <<>>.          *)
(*  t.tree : observed nodes, t.vers : observed version folders                                                       *)
EXTENDS Members

NumOk(spec, obs) == spec = ANY \/ obs = ANY \/ spec = obs

NodeDiff(nd, o) ==
    IF nd.t = "*" THEN <<>>
    ELSE IF nd.t # o.t THEN <<"type", nd.t, o.t>>
    ELSE IF nd.t = "f" /\ nd.data # o.data THEN <<"content", nd.data, o.data>>
    ELSE IF nd.t = "f" /\ o.size # Len(nd.data) THEN <<"size", Len(nd.data), o.size>>
    ELSE IF nd.t = "l" /\ nd.tgt # o.tgt THEN <<"target", nd.tgt, o.tgt>>
    ELSE IF nd.t # "l" /\ ~NumOk(nd.mode, o.mode) THEN <<"mode", nd.mode, o.mode>>
    ELSE IF ~NumOk(nd.mtime, o.mtime) THEN <<"mtime", nd.mtime, o.mtime>>
    ELSE IF ~NumOk(nd.uid, o.uid) \/ ~NumOk(nd.gid, o.gid) THEN <<"owner", <<nd.uid, nd.gid>>, <<o.uid, o.gid>>>>
    ELSE <<>>

First(S) == CHOOSE x \in S : TRUE

TreeDiff(w, t) ==
    LET obs == {t.tree[k].p : k \in DOMAIN t.tree}
        exp == Visible(w)
        missing == {p \in exp \ obs : ~Unclear(w, p)}
        extra   == {p \in obs \ exp : ~Unclear(w, p)}
        D(k) == LET o == t.tree[k]
                    nd == Shown(w, o.p)
                IN IF Unclear(w, o.p) \/ o.p \notin exp THEN <<>>
                   ELSE LET d == NodeDiff(nd, o) IN
                        IF d # <<>> THEN <<"node", o.p>> \o d
                        \* what the listing of its folder says about it (hard links are listed as such)
                        ELSE IF o.lst # <<>> /\ Top(w, o.p).t # "h"
                             THEN LET e == NodeDiff(Top(w, o.p), [o.lst[1] EXCEPT !.data = Top(w, o.p).data])
                                  IN IF e # <<>> THEN <<"listed", o.p>> \o e ELSE <<>>
                        ELSE <<>>
        bad == {k \in DOMAIN t.tree : D(k) # <<>>}
    IN IF missing # {} THEN <<"missing", First(missing)>>
       ELSE IF extra # {} THEN <<"unexpected", First(extra)>>
       ELSE IF Len(t.tree) # Cardinality(obs) THEN <<"listed twice">>
       ELSE IF bad # {} THEN D(First(bad))
       ELSE <<>>

VersionName(p) == Append(Parent(p), Base(p) \o ".versions")
VersDiff(w, t) ==
    LET D(k) == LET o == t.vers[k]
                    p == o.p
                    n == Len(w.v[p])
                    found == {o.items[j].k : j \in DOMAIN o.items}
                    X(j) == NodeDiff(ShownVersion(w, p, o.items[j].k), o.items[j])
                    wrong == {j \in DOMAIN o.items : X(j) # <<>>}
                IN IF p \notin Visible(w) \/ Unclear(w, p) THEN <<>>
                   \* a stored path of that name is shown instead
                   ELSE IF VersionName(p) \in Visible(w) \/ Unclear(w, VersionName(p)) THEN <<>>
                   ELSE IF o.t # "d" THEN <<"no version folder", p>>
                   ELSE IF Len(o.names) # n \/ {o.names[j] : j \in DOMAIN o.names} # {ToString(x) : x \in 1..n}
                   THEN <<"versions", p, n, o.names>>
                   ELSE IF \/ ~(found \subseteq 1..n)
                           \/ \E x \in (1..n) \ found : ShownVersion(w, p, x).t # "*" THEN <<"reachable versions", p, n, found>>
                   ELSE IF wrong # {} THEN <<"version", p, o.items[First(wrong)].k>> \o X(First(wrong))
                   ELSE IF o.extra # <<>> THEN <<"version that does not exist", p, o.extra>>
                   ELSE <<>>
        bad == {k \in DOMAIN t.vers : D(k) # <<>>}
    IN IF bad # {} THEN D(First(bad)) ELSE <<>>

ViewDifference(w, t) ==
    LET d == TreeDiff(w, t)
    IN IF d # <<>> THEN d ELSE VersDiff(w, t)
=============================================================================
