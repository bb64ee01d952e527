------------------------------ MODULE NestedMC ------------------------------
(* All small archives with archives inside (two layers), every depth, with and without stripping the extension. *)
EXTENDS Nested, Json

CONSTANTS MaxLen, Emit
VARIABLES ms
vars == <<ms>>

M(raw, t, tp) == [raw |-> raw, t |-> t, mode |-> 420, mtime |-> 1000, uid |-> 1, gid |-> 2, data |-> <<>>,
                  tgt |-> IF t = "l" THEN "b" ELSE "", tp |-> tp, arc |-> "", sub |-> <<>>, stem |-> "", mid |-> "",
                  inner |-> <<>>]
A(raw, kind, stem, mid, sub) == [M(raw, "f", <<>>) EXCEPT !.arc = kind, !.stem = stem, !.mid = mid, !.sub = sub, !.mode = 288,
                                 !.inner = <<200>>, !.data = <<100>>]

Leaf == {M(<<"a">>, "f", <<>>), M(<<"..", "a">>, "f", <<>>), M(<<"a", "b">>, "f", <<>>), M(<<"b">>, "d", <<>>),
         M(<<"b">>, "h", <<"a">>), M(<<"a">>, "l", <<>>), M(<<"..", "..", "x">>, "f", <<>>)}
TagSub(s, k) == [i \in DOMAIN s |-> IF s[i].t = "f" /\ s[i].arc = "" THEN [s[i] EXCEPT !.data = <<10 * k + i>>] ELSE s[i]]
Subs == {<<x>> : x \in Leaf} \cup {<<x, y>> : x \in Leaf, y \in Leaf}
Deep == {<<A(<<"r.tar">>, "tar", "r", "r.tar", TagSub(<<x>>, 3))>> : x \in Leaf}
        \cup {<<M(<<"a">>, "f", <<>>), A(<<"..", "r.tgz">>, "tgz", "r", "r.tar", TagSub(<<x>>, 3))>> : x \in Leaf}
Archives == {A(<<"p.tar">>, "tar", "p", "p.tar", TagSub(s, 2)) : s \in Subs \cup Deep}
            \cup {A(<<"b", "q.tgz">>, "tgz", "q", "q.tar", TagSub(s, 4)) : s \in Deep \cup {<<x>> : x \in Leaf}}
            \cup {A(<<"b", "s.gz">>, "gz", "s", "s", <<[M(<<"s">>, "f", <<>>) EXCEPT !.data = <<7>>]>>)}
Used(k) == \E i \in DOMAIN ms : ms[i].arc = k

Init == ms = <<>>
Next == /\ Len(ms) < MaxLen
        /\ \E m \in Leaf \cup Archives :
             /\ m.arc = "" \/ ~Used(m.arc)
             /\ ms' = Append(ms, IF m.t = "f" /\ m.arc = "" THEN [m EXCEPT !.data = <<Len(ms) + 1>>] ELSE m)
        /\ (Emit => PrintT("@S " \o ToJson(ms')))
Spec == Init /\ [][Next]_vars

Hows == {[strip |-> FALSE, suffix |-> ""], [strip |-> TRUE, suffix |-> ""], [strip |-> TRUE, suffix |-> "_m"]}
Keep == [strip |-> FALSE, suffix |-> ""]
Indices == {i \in DOMAIN ms : ms[i].arc # ""}

(* without recursion the archives are files *)
NoRecursion == \A how \in Hows : \A i \in Indices :
    Opened(ms, 0, how)[i].raw = Norm(ms[i].raw) /\ Len(Opened(ms, 0, how)) = Len(ms)
(* whatever is inside of an archive stays below its mount point *)
Contained == \A how \in Hows, d \in 1..4 : \A i \in Indices :
    LET mp == MountPoint(ms[i], Norm(ms[i].raw), how)
        in == Expand(<<ms[i]>>, <<>>, d, how)
    IN \A k \in 2..Len(in) : IsPrefixOf(mp, in[k].raw)
(* a deeper recursion only adds paths below archives that were files before (of a compressed TAR the TAR disappears) *)
RECURSIVE OneLayer(_)
OneLayer(s) == \A i \in DOMAIN s : s[i].arc # "tgz" /\ OneLayer(s[i].sub)
Deeper == OneLayer(ms) => \A d \in 0..3 :
    LET u == NestedWorld(ms, d, Keep)
        v == NestedWorld(ms, d + 1, Keep)
    IN /\ Visible(u) \subseteq Visible(v)
       /\ \A p \in Visible(v) \ Visible(u) : \E q \in Visible(u) : StrictPrefix(q, p) /\ Top(u, q).t = "f" /\ Top(v, q).t = "d"
(* mounting an archive inside shows there what mounting it alone shows *)
Subtree(w, p) == {SubSeq(q, Len(p) + 1, Len(q)) : q \in {x \in Visible(w) : StrictPrefix(p, x)}}
Compositional == \A how \in Hows, d \in 1..3 : \A i \in Indices : ms[i].arc = "tar" =>
    LET mp == MountPoint(ms[i], Norm(ms[i].raw), how)
        v == NestedWorld(ms, d, how)
        u == NestedWorld(ms[i].sub, d - 1, how)
    IN mp \in Visible(v) =>
       /\ Subtree(v, mp) = Visible(u)
       /\ \A q \in Visible(u) : ~Unclear(u, q) => Bare(Shown(v, mp \o q)) = Bare(Shown(u, q))
=============================================================================
