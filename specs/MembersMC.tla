----------------------------- MODULE MembersMC ------------------------------
(* Every sequence of up to MaxLen members over a small alphabet, cut into up to MaxSources sources. *)
EXTENDS Members, Json

CONSTANTS MaxLen, MaxSources, Emit

VARIABLES srcs
vars == <<srcs>>

M(raw, t, tp) == [raw |-> raw, t |-> t, mode |-> 420, mtime |-> 1000, uid |-> 1, gid |-> 2,
                  data |-> <<>>, tgt |-> IF t = "l" THEN "b" ELSE "", tp |-> tp]
Alphabet ==
    {M(p, t, <<>>) : p \in {<<"a">>, <<"b">>, <<"a", "b">>, <<"a", "c">>}, t \in {"f", "d"}}
    \cup {M(<<"a">>, "l", <<>>), M(<<"a">>, "h", <<"a">>), M(<<"b">>, "h", <<"a">>), M(<<"a", "b">>, "h", <<"b">>),
          M(<<"a", "b", "c">>, "f", <<>>), M(<<"a.versions">>, "f", <<>>)}

Count == FoldLeft(LAMBDA n, s : n + Len(s), 0, srcs)
(* the content tells apart which member it came from *)
Tag(m) == [m EXCEPT !.data = IF m.t = "f" THEN <<Count + 1>> ELSE <<>>]

Init == srcs = <<<<>>>>
Add(m) ==
    LET n == Len(srcs) IN
    \/ srcs' = [srcs EXCEPT ![n] = Append(@, Tag(m))]
    \/ /\ n < MaxSources /\ srcs[n] # <<>>
       /\ srcs' = Append(srcs, <<Tag(m)>>)
Next ==
    /\ Count < MaxLen
    /\ \E m \in Alphabet : Add(m)
    /\ (Emit => PrintT("@S " \o ToJson(srcs')))
Spec == Init /\ [][Next]_vars

W == World(srcs)
(* the visible paths form a tree *)
Tree == \A p \in Visible(W) : Len(p) > 1 => Parent(p) \in Visible(W) /\ IsFolder(W, Parent(p))
(* nothing stored gets lost: all stored members are versions of their path, in order *)
StoredVersions(p) ==
    LET s == SelectSeq(W.v[p], LAMBDA nd : ~nd.gen) IN [k \in DOMAIN s |-> [s[k] EXCEPT !.at = 0]]
Kept == \A p \in Paths(W) :
            StoredVersions(p) = Flatten([s \in DOMAIN srcs |->
                LET at == SelectSeq(srcs[s], LAMBDA m : Norm(m.raw) = p)
                IN [k \in DOMAIN at |-> Stored(at[k], 0)]])
(* the rightmost source which has a path decides *)
Precedence == \A p \in Paths(W) :
    LET having == {s \in DOMAIN srcs : p \in PathsOf(Np(srcs[s]))}
        v == Versions(srcs[MaxOf(having)], Np(srcs[MaxOf(having)]), p)
    IN Top(W, p) = v[Len(v)]
(* a folder shows what any source has in it *)
Union == \A p \in Visible(W) \cup {<<>>} : IsFolder(W, p) =>
    Children(W, p) = {q \in Paths(W) : Len(q) = Len(p) + 1 /\ IsPrefixOf(p, q)}
(* adding sources changes nothing about versions already there *)
Stable == [][Len(srcs') > Len(srcs) =>
              \A p \in Paths(W) : IsPrefixOf(W.v[p], World(srcs').v[p])]_vars
=============================================================================
