------------------------------ MODULE Members ------------------------------
(***************************************************************************)
(* What a stack of archives means as a read-only file system.               *)
(*                                                                          *)
(* A source is the sequence of its members in archive order; a view is a    *)
(* sequence of sources, the rightmost has the highest precedence.           *)
(* A member is a record                                                     *)
(*   raw  : sequence of components as spelled in the archive ("", ".", ".." *)
(*          included)                                                       *)
(*   t    : "f" "d" "l" (symbolic link) "h" (hard link) "p" "c" "b"         *)
(*   mode, mtime, uid, gid : integers, ANY where a format cannot store it   *)
(*   data : file content, tgt : target string, tp : components of tgt       *)
(* Paths are sequences of names, <<>> is the root.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

ANY == -2

IsPrefixOf(a, b)   == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
StrictPrefix(a, b) == Len(a) < Len(b) /\ SubSeq(b, 1, Len(a)) = a
Parent(p)          == SubSeq(p, 1, Len(p) - 1)
Base(p)            == p[Len(p)]

(* "a//./b/../c" -> <<a, c>>; ".." above the root stays at the root *)
RECURSIVE NormFrom(_, _)
NormFrom(acc, rest) ==
    IF rest = <<>> THEN acc
    ELSE LET c == Head(rest) IN
         NormFrom(IF c \in {"", "."} THEN acc
                  ELSE IF c = ".." THEN (IF acc = <<>> THEN acc ELSE Parent(acc))
                  ELSE Append(acc, c), Tail(rest))
Norm(raw) == NormFrom(<<>>, raw)

(*------------------------------ one source -------------------------------*)
(* Folders nobody stored exist as soon as something is stored inside them.  *)
Implied(i) == [at |-> i, t |-> "d", mode |-> 365 (* 0555 *), mtime |-> 0, uid |-> 0, gid |-> 0,
            data |-> <<>>, tgt |-> "", tp |-> <<>>, gen |-> TRUE]
Stored(m, i) == [at |-> i, t |-> m.t, mode |-> m.mode, mtime |-> m.mtime, uid |-> m.uid, gid |-> m.gid,
              data |-> m.data, tgt |-> m.tgt, tp |-> m.tp, gen |-> FALSE]

(* np: normalized paths of the members of the source *)
Np(ms) == [i \in DOMAIN ms |-> Norm(ms[i].raw)]
At(np, p)    == {i \in DOMAIN np : np[i] = p}
Below(np, p) == {i \in DOMAIN np : StrictPrefix(p, np[i])}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

(* every version of p in this source, oldest first *)
Versions(ms, np, p) ==
    LET at  == At(np, p)
        sub == Below(np, p)
        imp == IF sub # {} /\ ~\E i \in at : ms[i].t = "d" THEN {MinOf(sub)} ELSE {}
        order == SetToSortSeq(at \cup imp, <)
    IN [k \in DOMAIN order |-> IF order[k] \in at THEN Stored(ms[order[k]], order[k]) ELSE Implied(order[k])]

PathsOf(np) == UNION {{SubSeq(np[i], 1, k) : k \in 1..Len(np[i])} : i \in DOMAIN np}

(* A path which was replaced by something that is no folder although the source stores something below it *)
Covered(ms, np, p) ==
    LET v == Versions(ms, np, p) IN v # <<>> /\ v[Len(v)].t # "d" /\ Below(np, p) # {}
(* ... and even afterwards: nobody can say what that is supposed to be *)
Contradicts(ms, np, p) ==
    Covered(ms, np, p) /\ At(np, p) # {} /\ \E i \in Below(np, p) : i > MaxOf(At(np, p))

(*----------------------------- many sources ------------------------------*)
Flatten(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)

Base0(srcs) ==
    LET nps == [s \in DOMAIN srcs |-> Np(srcs[s])]
        all == UNION {PathsOf(nps[s]) : s \in DOMAIN srcs}
    IN [single |-> Len(srcs) = 1,
        v |-> [p \in all |-> Flatten([s \in DOMAIN srcs |-> Versions(srcs[s], nps[s], p)])],
        amb |-> {p \in all : \E s \in DOMAIN srcs :
                    \/ Contradicts(srcs[s], nps[s], p)
                    \/ Len(srcs) > 1 /\ Covered(srcs[s], nps[s], p)}]

Paths(w) == DOMAIN w.v
Top(w, p) == w.v[p][Len(w.v[p])]
IsFolder(w, p) == p = <<>> \/ (p \in Paths(w) /\ Top(w, p).t = "d")

(* What somebody walking down from the root can see *)
Visible(w) == {p \in Paths(w) : \A k \in 1..(Len(p) - 1) : IsFolder(w, SubSeq(p, 1, k))}
Children(w, p) == {q \in Visible(w) : Len(q) = Len(p) + 1 /\ IsPrefixOf(p, q)}
Unclear(w, p) == \E a \in w.amb : IsPrefixOf(a, p)

(* Hard links show the file they refer to, as long as somebody can see that one.  One referring to its own path is   *)
(* an update of that path and shows the file stored before it.                                                       *)
Star == [t |-> "*"]
(* the part of a node that can be seen *)
Bare(nd) == [x \in DOMAIN nd \ {"at", "gen", "tp"} |-> nd[x]]
RECURSIVE Resolve(_, _, _, _)
Resolve(w, p, k, fuel) ==
    LET nd == w.v[p][k] IN
    IF nd.t # "h" THEN nd
    ELSE LET q == Norm(nd.tp) IN
         IF fuel = 0 \/ q \notin Visible(w) \/ Unclear(w, q) THEN Star
         ELSE IF q = p THEN (IF k = 1 THEN Star ELSE Resolve(w, p, k - 1, fuel - 1))
         (* Which version is meant is clear if there is only one, or all of them were stored before the link. *)
         ELSE IF Len(w.v[q]) # 1 /\ ~(w.single /\ \A j \in DOMAIN w.v[q] : w.v[q][j].at < nd.at) THEN Star
         ELSE Resolve(w, q, Len(w.v[q]), fuel - 1)
Shown(w, p) == Resolve(w, p, Len(w.v[p]), 10)
ShownVersion(w, p, k) == Resolve(w, p, k, 10)

(* Hard links to nothing or to folders: no claim *)
World(srcs) ==
    LET w == Base0(srcs)
    IN [w EXCEPT !.amb = @ \cup {p \in Paths(w) : Top(w, p).t = "h" /\ Shown(w, p).t \in {"*", "d"}}]
=============================================================================
