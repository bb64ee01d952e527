------------------------------- MODULE Nested -------------------------------
(***************************************************************************)
(* Archives inside archives.  A member may be an archive itself:            *)
(*   arc  : "" (not an archive), "tar", "zip", "gz" (a compressed file),    *)
(*          "tgz" (a compressed TAR: two layers)                            *)
(*   sub  : its members, stem : its name without extension,                 *)
(*   mid  : its name without the extension of the compression               *)
(* Expand replaces every archive down to some depth by a folder with what   *)
(* is inside it, in place or, with how.strip, at its name with the          *)
(* extension replaced by how.suffix.                                        *)
(***************************************************************************)
EXTENDS Members

Bit(x, b) == (x \div b) % 2 = 1
(* whoever may read the archive may enter the folder *)
FolderMode(mode) ==
    IF mode = ANY THEN ANY
    ELSE LET m == mode % 512
             X(r, x) == IF Bit(m, r) /\ ~Bit(m, x) THEN x ELSE 0
         IN m + X(256, 64) + X(32, 8) + X(4, 1)

Plain(m, path, tp) == [raw |-> path, t |-> m.t, mode |-> m.mode, mtime |-> m.mtime, uid |-> m.uid, gid |-> m.gid,
                       data |-> m.data, tgt |-> m.tgt, tp |-> tp]
AsFolder(m, path)  == [raw |-> path, t |-> "d", mode |-> FolderMode(m.mode), mtime |-> m.mtime, uid |-> m.uid,
                       gid |-> m.gid, data |-> <<>>, tgt |-> "", tp |-> <<>>]
Anonymous(path, data) == [raw |-> path, t |-> "f", mode |-> ANY, mtime |-> ANY, uid |-> ANY, gid |-> ANY,
                          data |-> data, tgt |-> "", tp |-> <<>>]

MountPoint(m, path, how) == IF how.strip THEN Append(Parent(path), m.stem \o how.suffix) ELSE path

(* Names inside an archive are relative to it and cannot leave it. *)
RECURSIVE Expand(_, _, _, _)
Expand(ms, pre, depth, how) ==
    FoldLeft(LAMBDA acc, m :
        LET path == pre \o Norm(m.raw)
            self == <<Plain(m, path, IF m.t = "h" THEN pre \o Norm(m.tp) ELSE <<>>)>>
            mp   == MountPoint(m, path, how)
        IN acc \o self \o
           (IF m.arc = "" \/ depth < 1 THEN <<>>
            ELSE <<AsFolder(m, mp)>> \o
                 (IF m.arc = "gz" THEN <<Anonymous(Append(mp, m.stem), m.sub[1].data)>>
                  \* the compressed TAR is undone, its contents are one layer deeper
                  ELSE IF m.arc = "tgz" /\ depth < 2 THEN <<Anonymous(Append(mp, m.mid), m.inner)>>
                  ELSE Expand(m.sub, mp, IF m.arc = "tgz" THEN depth - 2 ELSE depth - 1, how))),
        <<>>, ms)

(* The outermost source; when it is compressed that is the first layer. *)
Opened(ms, depth, how) == Expand(ms, <<>>, depth, how)

NestedWorld(ms, depth, how) == World(<<Opened(ms, depth, how)>>)
=============================================================================
