---------------------------- MODULE OverlayTrace ----------------------------
(***************************************************************************)
(* Trace validation for the writable mount: every line of the file named by *)
(* the environment variable TRACES is one recorded history of operations    *)
(* on a real mount.  The reference state is advanced with Posix and each    *)
(* recorded result and recorded tree is compared with it.                   *)
(***************************************************************************)
EXTENDS Posix, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, i, fs, h, err
vars == <<tid, i, fs, h, err>>

Ran(s) == {s[k] : k \in DOMAIN s}

InitFs(low) ==
    LET root == MkNode("d", ANY, <<>>, "", ANY, ANY, ANY)
        es == low
    IN [d  |-> (<<>> :> 0) @@ [q \in {es[k].p : k \in DOMAIN es} |->
                   CHOOSE k \in DOMAIN es : es[k].p = q],
        n  |-> (0 :> root) @@ [k \in DOMAIN es |->
                   MkNode(es[k].t, es[k].mode, es[k].data, es[k].tgt,
                          es[k].mtime, es[k].uid, es[k].gid)],
        nx |-> Len(es) + 1]

Init ==
    /\ tid \in 1..Len(Traces)
    /\ i = 0
    /\ fs = InitFs(Traces[tid].low)
    /\ h = <<>>
    /\ err = <<>>

Low == {Traces[tid].low[k].p : k \in DOMAIN Traces[tid].low}

(*------------------------------ comparison -------------------------------*)
NumOk(spec, obs) == spec = ANY \/ spec = obs

EntryDiff(p, o) ==
    LET nd == Node(fs', p)
    IN IF nd.t # o.t THEN <<"type", p, nd.t, o.t>>
       ELSE IF nd.t = "f" /\ nd.data # o.data THEN <<"content", p, nd.data, o.data>>
       ELSE IF nd.t = "l" /\ nd.tgt # o.tgt THEN <<"target", p, nd.tgt, o.tgt>>
       ELSE IF nd.sh THEN <<>>
       ELSE IF nd.t # "l" /\ ~NumOk(nd.mode, o.mode) THEN <<"mode", p, nd.mode, o.mode>>
       ELSE IF ~NumOk(nd.mtime, o.mtime) THEN <<"mtime", p, nd.mtime, o.mtime>>
       ELSE IF ~NumOk(nd.uid, o.uid) \/ ~NumOk(nd.gid, o.gid) THEN <<"owner", p, <<nd.uid, nd.gid>>, <<o.uid, o.gid>>>>
       ELSE IF nd.t = "f" /\ o.size # Len(nd.data) THEN <<"size", p, Len(nd.data), o.size>>
       ELSE <<>>

TreeDiff(tree) ==
    LET obs == {tree[k].p : k \in DOMAIN tree}
        exp == (DOMAIN fs'.d) \ {<<>>}
        bad == {k \in DOMAIN tree : EntryDiff(tree[k].p, tree[k]) # <<>>}
    IN IF exp \ obs # {} THEN <<"missing", CHOOSE p \in exp \ obs : TRUE>>
       ELSE IF obs \ exp # {} THEN <<"unexpected", CHOOSE p \in obs \ exp : TRUE>>
       ELSE IF Len(tree) # Cardinality(obs) THEN <<"listed twice">>
       ELSE IF bad # {} THEN LET k == CHOOSE k \in bad : TRUE IN EntryDiff(tree[k].p, tree[k])
       ELSE <<>>

(*------------------------------- operations ------------------------------*)
Refusable(e) ==
    \/ e.op = "rename" /\ IsDir(fs, e.p) /\ e.p \in Low
    \/ e.op = "link" /\ e.p \in Low

PathOp(e) ==
    CASE e.op = "create"   -> Create(fs, e.p, e.mode, e.uid, e.gid)
      [] e.op = "mknod"    -> Create(fs, e.p, e.mode, e.uid, e.gid)
      [] e.op = "mkdir"    -> Mkdir(fs, e.p, e.mode, e.uid, e.gid)
      [] e.op = "symlink"  -> Symlink(fs, e.p, e.tgt, e.uid, e.gid)
      [] e.op = "unlink"   -> Unlink(fs, e.p)
      [] e.op = "rmdir"    -> Rmdir(fs, e.p)
      [] e.op = "rename"   -> Rename(fs, e.p, e.q)
      [] e.op = "link"     -> Link(fs, e.p, e.q)
      [] e.op = "truncate" -> Truncate(fs, e.p, e.len)
      [] e.op = "chmod"    -> Chmod(fs, e.p, e.mode)
      [] e.op = "chown"    -> Chown(fs, e.p, e.u, e.g)
      [] e.op = "utimens"  -> Utimens(fs, e.p, e.t)
      [] e.op = "open"     -> OpenRes(fs, e.p)
      [] OTHER             -> Ok(fs)          \* remount, observe

(* Handles: ino, whether this handle has written, and every content the     *)
(* file had since the handle was opened (close-to-open consistency: a       *)
(* handle that has not written may still show an older content).            *)
Touch(hh, f2) ==
    [x \in DOMAIN hh |-> [hh[x] EXCEPT !.seen = @ \cup {f2.n[hh[x].ino].data}]]

Step(e) ==
    CASE e.op \in {"write"} ->
           LET hd == h[e.h]
               nd == fs.n[hd.ino]
               nd2 == [nd EXCEPT !.data = WriteData(nd.data, e.off, e.data),
                                 !.mtime = IF Len(e.data) = 0 THEN ANY
                                           ELSE IF ~hd.wrote THEN NOW
                                           ELSE IF nd.mtime = NOW THEN NOW ELSE ANY]
               f2 == SetInode(fs, hd.ino, nd2)
           IN /\ fs' = f2
              /\ h' = [Touch(h, f2) EXCEPT ![e.h].wrote = TRUE]
              /\ err' = IF e.res # "ok" THEN <<"write failed", e.res>> ELSE TreeDiff(e.tree)
      [] e.op = "read" ->
           LET hd == h[e.h]
               ok == IF hd.wrote THEN {fs.n[hd.ino].data}
                     ELSE hd.seen \cup {fs.n[hd.ino].data}
           IN /\ UNCHANGED <<fs, h>>
              /\ err' = IF e.res # "ok" THEN <<"read failed", e.res>>
                        ELSE IF e.out \notin {Slice(x, e.off, e.len) : x \in ok}
                        THEN <<"read", Slice(fs.n[hd.ino].data, e.off, e.len), e.out>>
                        ELSE <<>>
      [] e.op = "release" ->
           /\ UNCHANGED fs
           /\ h' = [x \in (DOMAIN h) \ {e.h} |-> h[x]]
           /\ err' = IF e.res # "ok" THEN <<"release failed", e.res>> ELSE TreeDiff(e.tree)
      [] OTHER ->
           LET r == PathOp(e)
               refused == e.res = "EXDEV" /\ Refusable(e)
               f2 == IF refused THEN fs ELSE r.fs
               opens == e.op \in {"open", "create"} /\ e.res = "ok" /\ r.res = "ok"
           IN /\ fs' = f2
              /\ h' = IF opens
                      THEN (e.h :> [ino |-> f2.d[e.p], wrote |-> (e.op = "create"),
                                    seen |-> {f2.n[f2.d[e.p]].data}]) @@ h
                      ELSE Touch(h, f2)
              /\ err' = IF ~refused /\ e.res # r.res THEN <<"result", e.op, r.res, e.res>>
                        ELSE TreeDiff(e.tree)

Next ==
    /\ err = <<>>
    /\ i < Len(Traces[tid].ev)
    /\ i' = i + 1
    /\ tid' = tid
    /\ Step(Traces[tid].ev[i + 1])
    /\ (err' # <<>> => PrintT("@BAD " \o ToJson([tid |-> tid, i |-> i + 1, err |-> err'])))
    /\ (err' = <<>> /\ i' = Len(Traces[tid].ev) => PrintT("@OK " \o ToString(tid)))

Spec == Init /\ [][Next]_vars
=============================================================================
