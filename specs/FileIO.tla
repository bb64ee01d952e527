------------------------------- MODULE FileIO -------------------------------
(***************************************************************************)
(* Read-only file objects.  A file is an expression over sources:           *)
(*   [t |-> "src", s, n]     the n bytes of source s                        *)
(*   [t |-> "zero", n]       n zero bytes                                   *)
(*   [t |-> "cut", fs, c]    the regions c (<<index into fs, offset, size>>) *)
(*                           of other files, one after the other            *)
(*   [t |-> "join", fs]      files one after the other                      *)
(* Its content is a sequence of pieces <<source, offset, size>>; source 0    *)
(* is zeros.  A handle is a position; what a handle does affects no other.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

RECURSIVE Size(_)
Size(v) == IF v = <<>> THEN 0 ELSE Head(v)[3] + Size(Tail(v))

(* appends a piece, merging what is contiguous, so that contents are compared independently of how they were cut *)
Glue(v, p) ==
    IF p[3] = 0 THEN v
    ELSE IF v # <<>> /\ v[Len(v)][1] = p[1] /\ (p[1] = 0 \/ v[Len(v)][2] + v[Len(v)][3] = p[2])
    THEN [v EXCEPT ![Len(v)][3] = @ + p[3]]
    ELSE Append(v, p)

RECURSIVE Concat(_, _)
Concat(v, w) == IF w = <<>> THEN v ELSE Concat(Glue(v, Head(w)), Tail(w))

(* bytes [a, b) of v *)
RECURSIVE Part(_, _, _, _)
Part(v, i, a, b) ==
    IF i > Len(v) \/ b <= 0 THEN <<>>
    ELSE LET p == v[i]
             from == Max(a, 0)
             to == Min(b, p[3])
             rest == Part(v, i + 1, a - p[3], b - p[3])
         IN IF from < to THEN Concat(<<<<p[1], IF p[1] = 0 THEN 0 ELSE p[2] + from, to - from>>>>, rest) ELSE rest

Slice(v, o, n) == IF n <= 0 THEN <<>> ELSE Part(v, 1, o, o + n)

RECURSIVE View(_)
View(f) ==
    CASE f.t = "src" -> Glue(<<>>, <<f.s, 0, f.n>>)
      [] f.t = "zero" -> Glue(<<>>, <<0, 0, f.n>>)
      [] f.t = "join" -> LET RECURSIVE J(_)
                             J(k) == IF k = 0 THEN <<>> ELSE Concat(J(k - 1), View(f.fs[k]))
                         IN J(Len(f.fs))
      [] f.t = "cut" -> LET RECURSIVE J(_)
                            J(k) == IF k = 0 THEN <<>>
                                    ELSE Concat(J(k - 1), Slice(View(f.fs[f.c[k][1]]), f.c[k][2], f.c[k][3]))
                        IN J(Len(f.c))

(* what a read of n bytes (n < 0: everything) at position p must return *)
Read(v, size, p, n) == IF n < 0 THEN Slice(v, p, size - p) ELSE Slice(v, p, n)

(* A read that may be short returns at least one byte if there is one. *)
ShortOk(v, size, p, n, r) ==
    LET m == Size(r) IN /\ r = Slice(v, p, m)
                        /\ (n # 0 /\ p < size) => m > 0
                        /\ n >= 0 => m <= n

Target(size, p, off, wh) == CASE wh = 0 -> off [] wh = 1 -> p + off [] wh = 2 -> size + off
=============================================================================
