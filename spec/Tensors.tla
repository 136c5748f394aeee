------------------------------ MODULE Tensors -------------------------------
(***************************************************************************)
(* Tensors of integers, as a shape (sequence of extents) with row-major    *)
(* data (a sequence).  Flat offsets and coordinates are 0-based, axes are  *)
(* 1-based.                                                                *)
(***************************************************************************)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE TLC

Prod(shape) == FoldLeft(LAMBDA a, b : a * b, 1, shape)

(* row-major strides of a shape *)
Strides(shape) ==
  [a \in 1..Len(shape) |-> FoldLeft(LAMBDA x, y : x * y, 1, SubSeq(shape, a + 1, Len(shape)))]

(* coordinates of a flat offset *)
Coords(shape, flat) ==
  LET st == Strides(shape)
  IN  [a \in 1..Len(shape) |-> (flat \div st[a]) % shape[a]]

CoordsS(shape, st, flat) == [a \in 1..Len(shape) |-> (flat \div st[a]) % shape[a]]

Dot(u, v) == FoldLeft(LAMBDA acc, a : acc + u[a] * v[a], 0, [a \in 1..Len(u) |-> a])

Offset(shape, coords) == Dot(Strides(shape), coords)

At(t, coords) == t.v[Offset(t.s, coords) + 1]

Tensor(shape, F(_)) ==
  LET st == TLCEval(Strides(shape))
  IN  [s |-> shape, v |-> [o \in 1..Prod(shape) |-> F(CoordsS(shape, st, o - 1))]]

(* insert an element such that it ends up at (1-based) position a *)
InsertAx(seq, a, e) == SubSeq(seq, 1, a - 1) \o <<e>> \o SubSeq(seq, a, Len(seq))
RemoveAx(seq, a) == SubSeq(seq, 1, a - 1) \o SubSeq(seq, a + 1, Len(seq))

(* normalise a 0-based, possibly negative, axis of a rank-r tensor to a 1-based one *)
Ax(a, r) == IF a < 0 THEN a + r + 1 ELSE a + 1

SumOver(n, F(_)) == FoldLeft(LAMBDA acc, a : acc + F(a), 0, [a \in 1..n |-> a])
=============================================================================
