-------------------------------- MODULE Axes -------------------------------
(***************************************************************************)
(* Moving, merging and splitting axes of tensors.  Axes are 1-based.       *)
(***************************************************************************)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE TLC
LOCAL INSTANCE Tensors

(* the axes of rank r in the order after moving m directly to the left of t *)
OrderAfterMove(r, m, t) ==
  LET rest == SelectSeq([z \in 1..r |-> z], LAMBDA z : z # m)
  IN  InsertAx(rest, CHOOSE z \in 1..Len(rest) : rest[z] = t, m)

(* where t ends up when m is taken out *)
Landing(m, t) == IF m < t THEN t - 1 ELSE t

Move(x, m, t) ==
  LET r     == Len(x.s)
      order == TLCEval(OrderAfterMove(r, m, t))
      shape == TLCEval([z \in 1..r |-> x.s[order[z]]])
      st    == TLCEval(Strides(x.s))
      mst   == TLCEval([z \in 1..r |-> st[order[z]]])
      nst   == TLCEval(Strides(shape))
  IN  [s |-> shape, v |-> [o \in 1..Prod(shape) |-> x.v[Dot(mst, CoordsS(shape, nst, o - 1)) + 1]]]

(* shapes: the merged extent is the product; a factor is split off to the left *)
MergeShape(shape, m, t) ==
  LET rest == SelectSeq([z \in 1..Len(shape) |-> z], LAMBDA z : z # m)
  IN  [z \in 1..(Len(shape) - 1) |-> IF rest[z] = t THEN shape[t] * shape[m] ELSE shape[rest[z]]]
SplitShape(shape, f, a) == SubSeq(shape, 1, a - 1) \o <<f, shape[a] \div f>> \o SubSeq(shape, a + 1, Len(shape))

(* merging puts m directly to the left of t, the more significant of the two *)
Merge(x, m, t) == [s |-> MergeShape(x.s, m, t), v |-> Move(x, m, t).v]
Split(x, f, a) == [s |-> SplitShape(x.s, f, a), v |-> x.v]

IndexTensor(shape) == [s |-> shape, v |-> [o \in 1..Prod(shape) |-> o - 1]]
=============================================================================
