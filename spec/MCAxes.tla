------------------------------- MODULE MCAxes ------------------------------
(***************************************************************************)
(* Laws of the axis operations: for all shapes and all pairs of axes.      *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, TLC, Tensors, Axes

CONSTANTS Ranks, Extents

VARIABLES shape, m, t, done
vars == <<shape, m, t, done>>

Init == /\ done = FALSE
        /\ \E r \in Ranks : shape \in [1..r -> Extents] /\ m \in 1..r /\ t \in 1..r
        /\ m # t
Next == ~done /\ done' = TRUE /\ UNCHANGED <<shape, m, t>>
Spec == Init /\ [][Next]_vars

S == [z \in 1..Len(shape) |-> shape[z]]
X == IndexTensor(S)
L == Landing(m, t)

(* by coordinates: the merged coordinate is  c[m] * extent(t) + c[t] *)
MergesByCoordinates ==
  done => LET y == TLCEval(Merge(X, m, t))
          IN  \A o \in 0..(Prod(S) - 1) :
                LET c == Coords(S, o)
                    d == RemoveAx([c EXCEPT ![t] = c[m] * S[t] + c[t]], m)
                IN  At(y, d) = At(X, c)
(* moving keeps the order of all other axes, and the elements *)
MovesOneAxis ==
  done => LET y == TLCEval(Move(X, m, t))
          IN  /\ RemoveAx(y.s, L) = RemoveAx(S, m)
              /\ y.s[L] = S[m]
              /\ { y.v[o] : o \in 1..Prod(S) } = { X.v[o] : o \in 1..Prod(S) }
              /\ \A o \in 0..(Prod(S) - 1) :
                   At(y, InsertAx(RemoveAx(Coords(S, o), m), L, Coords(S, o)[m])) = o
SplitUndoesMerge == done => Split(Merge(X, m, t), S[m], L) = Move(X, m, t)
MergeUndoesSplit ==
  done => \A f \in 1..S[t] : (S[t] % f = 0) => Merge(Split(X, f, t), t, t + 1) = X
ShapesAgree == done => /\ MergeShape(S, m, t) = Merge(X, m, t).s
                       /\ Prod(MergeShape(S, m, t)) = Prod(S)
                       /\ Len(Merge(X, m, t).v) = Prod(S)
(* an adjacent axis is merged without moving anything *)
AdjacentInPlace == (done /\ m + 1 = t) => Merge(X, m, t).v = X.v
(* merging two axes one after the other *)
MergeTwice ==
  done => \A u \in 1..Len(S) : (u # m /\ u # t) =>
    LET v == IF u < m THEN u ELSE u - 1
        p == Merge(Merge(X, m, t), v, L)
    IN  p.s[Landing(v, L)] = S[m] * S[t] * S[u]
(* gathering *)
IndexGathers == done => LET z == [s |-> S, v |-> [o \in 1..Prod(S) |-> o * o + 3]]
                        IN  \A o \in 1..Prod(S) : z.v[IndexTensor(S).v[o] + 1] = z.v[o]
=============================================================================
