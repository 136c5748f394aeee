------------------------------ MODULE Actions ------------------------------
(***************************************************************************)
(* The action of a group of symmetries on signals: tensors with d spatial  *)
(* axes, possibly a group axis, and any other axes.                        *)
(*                                                                         *)
(*     on the grid:   (g f)(p)    = f(g^-1 p)                              *)
(*     on a group:    (g f)(p, h) = f(g^-1 p, g^-1 h)                      *)
(*                                                                         *)
(* with f(., h) = 0 for h outside of the group the signal lives on.        *)
(***************************************************************************)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE TLC
LOCAL INSTANCE Symmetry
LOCAL INSTANCE Tensors

(* flat offset, within a grid of extents n, of the point that g moves to point q,
   where q are coordinates in the grid g gives: out[a] = n[g.p[a]] *)
(* (g^-1 q)[b] = r.s[b] * q[r.p[b]],  in centered coordinates; a reversed axis b of
   extent n[b] maps coordinate c to n[b] - 1 - c *)
Source(r, n, q) ==
  [b \in 1..Len(n) |-> IF r.s[b] = 1 THEN q[r.p[b]] ELSE n[b] - 1 - q[r.p[b]]]

OutExtents(g, n) == [a \in 1..Len(n) |-> n[g.p[a]]]

SquareUnder(G, n) == \A i \in 1..Len(G) : OutExtents(G[i], n) = n

(* Does tensor y hold the transforms of tensor x under every element of the
   sequence G of symmetries, along (1-based) axis newAx of y?
   sp: 1-based spatial axes of x;  ga: 1-based group axis of x or 0;
   dom: the labelling of the group axis of x;
   tgt: the labelling of the group axis in the result (differs from dom if the signal is
   extended by zero). Returns "ok" or the name of the clause that fails. *)
ActionVerdict(x, y, G, sp, newAx, ga, dom, tgt) ==
  LET r     == Len(x.s)
      d     == Len(sp)
      n     == [a \in 1..d |-> x.s[sp[a]]]
      inv   == TLCEval([i \in 1..Len(G) |-> InverseSym(G[i])])
      quo   == TLCEval(IF ga = 0 THEN <<>> ELSE
                 [i \in 1..Len(G) |-> [h \in 1..Len(tgt) |-> IndexOrZero(dom, Compose(inv[i], tgt[h]))]])
      xs2   == IF ga = 0 THEN x.s ELSE [x.s EXCEPT ![ga] = Len(tgt)]
      yshape == InsertAx(xs2, newAx, Len(G))
      yst   == TLCEval(Strides(yshape))
      xst   == TLCEval(Strides(x.s))
      Expected(o) ==
        LET cy == CoordsS(yshape, yst, o)
            i  == cy[newAx] + 1
            c  == RemoveAx(cy, newAx)
            q  == [a \in 1..d |-> c[sp[a]]]
            p  == Source(inv[i], n, q)
            c1 == FoldLeft(LAMBDA acc, a : [acc EXCEPT ![sp[a]] = p[a]], c, [a \in 1..d |-> a])
        IN  IF ga = 0 THEN x.v[Dot(xst, c1) + 1]
            ELSE LET j == quo[i][c[ga] + 1]
                 IN  IF j = 0 THEN 0 ELSE x.v[Dot(xst, [c1 EXCEPT ![ga] = j - 1]) + 1]
  IN  IF ~SquareUnder(G, n) THEN "input not preserved by the group"
      ELSE IF y.s # yshape THEN "shape of the transformed signal"
      ELSE IF Len(y.v) # Prod(yshape) THEN "incomplete record"
      ELSE IF \A o \in 0..(Len(y.v) - 1) : y.v[o + 1] = Expected(o) THEN "ok"
      ELSE "values of the transformed signal"

(* the transform of one signal by one symmetry, as a tensor *)
Act(g, x, sp, ga, dom, tgt) ==
  LET d   == Len(sp)
      n   == [a \in 1..d |-> x.s[sp[a]]]
      inv == InverseSym(g)
      quo == TLCEval(IF ga = 0 THEN <<>> ELSE
               [h \in 1..Len(tgt) |-> IndexOrZero(dom, Compose(inv, tgt[h]))])
      shp == IF ga = 0 THEN x.s ELSE [x.s EXCEPT ![ga] = Len(tgt)]
      shp2 == FoldLeft(LAMBDA acc, a : [acc EXCEPT ![sp[a]] = OutExtents(g, n)[a]], shp, [a \in 1..d |-> a])
      F(c) == LET q  == [a \in 1..d |-> c[sp[a]]]
                  p  == Source(inv, n, q)
                  c1 == FoldLeft(LAMBDA acc, a : [acc EXCEPT ![sp[a]] = p[a]], c, [a \in 1..d |-> a])
              IN  IF ga = 0 THEN At(x, c1)
                  ELSE IF quo[c[ga] + 1] = 0 THEN 0
                  ELSE At(x, [c1 EXCEPT ![ga] = quo[c[ga] + 1] - 1])
  IN  Tensor(shp2, F)

(***************************************************************************)
(* The equivariance of a recorded function: xs[1] is a signal, xs[i+1] its *)
(* transform by G[i], ys the results, stacked along axis 1 (the batch).    *)
(***************************************************************************)
(* Is part b (0-based) of the first axis of t the transform by g of part 0? *)
PartIsTransform(t, b, g, sp, ga, dom, nb) ==
  LET d   == Len(sp)
      n   == [a \in 1..d |-> t.s[sp[a]]]
      inv == TLCEval(InverseSym(g))
      quo == TLCEval(IF ga = 0 THEN <<>> ELSE
               [h \in 1..Len(dom) |-> IndexOrZero(dom, Compose(inv, dom[h]))])
      st  == TLCEval(Strides(t.s))
      bs  == nb * st[1]                         \* elements per part
  IN  /\ OutExtents(g, n) = n
      /\ (ga # 0 => \A h \in 1..Len(dom) : quo[h] # 0)
      /\ \A o \in 0..(bs - 1) :
           LET c  == CoordsS(t.s, st, o)
               q  == [a \in 1..d |-> c[sp[a]]]
               p  == Source(inv, n, q)
               dx == FoldLeft(LAMBDA acc, a : acc + (p[a] - c[sp[a]]) * st[sp[a]], 0, [a \in 1..d |-> a])
               dg == IF ga = 0 THEN 0 ELSE (quo[c[ga] + 1] - 1 - c[ga]) * st[ga]
           IN  t.v[b * bs + o + 1] = t.v[o + dx + dg + 1]
=============================================================================
