------------------------------- MODULE MCFormat ----------------------------
(***************************************************************************)
(* Channels first and channels last: with the axes moved accordingly, all  *)
(* layers accept the same inputs and give the same results.                *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC,
        Symmetry, Tensors, Actions, Padding, LayerSem

CONSTANTS Kinds, Groups, Ns, Ks, Ss, ModesC, Grps, Chs

VARIABLES c, done
vars == <<c, done>>

Tup(q) == [p |-> [a \in 1..Len(q.p) |-> q.p[a]], s |-> [a \in 1..Len(q.s) |-> q.s[a]]]
E == TLCEval([n \in GroupNames |-> TLCEval(SetToSeq({ Tup(q) : q \in Documented(n) }))])
Reps(G, H) ==
  LET cosets == { { Compose(h, x) : h \in Documented(H) } : x \in Documented(G) }
  IN  SetToSeq({ Index(E[G], Tup(CHOOSE x \in S : TRUE)) : S \in cosets })
RepsT == TLCEval([G \in Groups |-> TLCEval([H \in { K \in Groups : Documented(K) \subseteq Documented(G) /\ Dim[K] = Dim[G] } |->
            TLCEval(Reps(G, H))])])

Init == /\ done = FALSE
        /\ c \in [kind : Kinds, G : Groups, H : Groups, n : Ns, k : Ks, s : Ss, mode : ModesC, grp : Grps, ch : Chs]
        /\ Documented(c.H) \subseteq Documented(c.G) /\ Dim[c.H] = Dim[c.G]
        /\ (c.kind \in {"pool", "global"} => c.grp)
        /\ c.k <= c.n
Next == ~done /\ done' = TRUE /\ UNCHANGED c
Spec == Init /\ [][Next]_vars

dim == Dim[c.G]
Rep(v) == [a \in 1..dim |-> v]
Layer(fmt) == [kind |-> c.kind, dims |-> dim, fmt |-> fmt, G |-> E[c.G], H |-> E[c.H], k |-> Rep(c.k), s |-> Rep(c.s),
               d |-> Rep(1), mode |-> c.mode, allow |-> FALSE, filters |-> 2, bias |-> TRUE, act |-> "linear",
               pool |-> "max", keep |-> FALSE, reps |-> RepsT[c.G][c.H]]
F == Layer("first")
N == Layer("last")

ShapeOf(L) == MakeShape(L, 2, [a \in 1..dim |-> IF a = 1 THEN c.n ELSE c.n + 1],
                        IF c.grp THEN <<Len(DomGroup(L))>> ELSE <<>>, c.ch)
(* channels first to last *)
ToLast(coords) == <<coords[1]>> \o SubSeq(coords, 3, Len(coords)) \o <<coords[2]>>
XF == TLCEval([s |-> ShapeOf(F), v |-> [o \in 1..Prod(ShapeOf(F)) |-> o]])
XN == TLCEval(Tensor(ShapeOf(N), LAMBDA cc : At(XF, <<cc[1], cc[Len(cc)]>> \o SubSeq(cc, 2, Len(cc) - 1))))
W(L) == LET ks == KernelShape(L, ShapeOf(L))
        IN  [kernel |-> [s |-> ks, v |-> [o \in 1..Prod(ks) |-> o]], bias |-> [s |-> <<2>>, v |-> <<5, 9>>]]

Value(L, x, cc) ==
  LET q == [a \in 1..dim |-> cc[SpAx(L)[a]]]
  IN  IF L.kind = "pool" THEN PoolItems(L, x, PoolPlan(L, x.s), cc[1], q, cc[GrAx(L)] + 1, cc[ChAx(L, TRUE)]).v
      ELSE IF L.kind = "global" THEN <<SumOf(GlobalItems(L, x, cc[1], cc[2])), MaxOf(GlobalItems(L, x, cc[1], cc[2]))>>
      ELSE ConvValue(L, W(L), x, ConvPlan(L, x.s), cc[1], q, cc[GrAx(L)] + 1, cc[ChAx(L, TRUE)])

SameAcceptance == done => Admissible(F, ShapeOf(F)) = Admissible(N, ShapeOf(N))
Agree ==
  (done /\ Admissible(F, ShapeOf(F)) = "ok") =>
    LET os == OutShape(F, ShapeOf(F)) st == TLCEval(Strides(os))
    IN  IF c.kind = "global"
        THEN /\ OutShape(N, ShapeOf(N)) = os
             /\ \A o \in 0..(Prod(os) - 1) : Value(F, XF, CoordsS(os, st, o)) = Value(N, XN, CoordsS(os, st, o))
        ELSE /\ OutShape(N, ShapeOf(N)) = ToLast(os)
             /\ KernelShape(F, ShapeOf(F)) = KernelShape(N, ShapeOf(N))
             /\ \A o \in 0..(Prod(os) - 1) :
                  Value(F, XF, CoordsS(os, st, o)) = Value(N, XN, ToLast(CoordsS(os, st, o)))
=============================================================================
