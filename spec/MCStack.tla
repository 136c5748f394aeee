------------------------------- MODULE MCStack -----------------------------
(***************************************************************************)
(* Chains of layers, each of which takes the signal of the previous one on *)
(* the subgroup that one passed to: a convolution of G to H, then a        *)
(* convolution, a pooling or a transposed convolution of H to K, then      *)
(* global pooling.  The chain commutes with every element of K, and the    *)
(* end is invariant.                                                       *)
(*                                                                         *)
(* Signals and weights here are generic values rather than all values: the *)
(* layers on their own are treated for all values in MCConv and MCPool.    *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC,
        Symmetry, Tensors, Actions, Padding, LayerSem

CONSTANTS Groups, Ns, Ks, Ss, ModesC, Seconds, Lifts

VARIABLES c, done
vars == <<c, done>>

Tup(q) == [p |-> [a \in 1..Len(q.p) |-> q.p[a]], s |-> [a \in 1..Len(q.s) |-> q.s[a]]]
E == TLCEval([n \in GroupNames |-> TLCEval(SetToSeq({ Tup(q) : q \in Documented(n) }))])
Sub(H, G) == Dim[H] = Dim[G] /\ Documented(H) \subseteq Documented(G)

Reps(G, H) ==
  LET cosets == { { Compose(h, x) : h \in Documented(H) } : x \in Documented(G) }
      pick(S) == IF IdentitySym(Dim[G]) \in S THEN IdentitySym(Dim[G]) ELSE CHOOSE x \in S : TRUE
  IN  SetToSeq({ Index(E[G], Tup(pick(S))) : S \in cosets })
RepsT == TLCEval([G \in Groups |-> TLCEval([H \in { K \in Groups : Sub(K, G) } |-> TLCEval(Reps(G, H))])])

Init == /\ done = FALSE
        /\ c \in [G : Groups, H : Groups, K : Groups, n : Ns, k : Ks, s : Ss, mode : ModesC, second : Seconds, lift : Lifts]
        /\ Sub(c.H, c.G)
        /\ IF c.second = "convT" THEN c.K = c.H ELSE Sub(c.K, c.H)
Next == ~done /\ done' = TRUE /\ UNCHANGED c
Spec == Init /\ [][Next]_vars

dim == Dim[c.G]
Rep(v) == [a \in 1..dim |-> v]
Layer(kind, G, H, k, s, mode, act) ==
  [kind |-> kind, dims |-> dim, fmt |-> "last", G |-> E[G], H |-> E[H], k |-> Rep(k), s |-> Rep(s), d |-> Rep(1),
   mode |-> mode, allow |-> FALSE, filters |-> 1, bias |-> TRUE, act |-> act, pool |-> "max", keep |-> FALSE,
   reps |-> IF kind = "pool" THEN RepsT[G][H] ELSE <<>>]

L1 == Layer("conv", c.G, c.H, c.k, c.s, c.mode, "relu")
L2 == IF c.second = "convT" THEN Layer("convT", c.H, c.K, 2, 2, "valid", "linear")
      ELSE IF c.second = "pool" THEN Layer("pool", c.H, c.K, 2, 1, "valid_equiv", "linear")
      ELSE Layer("conv", c.H, c.K, 2, 1, "valid_equiv", "linear")

Generic(sh, m, t) == [s |-> sh, v |-> [o \in 1..Prod(sh) |-> ((o * o * 7 + o * 3 + t) % m) - (m \div 2)]]

Apply(L, x) ==
  LET os == TLCEval(OutShape(L, x.s))
      sp == SpAx(L)
      ks == KernelShape(L, x.s)
      w  == TLCEval([kernel |-> IF L.kind = "pool" THEN [s |-> <<>>, v |-> <<>>] ELSE Generic(ks, 13, L.k[1]),
                     bias |-> [s |-> <<1>>, v |-> <<2>>]])
      cp == TLCEval(ConvPlan(L, x.s))
      pp == TLCEval(PoolPlan(L, x.s))
      F(cc) == LET q == [a \in 1..dim |-> cc[sp[a]]]
               IN  IF L.kind = "pool" THEN MaxOf(PoolItems(L, x, pp, cc[1], q, cc[GrAx(L)] + 1, 0).v)
                   ELSE ConvValue(L, w, x, cp, cc[1], q, cc[GrAx(L)] + 1, 0)
  IN  TLCEval(Tensor(os, F))

XShape == MakeShape(L1, 1, Rep(c.n), IF c.lift THEN <<>> ELSE <<Len(L1.G)>>, 1)
X == Generic(XShape, 17, 5)

Accepted == /\ Admissible(L1, XShape) = "ok"
            /\ \A a \in 1..dim : ConvOut(L1, XShape)[a] > 0
            /\ Admissible(L2, OutShape(L1, XShape)) = "ok"
            /\ \A a \in 1..dim : Extents(L2, OutShape(L1, XShape))[a] >= 2

Chain(x) == Apply(L2, Apply(L1, x))
In(g, x) == TLCEval(Act(g, x, SpAx(L1), IF c.lift THEN 0 ELSE GrAx(L1), L1.G, L1.G))
Out(g, y) == Act(g, y, SpAx(L2), GrAx(L2), E[c.K], E[c.K])

Equivariant ==
  (done /\ Accepted) =>
    LET y == TLCEval(Chain(X))
    IN  \A i \in 1..Len(E[c.K]) : LET z == TLCEval(Chain(In(E[c.K][i], X)))
                                  IN  /\ z = Out(E[c.K][i], y)
                                      /\ SumOf(z.v) = SumOf(y.v) /\ MaxOf(z.v) = MaxOf(y.v)
=============================================================================
