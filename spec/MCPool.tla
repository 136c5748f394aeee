------------------------------- MODULE MCPool ------------------------------
(***************************************************************************)
(* Equivariance of group pooling and invariance of global pooling.  The    *)
(* input has distinct values, so what a pooling aggregates for an output   *)
(* is known from the values, whatever the aggregate: the result holds for  *)
(* all inputs, maximum and average.                                        *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC,
        Symmetry, Tensors, Actions, Padding, LayerSem

CONSTANTS Groups, Ns, Ks, Ss, ModesC, Allow, OddToo

VARIABLES c, done
vars == <<c, done>>

Tup(q) == [p |-> [a \in 1..Len(q.p) |-> q.p[a]], s |-> [a \in 1..Len(q.s) |-> q.s[a]]]
E == TLCEval([n \in GroupNames |-> TLCEval(SetToSeq({ Tup(q) : q \in Documented(n) }))])

(* coset representatives of H in G: one of each coset H c, the identity for H itself *)
Reps(G, H) ==
  LET cosets == { { Compose(h, x) : h \in Documented(H) } : x \in Documented(G) }
      pick(S) == IF IdentitySym(Dim[G]) \in S THEN IdentitySym(Dim[G]) ELSE CHOOSE x \in S : TRUE
  IN  SetToSeq({ Index(E[G], Tup(pick(S))) : S \in cosets })

RepsT == TLCEval([G \in Groups |-> TLCEval([H \in { K \in Groups : Documented(K) \subseteq Documented(G) } |->
                    TLCEval(Reps(G, H))])])

(* built-in padding that is odd, and made even by zeros on one side: the zeros count, the built-in
   padding on the other side does not *)
Odd == LET b == BuiltIn(c.n, c.k, c.s, IsSame(c.mode), FALSE)
       IN  IsEquivMode(c.mode) /\ b % 2 = 1

Init == /\ done = FALSE
        /\ c \in [G : Groups, H : Groups, n : Ns, k : Ks, s : Ss, mode : ModesC]
        /\ Documented(c.H) \subseteq Documented(c.G) /\ Dim[c.H] = Dim[c.G]
        /\ (~OddToo => ~Odd)
Next == ~done /\ done' = TRUE /\ UNCHANGED c
Spec == Init /\ [][Next]_vars

dim == Dim[c.G]
Rep(v) == [a \in 1..dim |-> v]
L == [kind |-> "pool", dims |-> dim, fmt |-> "last", G |-> E[c.G], H |-> E[c.H], k |-> Rep(c.k), s |-> Rep(c.s),
      d |-> Rep(1), mode |-> c.mode, allow |-> Allow, filters |-> 1, bias |-> FALSE, act |-> "linear",
      pool |-> "max", keep |-> FALSE, reps |-> RepsT[c.G][c.H]]

XShape == MakeShape(L, 1, Rep(c.n), <<Len(L.G)>>, 1)
X == [s |-> XShape, v |-> [o \in 1..Prod(XShape) |-> o]]

(* what is aggregated for every output: the set of values, and the number of zeros *)
Summary(items) == [vals |-> { items[z] : z \in 1..Len(items) } \ {0}, n |-> Len(items)]
Y(x) == LET os == TLCEval(OutShape(L, XShape))
            pl == TLCEval(PoolPlan(L, XShape))
            sp == SpAx(L)
            F(cc) == Summary(PoolItems(L, x, pl, cc[1], [a \in 1..dim |-> cc[sp[a]]], cc[GrAx(L)] + 1, 0).v)
        IN  Tensor(os, F)

Accepted == Admissible(L, XShape) = "ok"
Commutes == LET y == TLCEval(Y(X))
            IN  \A i \in 1..Len(L.H) :
                  Act(L.H[i], y, SpAx(L), GrAx(L), L.H, L.H)
                    = Y(TLCEval(Act(L.H[i], X, SpAx(L), GrAx(L), L.G, L.G)))

Equivariant == (done /\ Accepted) => Commutes

(* with stride equal to the size and nothing padded, every value is used exactly once *)
Partition == (done /\ Accepted /\ c.s = c.k /\ c.n % c.k = 0) =>
               LET y == TLCEval(Y(X))
               IN  /\ UNION { y.v[o].vals : o \in 1..Len(y.v) } = { X.v[o] : o \in 1..Len(X.v) }
                   /\ \A o \in 1..Len(y.v) : y.v[o].n = Cardinality(y.v[o].vals)
                   /\ \A o, p \in 1..Len(y.v) : o # p => y.v[o].vals \cap y.v[p].vals = {}

(* global pooling uses everything, whatever the transform *)
GlobalInvariant ==
  done => LET all == { X.v[o] : o \in 1..Len(X.v) }
              used(x) == LET it == GlobalItems([L EXCEPT !.kind = "global"], x, 0, 0)
                         IN  [vals |-> { it[z] : z \in 1..Len(it) }, n |-> Len(it)]
          IN  /\ used(X) = [vals |-> all, n |-> Len(X.v)]
              /\ \A i \in 1..Len(L.G) : used(TLCEval(Act(L.G[i], X, SpAx(L), GrAx(L), L.G, L.G))) = used(X)
=============================================================================
