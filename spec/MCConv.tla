------------------------------- MODULE MCConv ------------------------------
(***************************************************************************)
(* Equivariance of convolution and transposed convolution, as LayerSem     *)
(* defines them, under every element of the acting subgroup.               *)
(*                                                                         *)
(* Both are bilinear in kernel and input.  The input is 1 at one position, *)
(* every position in turn, and the kernel has distinct weights, so the     *)
(* output shows which weight (or, with dilation and stride, none) connects *)
(* every input to every output: the result holds for all kernels and all   *)
(* inputs.  A bias that is the same for all elements and an activation     *)
(* that acts entry by entry commute with a permutation of the entries.     *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC,
        Symmetry, Tensors, Actions, Padding, LayerSem

CONSTANTS Kinds, Groups, Ns, Ks, Ss, Ds, ModesC, Grps, Allow

VARIABLES c, done
vars == <<c, done>>

Tup(q) == [p |-> [a \in 1..Len(q.p) |-> q.p[a]], s |-> [a \in 1..Len(q.s) |-> q.s[a]]]
E == TLCEval([n \in GroupNames |-> TLCEval(SetToSeq({ Tup(q) : q \in Documented(n) }))])

Init == /\ done = FALSE
        /\ c \in [kind : Kinds, G : Groups, H : Groups, n : Ns, k : Ks, s : Ss, d : Ds, mode : ModesC, grp : Grps]
        /\ Documented(c.H) \subseteq Documented(c.G) /\ Dim[c.H] = Dim[c.G]
        /\ (c.s > 1 => c.d = 1)
        /\ Dilated(c.k, c.d) <= c.n
        (* what the documentation promises for transposed convolutions *)
        /\ c.kind = "convT" => (c.s = 1 /\ (IsEquivMode(c.mode) => ~(IsSame(c.mode) /\ Dilated(c.k, c.d) % 2 = 0)))
                                \/ (c.s = c.k /\ c.d = 1 /\ ~IsSame(c.mode))
Next == ~done /\ done' = TRUE /\ UNCHANGED c
Spec == Init /\ [][Next]_vars

dim == Dim[c.G]
Rep(v) == [a \in 1..dim |-> v]
L == [kind |-> c.kind, dims |-> dim, fmt |-> "last", G |-> E[c.G], H |-> E[c.H], k |-> Rep(c.k), s |-> Rep(c.s),
      d |-> Rep(c.d), mode |-> c.mode, allow |-> Allow, filters |-> 1, bias |-> FALSE, act |-> "linear",
      pool |-> "max", keep |-> FALSE, reps |-> <<>>]

XShape == MakeShape(L, 1, Rep(c.n), IF c.grp THEN <<Len(DomGroup(L))>> ELSE <<>>, 1)
W == LET ks == KernelShape(L, XShape)
     IN  [kernel |-> [s |-> ks, v |-> [o \in 1..Prod(ks) |-> o]], bias |-> [s |-> <<1>>, v |-> <<0>>]]

Delta(o) == [s |-> XShape, v |-> [z \in 1..Prod(XShape) |-> IF z = o THEN 1 ELSE 0]]

Y(o) == LET os == TLCEval(OutShape(L, XShape))
            pl == TLCEval(ConvPlan(L, XShape))
            sp == SpAx(L)
            x  == TLCEval(Delta(o))
            F(cc) == ConvValue(L, W, x, pl, cc[1], [a \in 1..dim |-> cc[sp[a]]], cc[GrAx(L)] + 1, 0)
        IN  Tensor(os, F)

(* where the symmetry g moves input position o *)
Moved(g, o) == LET gx == TLCEval(Act(g, Delta(o), SpAx(L), IF c.grp THEN GrAx(L) ELSE 0, DomGroup(L), DomGroup(L)))
               IN  CHOOSE z \in 1..Len(gx.v) : gx.v[z] = 1

Accepted == Admissible(L, XShape) = "ok"
Commutes ==
  LET ys == TLCEval([o \in 1..Prod(XShape) |-> TLCEval(Y(o))])
  IN  \A i \in 1..Len(L.H) : \A o \in 1..Prod(XShape) :
        LET gy == Act(L.H[i], ys[o], SpAx(L), GrAx(L), ActGroup(L), ActGroup(L))
        IN  gy = ys[Moved(L.H[i], o)]

(* accepted configurations are equivariant *)
Equivariant == (done /\ Accepted) => Commutes

(* the kernels used are the transforms, as signals on the grid or on the group, of the kernel; the
   one of the identity is the kernel itself *)
KernelTransformed ==
  done => LET pl == TLCEval(ConvPlan(L, XShape))
              A  == ActGroup(L)
              D  == DomGroup(L)
              split == L.k \o (IF L.kind = "conv" THEN <<pl.nd, pl.cin, 1>> ELSE <<1, pl.nd, pl.cin>>)
              ga == IF ~c.grp THEN 0 ELSE IF L.kind = "conv" THEN dim + 1 ELSE dim + 2
              w  == [s |-> split, v |-> W.kernel.v]
              sp == [a \in 1..dim |-> a]
              T(i) == Act(A[i], w, sp, ga, D, D)
              st == TLCEval(Strides(split))
              Used(i, cc) ==
                LET e == Dot(TLCEval(Strides(L.k)), [a \in 1..dim |-> cc[a]]) + 1
                    j == IF L.kind = "conv" THEN cc[dim + 1] ELSE cc[dim + 2]
                    ko == KernelOffset(L, pl, i, e, j, 0, 0)
                IN  IF ko = -1 THEN 0 ELSE W.kernel.v[ko + 1]
          IN  \A i \in 1..Len(A) :
                /\ LET t == TLCEval(T(i)) IN \A o \in 0..(Prod(split) - 1) : t.v[o + 1] = Used(i, CoordsS(split, st, o))
                /\ (A[i] = IdentitySym(dim) => \A o \in 0..(Prod(split) - 1) : Used(i, CoordsS(split, st, o)) = w.v[o + 1])

(* and a configuration that is refused because of its padding would not be, for a group that reverses
   an axis: the check is not stricter than it has to be *)
Reverses == \E i \in 1..Len(L.H) : \E a \in 1..dim : L.H[i].s[a] = -1
Refused == LET L0 == [L EXCEPT !.allow = FALSE] IN Admissible(L0, XShape) = "padding"
Sharp == (done /\ ~IsEquivMode(c.mode) /\ c.kind = "conv" /\ Refused /\ Reverses) =>
            LET os == OutShape([L EXCEPT !.allow = TRUE], XShape) IN Prod(os) > 0 => ~Commutes
=============================================================================
