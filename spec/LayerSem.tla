------------------------------ MODULE LayerSem -----------------------------
(***************************************************************************)
(* What the layers compute, defined by sums over the group and the grid.   *)
(*                                                                         *)
(* A layer is a record                                                     *)
(*   kind   "conv" | "convT" | "pool" | "global"                           *)
(*   dims   1..3        fmt  "last" | "first"                              *)
(*   G, H   labellings (sequences of symmetries) of the group and subgroup *)
(*   k, s, d  kernel/pool size, strides and dilation per spatial axis      *)
(*   mode, allow        padding mode, allow_non_equivariance               *)
(*   filters, bias, act                                                    *)
(*   pool   "max" | "average",  reps  coset representatives (positions)    *)
(*   keep   keepdims of global pooling                                     *)
(* Weights are w.kernel, w.bias: tensors of integers.                      *)
(***************************************************************************)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE TLC
LOCAL INSTANCE Symmetry
LOCAL INSTANCE Tensors
LOCAL INSTANCE Actions
LOCAL INSTANCE Padding

(***************************************************************************)
(* Positions of the axes of a signal (1-based)                             *)
(***************************************************************************)
OnGroup(L, shape) == Len(shape) = L.dims + 3
SpAx(L) == [a \in 1..L.dims |-> IF L.fmt = "last" THEN a + 1 ELSE a + 2]
ChAx(L, grp) == IF L.fmt = "first" THEN 2 ELSE IF grp THEN L.dims + 3 ELSE L.dims + 2
GrAx(L) == IF L.fmt = "first" THEN L.dims + 3 ELSE L.dims + 2

MakeShape(L, batch, sp, grp, ch) ==
  IF L.fmt = "last"
  THEN <<batch>> \o sp \o grp \o <<ch>>
  ELSE <<batch, ch>> \o sp \o grp

Extents(L, shape) == [a \in 1..L.dims |-> shape[SpAx(L)[a]]]

KEff(L) == [a \in 1..L.dims |-> Dilated(L.k[a], L.d[a])]

DomGroup(L)    == IF L.kind = "convT" THEN L.H ELSE L.G   \* what a signal on the group lives on
ActGroup(L)    == IF L.kind = "convT" THEN L.G ELSE L.H   \* the group axis of the output

Pads(L, shape) ==
  LET n == Extents(L, shape)
  IN  TLCEval([a \in 1..L.dims |->
        AxisPad(n[a], KEff(L)[a], L.s[a], L.mode, L.allow, L.kind = "convT")])

(***************************************************************************)
(* Which inputs a layer accepts: "ok", "padding" or "shape"                *)
(***************************************************************************)
RankOk(L, shape) ==
  IF L.kind \in {"conv", "convT"} THEN Len(shape) \in {L.dims + 2, L.dims + 3}
  ELSE Len(shape) = L.dims + 3

GroupOk(L, shape) == OnGroup(L, shape) => L.kind = "global" \/ shape[GrAx(L)] = Len(DomGroup(L))

Admissible(L, shape) ==
  IF ~RankOk(L, shape) THEN "shape"
  ELSE IF ~GroupOk(L, shape) THEN "shape"
  ELSE IF L.kind # "global" /\ \E a \in 1..L.dims : ~Pads(L, shape)[a].ok THEN "padding"
  ELSE "ok"

(***************************************************************************)
(* Shapes                                                                  *)
(***************************************************************************)
ConvOut(L, shape) ==
  LET n == Extents(L, shape) P == Pads(L, shape)
  IN  [a \in 1..L.dims |-> OutSize(n[a], P[a].lo + P[a].hi + P[a].b, KEff(L)[a], L.s[a])]

(* transposed: valid padding gives the full output, same padding n * s *)
ConvTOut(L, shape) ==
  LET n == Extents(L, shape) P == Pads(L, shape)
  IN  [a \in 1..L.dims |->
        LET m == n[a] + P[a].lo + P[a].hi
        IN  IF IsSame(L.mode) THEN m * L.s[a] ELSE m * L.s[a] + Relu(KEff(L)[a] - L.s[a])]

OutShape(L, shape) ==
  CASE L.kind = "conv"   -> MakeShape(L, shape[1], ConvOut(L, shape), <<Len(ActGroup(L))>>, L.filters)
    [] L.kind = "convT"  -> MakeShape(L, shape[1], ConvTOut(L, shape), <<Len(ActGroup(L))>>, L.filters)
    [] L.kind = "pool"   -> MakeShape(L, shape[1], ConvOut(L, shape), <<Len(L.H)>>, shape[ChAx(L, TRUE)])
    [] L.kind = "global" ->
         IF L.keep THEN MakeShape(L, shape[1], [a \in 1..L.dims |-> 1], <<1>>, shape[ChAx(L, TRUE)])
         ELSE <<shape[1], shape[ChAx(L, TRUE)]>>

KernelShape(L, shape) ==
  LET grp == OnGroup(L, shape)
      cin == shape[ChAx(L, grp)] * (IF grp THEN Len(DomGroup(L)) ELSE 1)
  IN  IF L.kind = "conv" THEN L.k \o <<cin, L.filters>> ELSE L.k \o <<L.filters, cin>>

BiasShape(L) == <<L.filters>>

Activate(act, v) == IF act = "relu" /\ v < 0 THEN 0
                    ELSE IF act = "square" THEN v * v
                    ELSE IF act = "negate" THEN 0 - v ELSE v

(***************************************************************************)
(* Convolution.  Kernel offsets are enumerated by a flat offset in the     *)
(* kernel's spatial extents.                                               *)
(***************************************************************************)
(* for acting element i and kernel offset e: the flat offset g_i^-1 e *)
KernelMoves(acting, k) ==
  LET st == TLCEval(Strides(k))
  IN  [i \in 1..Len(acting) |->
        LET inv == TLCEval(InverseSym(acting[i]))
        IN  [e \in 1..Prod(k) |-> Dot(st, Source(inv, k, CoordsS(k, st, e - 1)))]]

(* everything about a call that does not depend on the output position *)
ConvPlan(L, xshape) ==
  LET grp == OnGroup(L, xshape)
      A   == ActGroup(L)
      D   == DomGroup(L)
  IN  [grp   |-> grp,
       cin   |-> xshape[ChAx(L, grp)],
       nd    |-> IF grp THEN Len(D) ELSE 1,
       n     |-> Extents(L, xshape),
       moves |-> TLCEval(KernelMoves(A, L.k)),
       quo   |-> TLCEval(IF grp THEN QuotientTable(A, D) ELSE [i \in 1..Len(A) |-> <<1>>]),
       xst   |-> TLCEval(Strides(xshape)),
       kst   |-> TLCEval(Strides(L.k)),
       taps  |-> Prod(L.k),
       P     |-> Pads(L, xshape)]

(* value of the kernel transformed by acting element i at kernel offset e (1-based), domain
   component j, input channel c, filter f (0-based) *)
KernelOffset(L, pl, i, e, j, c, f) ==
  LET jj == pl.quo[i][j + 1]
  IN  IF jj = 0 THEN -1
      ELSE IF L.kind = "conv"
      THEN ((pl.moves[i][e] * pl.nd + (jj - 1)) * pl.cin + c) * L.filters + f
      ELSE (pl.moves[i][e] * L.filters + f) * (pl.nd * pl.cin) + (jj - 1) * pl.cin + c

Seq1(n) == [a \in 1..n |-> a]

(* the sum at output coordinates (batch bb, spatial q, acting element i, filter f) *)
ConvValue(L, w, x, pl, bb, q, i, f) ==
  LET d   == L.dims
      sp  == SpAx(L)
      gst == IF pl.grp THEN pl.xst[GrAx(L)] ELSE 0
      cst == pl.xst[ChAx(L, pl.grp)]
      m   == pl.nd * pl.cin
      (* input position under kernel offset e, or -1 if it is in the padding *)
      Base(e) ==
        LET ke == CoordsS(L.k, pl.kst, e - 1)
            pos == [a \in 1..d |->
                     IF L.kind = "conv"
                     THEN q[a] * L.s[a] + ke[a] * L.d[a] - pl.P[a].lo - (pl.P[a].b \div 2)
                     ELSE LET keff == Dilated(L.k[a], L.d[a])
                              crop == IF IsSame(L.mode) THEN Relu(keff - L.s[a]) \div 2 ELSE 0
                              t == q[a] + crop - ke[a] * L.d[a]
                          IN  IF t % L.s[a] # 0 THEN -1 ELSE (t \div L.s[a]) - pl.P[a].lo]
        IN  IF \A a \in 1..d : pos[a] >= 0 /\ pos[a] < pl.n[a]
            THEN FoldLeft(LAMBDA acc, a : acc + pos[a] * pl.xst[sp[a]], bb * pl.xst[1], Seq1(d))
            ELSE -1
      Tap(e) ==
        LET base == Base(e)
        IN  IF base = -1 THEN 0
            ELSE FoldLeft(LAMBDA acc, z :
                   LET j  == (z - 1) \div pl.cin
                       c  == (z - 1) % pl.cin
                       ko == KernelOffset(L, pl, i, e, j, c, f)
                   IN  IF ko = -1 THEN acc
                       ELSE acc + w.kernel.v[ko + 1] * x.v[base + j * gst + c * cst + 1],
                   0, Seq1(m))
      total == FoldLeft(LAMBDA acc, e : acc + Tap(e), 0, Seq1(pl.taps))
  IN  Activate(L.act, total + (IF L.bias THEN w.bias.v[f + 1] ELSE 0))

(***************************************************************************)
(* Pooling.  The average is a pair <<sum, count>>.                         *)
(***************************************************************************)
PoolPlan(L, xshape) ==
  [n |-> Extents(L, xshape), xst |-> TLCEval(Strides(xshape)), kst |-> TLCEval(Strides(L.k)),
   P |-> Pads(L, xshape),
   (* members of the coset of element i of the subgroup, as positions in G *)
   coset |-> TLCEval([i \in 1..Len(L.H) |-> [r \in 1..Len(L.reps) |->
               Index(L.G, Compose(L.H[i], L.G[L.reps[r]]))]])]

PoolItems(L, x, pl, bb, q, i, c) ==
  (* the sequence of values in the window and coset; explicit padding counts as zero,
     the padding of the pooling operation itself does not count *)
  LET d   == L.dims
      sp  == SpAx(L)
      Win(e) ==
        LET ke == CoordsS(L.k, pl.kst, e - 1)
        IN  [a \in 1..d |-> q[a] * L.s[a] + ke[a] - pl.P[a].lo - (pl.P[a].b \div 2)]
      InGrid(pos) == \A a \in 1..d : pos[a] >= 0 /\ pos[a] < pl.n[a]
      InPadded(pos) == \A a \in 1..d : pos[a] >= 0 - pl.P[a].lo /\ pos[a] < pl.n[a] + pl.P[a].hi
      Val(pos, r) == x.v[bb * pl.xst[1]
                         + FoldLeft(LAMBDA acc, a : acc + pos[a] * pl.xst[sp[a]], 0, Seq1(d))
                         + (pl.coset[i][r] - 1) * pl.xst[GrAx(L)]
                         + c * pl.xst[ChAx(L, TRUE)] + 1]
      Windows == SelectSeq([e \in 1..Prod(L.k) |-> Win(e)], InPadded)
  IN  [ v |-> FlattenSeq([e \in 1..Len(Windows) |->
                [r \in 1..Len(L.reps) |-> IF InGrid(Windows[e]) THEN Val(Windows[e], r) ELSE 0]]) ]

MaxOf(seq) == FoldLeft(LAMBDA a, b : IF a > b THEN a ELSE b, seq[1], seq)
SumOf(seq) == FoldLeft(LAMBDA a, b : a + b, 0, seq)

(* a recorded value against a maximum or average; averages are recorded times scale, rounded *)
MatchesAggregate(pool, items, obs, scale) ==
  IF Len(items) = 0 THEN FALSE
  ELSE IF pool = "max" THEN obs = MaxOf(items) * scale
  ELSE IF obs > 2000000000 \div Len(items) \/ obs < 0 - 2000000000 \div Len(items) THEN FALSE   \* far from any average
  ELSE LET dlt == obs * Len(items) - SumOf(items) * scale
       IN  dlt <= Len(items) /\ 0 - dlt <= Len(items)

(* everything a global pooling aggregates for one batch entry and channel *)
GlobalItems(L, x, bb, c) ==
  LET st  == TLCEval(Strides(x.s))
      oth == [a \in 1..Len(x.s) |-> IF a = 1 \/ a = ChAx(L, TRUE) THEN 1 ELSE x.s[a]]
      ost == TLCEval(Strides(oth))
  IN  [o \in 1..Prod(oth) |-> x.v[Dot(st, CoordsS(oth, ost, o - 1)) + bb * st[1] + c * st[ChAx(L, TRUE)] + 1]]

(***************************************************************************)
(* The verdict on a recorded call: input tensor x, and output y given by   *)
(* its shape y.s and its values y.v at the flat offsets y.at.              *)
(***************************************************************************)
CallVerdict(L, w, x, y, scale) ==
  LET os  == TLCEval(OutShape(L, x.s))
      ost == TLCEval(Strides(os))
      sp  == SpAx(L)
      grp == L.kind # "global"
      ch  == ChAx(L, TRUE)
      cpl == TLCEval(ConvPlan(L, x.s))
      ppl == TLCEval(PoolPlan(L, x.s))
      Good(z) ==
        LET c == CoordsS(os, ost, y.at[z])
            q == [a \in 1..L.dims |-> c[sp[a]]]
        IN  CASE L.kind \in {"conv", "convT"} ->
                   y.v[z] = scale * ConvValue(L, w, x, cpl, c[1], q, c[GrAx(L)] + 1, c[ch])
              [] L.kind = "pool" ->
                   MatchesAggregate(L.pool, PoolItems(L, x, ppl, c[1], q, c[GrAx(L)] + 1, c[ch]).v, y.v[z], scale)
              [] L.kind = "global" ->
                   MatchesAggregate(L.pool, GlobalItems(L, x, c[1], IF L.keep THEN c[ch] ELSE c[2]), y.v[z], scale)
  IN  IF y.s # os THEN "output shape"
      ELSE IF \E z \in 1..Len(y.at) : y.at[z] >= Prod(os) THEN "malformed record"
      ELSE IF \A z \in 1..Len(y.at) : Good(z) THEN "ok"
      ELSE "output values"
=============================================================================
