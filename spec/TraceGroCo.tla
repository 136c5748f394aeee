----------------------------- MODULE TraceGroCo ----------------------------
(***************************************************************************)
(* Validation of sessions recorded from the real code.  A session is a     *)
(* sequence of events; every event has to be a step of GroCo (with the     *)
(* semantics of LayerSem), or an observation that the specification        *)
(* explains.  The verdict on a session is "ok" or names the first event    *)
(* and clause that fails.                                                  *)
(*                                                                         *)
(* The file named by the environment variable TRACE holds                  *)
(*   groups    for every group: its order, tables, and the transforms of   *)
(*             a probe signal by all of its elements                       *)
(*   sessions  the sessions                                                *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils,
        Symmetry, Tensors, Axes, Actions, Padding, LayerSem

File == JsonDeserialize(IOEnv.TRACE)
Sessions == File.sessions
Tables == File.groups

(***************************************************************************)
(* The labelling of the elements of every group is inferred from what they *)
(* do to the probe signal, of extent 3 in all directions and with distinct *)
(* values.                                                                 *)
(***************************************************************************)
Names == { n \in GroupNames : n \in DOMAIN Tables }

ProbeMatches(g, d, probe, out) ==
  LET n   == [a \in 1..d |-> 3]
      st  == Strides(n)
      inv == InverseSym(g)
  IN  \A o \in 0..(Len(probe) - 1) :
        out[o + 1] = probe[Dot(st, Source(inv, n, CoordsS(n, st, o))) + 1]

NoSymmetry == [p |-> <<>>, s |-> <<>>]

InferLabel(d, probe, out) ==
  IF Len(out) = Len(probe) /\ \E g \in AllSymmetries(d) : ProbeMatches(g, d, probe, out)
  THEN LET g == CHOOSE g \in AllSymmetries(d) : ProbeMatches(g, d, probe, out)
       IN  [p |-> [a \in 1..d |-> g.p[a]], s |-> [a \in 1..d |-> g.s[a]]]
  ELSE NoSymmetry

Labels == TLCEval([n \in Names |->
            TLCEval([i \in 1..Len(Tables[n].acted) |->
               TLCEval(InferLabel(Dim[n], Tables[n].probe, Tables[n].acted[i]))])])

(***************************************************************************)
(* Configurations as recorded, completed with labellings                   *)
(***************************************************************************)
Lower(m) == CASE m \in {"VALID", "Valid"} -> "valid" [] m \in {"SAME", "Same"} -> "same"
              [] m \in {"VALID_EQUIV", "Valid_Equiv"} -> "valid_equiv"
              [] m \in {"SAME_EQUIV", "Same_Equiv"} -> "same_equiv" [] OTHER -> m

SubName(c) == IF c.sub = "" THEN c.group ELSE c.sub

Listed(n) == DOMAIN Tables[n].subgroup

(* 1-based positions, in the labelling of group n, of a recorded list of indices *)
Full(c) ==
  IF c.kind = "global" THEN [c EXCEPT !.kind = "global"]
  ELSE c @@ [G |-> Labels[c.group], H |-> Labels[SubName(c)],
             reps |-> IF c.kind = "pool"
                      THEN [r \in 1..Len(Tables[c.group].cosets[SubName(c)]) |->
                              Tables[c.group].cosets[SubName(c)][r] + 1]
                      ELSE <<>>,
             mode |-> Lower(c.mode0)]

GConstructible(c) ==
  \/ c.kind = "global"
  \/ /\ c.group \in Names
     /\ SubName(c) \in Listed(c.group)
     /\ c.kind = "pool" \/ Dim[c.group] = c.dims
     /\ Lower(c.mode0) \in Modes

(* A kernel that differs along axes that the group exchanges has no transform *)
Exchanged(G, d, k) == \E i \in 1..Len(G) : \E a \in 1..d : k[a] # k[G[i].p[a]]

GBuildable(c, shape) ==
  LET L == TLCEval(Full(c))
  IN  IF c.kind \in {"conv", "convT"} /\ Exchanged(L.G, c.dims, c.k) THEN "kernel"
      ELSE Admissible(L, shape)

(* what a configuration, as reported, tells of a layer; what it leaves out is for its behaviour to tell *)
ToldRight(c, told) ==
  LET says(f, v) == f \in DOMAIN told => told[f] = v
  IN  IF c.kind = "global" THEN says("fmt", c.fmt) /\ says("keep", c.keep) ELSE
      /\ says("group", c.group) /\ says("fmt", c.fmt)
      /\ "sub" \in DOMAIN told => (IF told.sub = "" THEN c.group ELSE told.sub) = SubName(c)
      /\ says("mode", Lower(c.mode0)) /\ says("allow", c.allow)
      /\ says("k", c.k) /\ says("s", c.s)
      /\ c.kind # "pool" => says("d", c.d) /\ says("filters", c.filters) /\ says("bias", c.bias)

GSignature(c, shape) ==
  LET L == IF c.kind = "global" THEN c ELSE Full(c)
  IN  [built |-> TRUE,
       grp   |-> IF c.kind = "global" THEN TRUE ELSE OnGroup(L, shape),
       cin   |-> IF c.kind \in {"conv", "convT"} THEN shape[ChAx(L, OnGroup(L, shape))] ELSE 0]

GFitsWeights(c, shape, w) ==
  c.kind \in {"conv", "convT"} =>
    LET L == Full(c)
    IN  /\ w.kernel.s = KernelShape(L, shape)
        /\ w.bias.s = (IF c.bias THEN BiasShape(L) ELSE <<0>>)

GAgrees(c, w, x, y) == CallVerdict(Full(c), w, x, y, y.scale)

VARIABLES sid, l, verdict, layers
vars == <<sid, l, verdict, layers>>

M == INSTANCE GroCo WITH Constructible <- GConstructible, Buildable <- GBuildable,
                         Signature <- GSignature, FitsWeights <- GFitsWeights,
                         Agrees <- GAgrees

Ev == Sessions[sid][l]

(***************************************************************************)
(* Group tables (P01, P02)                                                 *)
(***************************************************************************)
Unique(seq) == Cardinality({ seq[i] : i \in 1..Len(seq) }) = Len(seq)
Labelled(Lb) == \A i \in 1..Len(Lb) : Lb[i] # NoSymmetry

GroupVerdict(n, T, Lb) ==
  LET N == Len(Lb)
  IN  IF ~Labelled(Lb) THEN "an element acts as no symmetry of the grid"
      ELSE IF T.order # N THEN "order is not the number of transformations"
      ELSE IF ~Unique(Lb) THEN "two elements act the same"
      ELSE IF { Lb[i] : i \in 1..N } # Documented(n) THEN "not the documented symmetries"
      ELSE IF Lb[1] # IdentitySym(Dim[n]) THEN "element 0 is not the identity"
      ELSE IF Len(T.composition) # N \/ \E i \in 1..N : Len(T.composition[i]) # N THEN "size of the composition table"
      ELSE IF \E i, j \in 1..N : T.composition[i][j] \notin 0..(N - 1) THEN "entry of the composition table"
      ELSE IF \E i, j \in 1..N : Lb[T.composition[i][j] + 1] # Compose(Lb[i], Lb[j]) THEN "composition"
      ELSE IF Len(T.inverses) # N THEN "size of the table of inverses"
      ELSE IF \E i \in 1..N : T.inverses[i] \notin 0..(N - 1) THEN "entry of the table of inverses"
      ELSE IF \E i \in 1..N : Lb[T.inverses[i] + 1] # InverseSym(Lb[i]) THEN "inverses"
      ELSE "ok"

(* the subgroup called m of a group with tables T and labelling Lb *)
SubgroupVerdict(T, Lb, d, m) ==
  LET N == Len(Lb)
      S == T.subgroup[m]
      R == T.cosets[m]
      Is == { Lb[S[i] + 1] : i \in 1..Len(S) }
  IN  IF m \notin Names THEN "subgroup is no known group"
      ELSE IF m \notin DOMAIN T.subgroup THEN "subgroup missing"
      ELSE IF ~Labelled(Lb) \/ ~Labelled(Labels[m]) THEN "an element acts as no symmetry of the grid"
      ELSE IF \E i \in 1..Len(S) : S[i] \notin 0..(N - 1) THEN "subgroup index out of range"
      ELSE IF ~IsGroupOf(Is, d) THEN "subgroup not closed"
      ELSE IF Len(S) # Len(Labels[m]) THEN "order of the subgroup"
      ELSE IF \E i \in 1..Len(S) : Lb[S[i] + 1] # Labels[m][i] THEN "elements of the subgroup and of the group of that name"
      ELSE IF m \notin DOMAIN T.cosets THEN "coset representatives missing"
      ELSE IF \E i \in 1..Len(R) : R[i] \notin 0..(N - 1) THEN "coset representative out of range"
      ELSE IF 0 \notin { R[i] : i \in 1..Len(R) } THEN "identity is no coset representative"
      ELSE IF Len(R) * Len(S) # N THEN "number of coset representatives"
      ELSE IF Cardinality({ Compose(Lb[S[i] + 1], Lb[R[j] + 1]) : i \in 1..Len(S), j \in 1..Len(R) }) # N
           THEN "cosets overlap"
      ELSE "ok"

LabelsOf(n, T) == [i \in 1..Len(T.acted) |-> InferLabel(Dim[n], T.probe, T.acted[i])]

(***************************************************************************)
(* The action (P03, P04): e.x acted on with e.acting, e.dom the group that *)
(* e.x lives on or "none"; axes as given to the implementation.            *)
(***************************************************************************)
ActionEventVerdict(e) ==
  LET r  == Len(e.x.s)
      sp == [a \in 1..Len(e.sp) |-> Ax(e.sp[a], r)]
      na == Ax(e.new, r + 1)
      ga == IF e.dom = "none" THEN 0 ELSE Ax(e.ga, r)
      dm == IF e.dom = "none" THEN <<>> ELSE Labels[e.dom]
  IN  IF e.out # "ok" THEN "action raised an exception"
      ELSE IF Len(e.y.v) # Prod(e.y.s) THEN "malformed record"
      ELSE ActionVerdict(e.x, e.y, Labels[e.acting], sp, na, ga, dm, dm)

(***************************************************************************)
(* Equivariance of a recorded function (P06 to P09, P16, P21): e.x stacks  *)
(* a signal and its transforms by the elements e.elems (0-based, of group  *)
(* e.acting) along the batch, nb entries each; e.y stacks the results.     *)
(***************************************************************************)
EquivVerdict(e) ==
  LET L  == [dims |-> e.dims, fmt |-> e.fmt]
      sp == SpAx(L)
      A  == Labels[e.acting]
      xg == IF e.xdom = "none" THEN 0 ELSE GrAx(L)
      yg == IF e.ydom = "none" THEN 0 ELSE GrAx(L)
      xd == IF e.xdom = "none" THEN <<>> ELSE Labels[e.xdom]
      yd == IF e.ydom = "none" THEN <<>> ELSE Labels[e.ydom]
      N  == Len(e.elems)
  IN  IF e.out # "ok" THEN "ok"     \* the call events say whether it may raise
      ELSE IF e.y.s[1] # e.nb * (N + 1) THEN "batch size of the output"
      ELSE IF \E i \in 1..N : ~PartIsTransform(e.x, i, A[e.elems[i] + 1], sp, xg, xd, e.nb) THEN "malformed record"
      ELSE IF e.invariant
      THEN IF \A i \in 1..N : \A o \in 1..(e.nb * Strides(e.y.s)[1]) :
                LET dlt == e.y.v[i * e.nb * Strides(e.y.s)[1] + o] - e.y.v[o]
                IN  dlt <= e.tol /\ 0 - dlt <= e.tol
           THEN "ok" ELSE "not invariant"
      ELSE IF \E i \in 1..N : OutExtents(A[e.elems[i] + 1], Extents(L, e.y.s)) # Extents(L, e.y.s)
           THEN "not equivariant: output grid not preserved"
      ELSE IF e.tol = 0
      THEN IF \A i \in 1..N : PartIsTransform(e.y, i, A[e.elems[i] + 1], sp, yg, yd, e.nb)
           THEN "ok" ELSE "not equivariant"
      ELSE IF \A i \in 1..N :
                LET y0  == [s |-> [e.y.s EXCEPT ![1] = e.nb], v |-> SubSeq(e.y.v, 1, e.nb * Strides(e.y.s)[1])]
                    gy  == TLCEval(Act(A[e.elems[i] + 1], y0, sp, yg, yd, yd))
                IN  \A o \in 1..Len(gy.v) :
                      LET dlt == e.y.v[i * Len(gy.v) + o] - gy.v[o]
                      IN  dlt <= e.tol /\ 0 - dlt <= e.tol
           THEN "ok" ELSE "not equivariant"

(* the same for a single element, where the transformed input may have another shape *)
Equiv1Verdict(e) ==
  LET L  == [dims |-> e.dims, fmt |-> e.fmt]
      sp == SpAx(L)
      g  == Labels[e.acting][e.elem + 1]
      xg == IF e.xdom = "none" THEN 0 ELSE GrAx(L)
      yg == IF e.ydom = "none" THEN 0 ELSE GrAx(L)
      xd == IF e.xdom = "none" THEN <<>> ELSE Labels[e.xdom]
      yd == IF e.ydom = "none" THEN <<>> ELSE Labels[e.ydom]
  IN  IF Act(g, e.x, sp, xg, xd, xd) # e.gx THEN "malformed record"
      ELSE IF e.out # e.gout THEN "raises for a signal but not for its transform"
      ELSE IF e.out # "ok" THEN "ok"
      ELSE IF Act(g, e.y, sp, yg, yd, yd) = e.gy THEN "ok" ELSE "not equivariant"

(***************************************************************************)
(* The padding layer on its own (P10)                                      *)
(***************************************************************************)
PadVerdict(e) ==
  LET sp == [a \in 1..e.dims |-> IF e.fmt = "last" THEN a + 1 ELSE a + 2]
      P  == TLCEval([a \in 1..e.dims |->
              AxisPad(e.x.s[sp[a]], Dilated(e.k[a], e.d[a]), e.s[a], Lower(e.mode0), e.allow, e.transpose)])
      ok == \A a \in 1..e.dims : P[a].ok
      r  == Len(e.x.s)
      os == [z \in 1..r |-> IF \E a \in 1..e.dims : sp[a] = z
                            THEN LET a == CHOOSE a \in 1..e.dims : sp[a] = z
                                 IN  e.x.s[z] + P[a].lo + P[a].hi
                            ELSE e.x.s[z]]
      lo == [z \in 1..r |-> IF \E a \in 1..e.dims : sp[a] = z
                            THEN P[CHOOSE a \in 1..e.dims : sp[a] = z].lo ELSE 0]
      ost == TLCEval(Strides(os))
      xst == TLCEval(Strides(e.x.s))
      Exp(o) == LET c == CoordsS(os, ost, o)
                    p == [z \in 1..r |-> c[z] - lo[z]]
                IN  IF \A z \in 1..r : p[z] >= 0 /\ p[z] < e.x.s[z] THEN e.x.v[Dot(xst, p) + 1] ELSE 0
  IN  IF ~ok /\ e.out = "ok" THEN "no exception although padding is impossible or not permitted"
      ELSE IF ~ok THEN (IF e.err = "ValueError" THEN "ok" ELSE "not a ValueError")
      ELSE IF e.out # "ok" THEN "exception although there is a padding"
      ELSE IF e.y.s # os THEN "amount of padding"
      ELSE IF Len(e.y.v) # Prod(os) THEN "malformed record"
      ELSE IF \A o \in 0..(Len(e.y.v) - 1) : e.y.v[o + 1] = Exp(o) THEN "ok"
      ELSE "content or position of the padding"

(***************************************************************************)
(* The equivariance check (P17).  e.y the function's result on e.x, e.gx   *)
(* and e.gy stack the transforms and their results, e.val the deviation.   *)
(***************************************************************************)
Abs(v) == IF v < 0 THEN 0 - v ELSE v
CheckVerdict(e) ==
  LET sp == [a \in 1..Len(e.sp) |-> Ax(e.sp[a], Len(e.x.s))]
      A  == Labels[e.acting]
      ga == IF e.dom = "none" THEN 0 ELSE Ax(e.ga, Len(e.x.s))
      gt == IF e.tgt = "none" THEN 0 ELSE Ax(e.ga, Len(e.y.s))
      xd == IF e.dom = "none" THEN <<>> ELSE Labels[e.dom]
      yd == IF e.tgt = "none" THEN <<>> ELSE Labels[e.tgt]
      full == Labels[e.group]
      N  == Len(A)
      sz == Len(e.gy.v) \div N
      dev(i) == LET gy == TLCEval(Act(A[i], e.y, sp, gt, yd, yd))
                IN  FoldLeft(LAMBDA m, o : LET z == Abs(e.gy.v[(i - 1) * sz + o] - gy.v[o])
                                           IN  IF z > m THEN z ELSE m, 0, [o \in 1..sz |-> o])
      all == FoldLeft(LAMBDA m, i : LET z == dev(i) IN IF z > m THEN z ELSE m, 0, [i \in 1..N |-> i])
  IN  IF ActionVerdict(e.x, e.gx, A, sp, 1, ga, xd, xd) # "ok" THEN "malformed record"
      ELSE IF e.out # "ok" THEN "the check raised an exception"
      ELSE IF e.val # all THEN "reported deviation"
      ELSE "ok"

(***************************************************************************)
(* Axis utilities (P20)                                                    *)
(***************************************************************************)
UtilVerdict(e) ==
  LET r == Len(e.x.s)
      m == Ax(e.a, r)
      t == Ax(e.b, r)
      Same(y) == IF e.y.s # y.s THEN "shape" ELSE IF Len(e.y.v) # Len(y.v) THEN "malformed record"
                 ELSE IF e.y.v = y.v THEN "ok" ELSE "order of the elements"
      Shape(s) == IF e.y.s = s THEN "ok" ELSE "shape"
  IN  IF e.out # "ok" THEN "exception"
      ELSE CASE e.fn = "merge_axes"   -> Same(Merge(e.x, m, t))
             [] e.fn = "move_axis_to_left_of" -> Same(Move(e.x, m, t))
             [] e.fn = "split_axes"   -> Same(Split(e.x, e.f, m))
             [] e.fn = "merge_shapes" -> Shape(MergeShape(e.x.s, m, t))
             [] e.fn = "split_shapes" -> Shape(SplitShape(e.x.s, e.f, m))
             [] e.fn = "split_merged" -> Same(Move(e.x, m, t))
             [] e.fn = "index" -> Same(IndexTensor(e.x.s))

(* a large index tensor, sampled at the flat offsets e.at: every entry is its own offset *)
LargeIndexVerdict(e) ==
  IF e.out # "ok" THEN "exception"
  ELSE IF e.res # e.shape THEN "shape"
  ELSE IF e.y = e.at THEN "ok" ELSE "order of the elements"

(* one unknown extent, that of no axis that is merged or split, is written as -1 *)
ShapeUtilVerdict(e) ==
  LET r == Len(e.in) m == Ax(e.a, r) t == Ax(e.b, r)
  IN  IF e.out # "ok" THEN "exception"
      ELSE IF e.res = (IF e.fn = "merge_shapes" THEN MergeShape(e.in, m, t) ELSE SplitShape(e.in, e.f, m)) THEN "ok" ELSE "shape"

(***************************************************************************)
(* Observations about layers                                               *)
(***************************************************************************)
Cfg(id) == layers[id].cfg

(* inferred shapes: -1 stands for an unknown batch size *)
ShapeVerdict(e) ==
  LET L   == Full(Cfg(e.id))
      why == M!Accepts(e.id, e.in)
      known == [e.in EXCEPT ![1] = IF @ = -1 THEN 1 ELSE @]
      exp == OutShape(L, known)
  IN  IF why # "ok" THEN "ok"
      ELSE IF e.out # "ok" THEN "shape inference raised an exception"
      ELSE IF e.res = [exp EXCEPT ![1] = e.in[1]] THEN "ok" ELSE "inferred shape"

(* gradient of sum(c * y), for layers without activation, by linearity: the derivative by
   entry o of the kernel (by filter f of the bias) is the sum over all outputs z of c[z]
   times the value of a layer whose only weight is a one at that entry *)
OutputsWith(c) == TLCEval(SelectSeq(Seq1(Len(c.v)), LAMBDA z : c.v[z] # 0))
KernelGradient(L, w, x, c, o) ==
  LET os  == TLCEval(OutShape(L, x.s))
      ost == TLCEval(Strides(os))
      pl  == TLCEval(ConvPlan(L, x.s))
      sp  == SpAx(L)
      unit == TLCEval([kernel |-> [s |-> w.kernel.s, v |-> [z \in 1..Len(w.kernel.v) |-> IF z = o THEN 1 ELSE 0]],
                       bias |-> [s |-> w.bias.s, v |-> [z \in 1..Len(w.bias.v) |-> 0]]])
      linear == [L EXCEPT !.act = "linear"]
  IN  FoldLeft(LAMBDA acc, z :
        LET k == CoordsS(os, ost, z - 1)
        IN  acc + c.v[z] * ConvValue(linear, unit, x, pl, k[1], [a \in 1..L.dims |-> k[sp[a]]], k[GrAx(L)] + 1, k[ChAx(L, TRUE)]),
        0, OutputsWith(c))
BiasGradient(L, x, c, f) ==
  LET os  == TLCEval(OutShape(L, x.s))
      ost == TLCEval(Strides(os))
  IN  FoldLeft(LAMBDA acc, z : IF CoordsS(os, ost, z - 1)[ChAx(L, TRUE)] = f - 1 THEN acc + c.v[z] ELSE acc, 0, OutputsWith(c))

GradVerdict(e) ==
  LET L == TLCEval(Full(Cfg(e.id)))
      w == layers[e.id].w
  IN  IF e.out # "ok" THEN "gradient raised an exception"
      ELSE IF e.c.s # OutShape(L, e.x.s) THEN "malformed record"
      ELSE IF e.dk.s # w.kernel.s THEN "shape of the gradient"
      ELSE IF \E z \in 1..Len(e.at) : e.dk.v[e.at[z] + 1] # KernelGradient(L, w, e.x, e.c, e.at[z] + 1) THEN "gradient of the kernel"
      ELSE IF L.bias /\ \E f \in 1..L.filters : e.db.v[f] # BiasGradient(L, e.x, e.c, f) THEN "gradient of the bias"
      ELSE "ok"

(* gradient descent at rate 1 on sum(c * y), for some number of epochs, leaves the weights e.w: the
   gradient depends on no weights, so batches, their order and earlier epochs do not matter *)
TrainVerdict(e) ==
  LET L == TLCEval(Full(Cfg(e.id)))
      w == layers[e.id].w
      times == IF e.trainable THEN e.epochs ELSE 0
  IN  IF e.out # "ok" THEN "training raised an exception"
      ELSE IF e.c.s # OutShape(L, e.x.s) THEN "malformed record"
      ELSE IF e.w.kernel.s # w.kernel.s \/ e.w.bias.s # w.bias.s THEN "training changed the shapes of the weights"
      ELSE IF ~e.trainable THEN (IF e.w = w THEN "ok" ELSE "training changed weights that are not trainable")
      ELSE IF \E z \in 1..Len(e.at) : e.w.kernel.v[e.at[z] + 1]
                   # w.kernel.v[e.at[z] + 1] - times * KernelGradient(L, w, e.x, e.c, e.at[z] + 1) THEN "trained kernel"
      ELSE IF L.bias /\ \E f \in 1..L.filters : e.w.bias.v[f] # w.bias.v[f] - times * BiasGradient(L, e.x, e.c, f) THEN "trained bias"
      ELSE "ok"

(***************************************************************************)
(* Verdict on an event, and its effect                                     *)
(***************************************************************************)
Verdict(e) ==
  CASE e.op = "new" ->
         IF M!Known(e.id) THEN "malformed record"
         ELSE IF GConstructible(e.cfg) /\ e.out # "ok" THEN "valid configuration rejected"
         ELSE "ok"
    [] e.op = "build" ->
         LET why == IF GConstructible(Cfg(e.id)) THEN GBuildable(Cfg(e.id), e.shape) ELSE "configuration"
         IN  IF why = "ok" /\ e.out # "ok" THEN "valid input shape rejected"
             ELSE IF why # "ok" /\ e.out = "ok" THEN "invalid input shape accepted: " \o why
             ELSE IF why = "padding" /\ e.err # "ValueError" THEN "not a ValueError"
             ELSE IF why = "ok" /\ ~GFitsWeights(Cfg(e.id), e.shape, e.w) THEN "shapes of the weights"
             ELSE IF why = "ok" /\ e.nw # (IF Cfg(e.id).kind \in {"conv", "convT"}
                                           THEN (IF Cfg(e.id).bias THEN 2 ELSE 1) ELSE 0) THEN "number of weights"
             ELSE "ok"
    [] e.op = "load" -> IF ~M!Built(e.id) THEN "malformed record" ELSE "ok"
    [] e.op = "call" ->
         IF ~M!Known(e.id) THEN "malformed record"
         ELSE LET why == M!Accepts(e.id, e.x.s)
         IN  IF why = "ok" /\ e.out # "ok" THEN "valid call rejected"
             ELSE IF why # "ok" /\ e.out = "ok" THEN "invalid call accepted: " \o why
             ELSE IF why = "padding" /\ e.err # "ValueError" THEN "not a ValueError"
             ELSE IF why # "ok" THEN "ok"
             ELSE IF ~M!Built(e.id) THEN "malformed record"
             ELSE GAgrees(Cfg(e.id), layers[e.id].w, e.x, e.y)
    [] e.op = "fail" -> IF e.out = "ok" THEN "failing call returned a result" ELSE "ok"
    [] e.op = "weights" ->
         IF Cfg(e.id).kind \in {"conv", "convT"} /\ e.w # layers[e.id].w THEN "weights changed"
         ELSE IF ~ToldRight(Cfg(e.id), e.told) THEN "configuration changed" ELSE "ok"
    [] e.op = "same" ->    \* an observation made before and after must be the same
         IF e.a = e.b THEN "ok" ELSE e.what
    [] e.op = "recreate" ->
         IF ~e.plain THEN "configuration not made of plain values"
         ELSE IF e.out # "ok" THEN "cannot be recreated from its configuration"
         ELSE IF ~e.same THEN "recreated layer reports another configuration"
         ELSE IF ~ToldRight(Cfg(e.id), e.told) THEN "configuration does not tell what the layer is"
         ELSE "ok"
    [] e.op \in {"drop", "freeze"} -> IF M!Known(e.id) THEN "ok" ELSE "malformed record"
    [] e.op = "shape" -> ShapeVerdict(e)
    [] e.op = "grad" -> GradVerdict(e)
    [] e.op = "train" -> IF ~M!Built(e.id) THEN "malformed record" ELSE TrainVerdict(e)
    [] e.op = "loss" ->    \* absolute penalties on the weights
         LET w == layers[e.id].w
             sum(v) == FoldLeft(LAMBDA acc, z : acc + Abs(z), 0, v)
         IN  IF e.val = sum(w.kernel.v) + sum(w.bias.v) THEN "ok" ELSE "penalty on the weights"
    [] e.op = "group" -> GroupVerdict(e.name, Tables[e.name], Labels[e.name])
    [] e.op = "subgroup" -> SubgroupVerdict(Tables[e.name], Labels[e.name], Dim[e.name], e.sub)
    [] e.op = "derived" ->     \* a group made from a parent group, with its own tables e.t
         LET Lb == TLCEval(LabelsOf(e.name, e.t))
         IN  IF e.out # "ok" THEN "cannot be derived from its parent"
             ELSE IF e.sub = "" THEN GroupVerdict(e.name, e.t, Lb)
             ELSE SubgroupVerdict(e.t, Lb, Dim[e.name], e.sub)
    [] e.op = "action" -> ActionEventVerdict(e)
    [] e.op = "equiv" -> EquivVerdict(e)
    [] e.op = "equiv1" -> Equiv1Verdict(e)
    [] e.op = "pad" -> PadVerdict(e)
    [] e.op = "check" -> CheckVerdict(e)
    [] e.op = "util" -> UtilVerdict(e)
    [] e.op = "shapeutil" -> ShapeUtilVerdict(e)
    [] e.op = "largeindex" -> LargeIndexVerdict(e)
    [] e.op = "expect" ->  \* outcome of a use that has to be accepted or has to be refused
         IF e.legal /\ e.out # "ok" THEN "valid use rejected"
         ELSE IF ~e.legal /\ e.out = "ok" THEN "misuse accepted"
         ELSE "ok"
    [] OTHER -> "malformed record"

(* the step of the state machine that an accepted event is *)
Step(e) ==
  CASE e.op = "new" /\ e.out = "ok" -> M!Construct(e.id, e.cfg)
    [] e.op = "new" /\ e.out # "ok" -> M!RefuseConstruct(e.cfg)
    [] e.op = "build" /\ e.out = "ok" -> M!Build(e.id, e.shape, e.w)
    [] e.op = "build" /\ e.out # "ok" -> M!RefuseBuild(e.id, e.shape)
    [] e.op \in {"load", "train"} -> M!Load(e.id, e.w)
    [] e.op = "fail" -> M!FailCall(e.id)
    [] e.op = "recreate" -> M!Recreate(e.id, e.new)
    [] e.op = "drop" -> M!Drop(e.id)
    [] e.op = "freeze" -> M!Freeze(e.id)
    [] OTHER -> UNCHANGED layers          \* Call, RefuseCall, Observe: judged by Verdict

Init == sid \in 1..Len(Sessions) /\ l = 1 /\ verdict = "run" /\ M!GInit

Next ==
  /\ verdict = "run"
  /\ UNCHANGED sid
  /\ IF l > Len(Sessions[sid])
     THEN verdict' = "ok" /\ UNCHANGED <<l, layers>>
     ELSE LET v == Verdict(Ev)
          IN  IF v = "ok"
              THEN l' = l + 1 /\ Step(Ev) /\ UNCHANGED verdict
              ELSE verdict' = v /\ UNCHANGED <<l, layers>> /\ PrintT(<<"BAD", sid, l, v>>)

TraceSpec == Init /\ [][Next]_vars

View == <<sid, l, verdict>>
=============================================================================
