----------------------------- MODULE MCLifecycle ----------------------------
(***************************************************************************)
(* Histories of layers, with tokens for configurations, inputs and         *)
(* weights.  Exhaustively: nothing but loading weights and building        *)
(* changes what a layer is, and a result is determined by configuration,   *)
(* weights and input.  In simulation: histories that are replayed with the *)
(* real layers.                                                            *)
(*                                                                         *)
(* Inputs: 1 to 3 are accepted and differ in extents and batch size; 4 has *)
(* an extent that the padding refuses; 5 has the wrong rank; 6 the wrong   *)
(* number of channels or of group elements.                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Ids,            \* names of layers
          Configs,        \* configurations
          Steps,          \* length of the histories
          Rebuild,        \* may a built layer be built again
          Ops             \* the operations in the histories

VARIABLES layers, hist, results, done
vars == <<layers, hist, results, done>>

W(i) == [none |-> FALSE, v |-> i]

Constructible(c) == TRUE
Buildable(c, x) == IF x \in 1..3 THEN "ok" ELSE IF x = 4 THEN "padding" ELSE "shape"
Signature(c, x) == [built |-> TRUE]
FitsWeights(c, x, w) == TRUE
Result(c, w, x) == <<c, w.v, x>>
Agrees(c, w, x, y) == IF y = Result(c, w, x) THEN "ok" ELSE "output values"

M == INSTANCE GroCo

Init == M!GInit /\ hist = <<>> /\ results = {} /\ done = FALSE

Did(op, id, arg) == op \in Ops /\ hist' = Append(hist, [op |-> op, id |-> id, arg |-> ToString(arg)])
Keep == UNCHANGED results
MayBuild(id) == M!Known(id) /\ (~M!Built(id) \/ Rebuild)
Ways == {"eager", "jit", "stateless"}

Step ==
  \/ \E id \in Ids, c \in Configs : M!Construct(id, c) /\ Did("new", id, c) /\ Keep
  \/ \E id \in Ids, x \in 1..3 : MayBuild(id) /\ M!Build(id, x, W(0)) /\ Did("build", id, x) /\ Keep
  \/ \E id \in Ids, x \in 4..6 : MayBuild(id) /\ M!RefuseBuild(id, x) /\ Did("refusebuild", id, x) /\ Keep
  \/ \E id \in Ids, w \in 1..2 : M!Load(id, W(w)) /\ Did("load", id, w) /\ Keep
  \/ \E id \in Ids, x \in 1..3, how \in Ways : \E y \in { Result(c, W(w), x) : c \in Configs, w \in 0..2 } :
        /\ M!Call(id, x, x, y) /\ Did("call:" \o how, id, x)
        /\ results' = results \cup {<<layers[id].cfg, layers[id].w, x, y>>}
  \/ \E id \in Ids, x \in 1..3 : M!Built(id) /\ M!Call(id, x, x, Result(layers[id].cfg, layers[id].w, x))
                                  /\ Did("shape", id, x) /\ Keep
  \/ \E id \in Ids, x \in 4..6, how \in Ways : M!Built(id) /\ M!RefuseCall(id, x) /\ Did("refuse:" \o how, id, x) /\ Keep
  \/ \E id \in Ids, x \in 1..2, how \in Ways : M!Built(id) /\ M!FailCall(id) /\ Did("fail:" \o how, id, x) /\ Keep
  \/ \E id \in Ids, t \in 0..1 : M!Freeze(id) /\ Did("freeze", id, t) /\ Keep
  \/ \E id \in Ids : M!Built(id) /\ M!Observe(id, layers[id].w) /\ Did("observe", id, 0) /\ Keep
  \/ \E id, new \in Ids : M!Recreate(id, new) /\ Did("recreate", id, new) /\ Keep
  \/ \E id \in Ids : M!Drop(id) /\ Cardinality(DOMAIN layers) > 1 /\ Did("drop", id, 0) /\ Keep

Next == \/ Len(hist) < Steps /\ Step /\ UNCHANGED done
        \/ Len(hist) = Steps /\ ~done /\ done' = TRUE /\ UNCHANGED <<layers, hist, results>>
Spec == Init /\ [][Next]_vars

(* the result of a call is a function of configuration, weights and input *)
Function == \A r, q \in results : (r[1] = q[1] /\ r[2] = q[2] /\ r[3] = q[3]) => r[4] = q[4]
(* only building and loading changes what a layer is, and only that of the layer concerned *)
Stable == [][\A id \in DOMAIN layers \cap DOMAIN layers' :
               layers'[id] # layers[id] =>
                 hist'[Len(hist')].op \in {"build", "load"} /\ hist'[Len(hist')].id = id]_vars
(* what a layer is constructed with stays *)
Configured == [][\A id \in DOMAIN layers \cap DOMAIN layers' : layers'[id].cfg = layers[id].cfg]_vars

HistView == <<layers, results, Len(hist), done>>
Emit == done => PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
