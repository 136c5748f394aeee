------------------------------- MODULE GroCo -------------------------------
(***************************************************************************)
(* The state machine of GroCo as its user sees it: a set of layers that    *)
(* are constructed, built, called, given weights and cloned.  The result   *)
(* of a call is a function of the layer's configuration, its weights and   *)
(* the input only; no call, successful or not, changes any layer.          *)
(*                                                                         *)
(* The semantics of configurations, inputs and results is a parameter:     *)
(* LayerSem gives it for traces of the real code (TraceGroCo), tokens do   *)
(* for the exploration of histories (MCLifecycle).                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

CONSTANTS Constructible(_),      \* is this a valid configuration
          Buildable(_, _),       \* "ok", or why a configuration refuses an input shape
          Signature(_, _),       \* what building fixes about later inputs
          FitsWeights(_, _, _),  \* do these weights fit this configuration and input shape
          Agrees(_, _, _, _)     \* verdict: is y the result of configuration, weights on x

VARIABLE layers                  \* layer id -> [cfg, sig, w]

Unbuilt == [built |-> FALSE]
NoWeights == [none |-> TRUE]

Known(id) == id \in DOMAIN layers
Built(id) == Known(id) /\ layers[id].sig.built

(* does a layer accept an input of this shape: "ok" or the reason why not *)
Accepts(id, shape) ==
  LET why == IF Constructible(layers[id].cfg) THEN Buildable(layers[id].cfg, shape) ELSE "configuration"
  IN  IF why # "ok" THEN why
      ELSE IF layers[id].sig.built /\ layers[id].sig # Signature(layers[id].cfg, shape) THEN "shape"
      ELSE "ok"

GInit == layers = [id \in {} |-> Unbuilt]

(* an invalid configuration is refused at once, or else by every later use: Accepts is never "ok" *)
Construct(id, cfg) ==
  /\ ~Known(id)
  /\ layers' = (id :> [cfg |-> cfg, sig |-> Unbuilt, w |-> NoWeights]) @@ layers

RefuseConstruct(cfg) == ~Constructible(cfg) /\ UNCHANGED layers

(* building again keeps nothing but the configuration: Keras creates new weights *)
Build(id, shape, w) ==
  /\ Known(id)
  /\ Constructible(layers[id].cfg)
  /\ Buildable(layers[id].cfg, shape) = "ok"
  /\ FitsWeights(layers[id].cfg, shape, w)
  /\ layers' = [layers EXCEPT ![id] = [cfg |-> layers[id].cfg, sig |-> Signature(layers[id].cfg, shape), w |-> w]]

RefuseBuild(id, shape) ==
  /\ Known(id)
  /\ Constructible(layers[id].cfg) => Buildable(layers[id].cfg, shape) # "ok"
  /\ UNCHANGED layers

Load(id, w) ==
  /\ Built(id)
  /\ layers' = [layers EXCEPT ![id].w = w]

Call(id, x, shape, y) ==
  /\ Built(id)
  /\ Accepts(id, shape) = "ok"
  /\ Agrees(layers[id].cfg, layers[id].w, x, y) = "ok"
  /\ UNCHANGED layers

RefuseCall(id, shape) == Known(id) /\ Accepts(id, shape) # "ok" /\ UNCHANGED layers

(* a call that is interrupted by a failure somewhere inside *)
FailCall(id) == Known(id) /\ UNCHANGED layers

Observe(id, w) == Built(id) /\ layers[id].w = w /\ UNCHANGED layers

(* making a layer trainable or not: of no consequence but for training *)
Freeze(id) == Known(id) /\ UNCHANGED layers

(* a layer recreated from the configuration of another one *)
Recreate(id, new) ==
  /\ Known(id) /\ ~Known(new)
  /\ layers' = (new :> [cfg |-> layers[id].cfg, sig |-> Unbuilt, w |-> NoWeights]) @@ layers

Drop(id) == Known(id) /\ layers' = [i \in (DOMAIN layers) \ {id} |-> layers[i]]
=============================================================================
