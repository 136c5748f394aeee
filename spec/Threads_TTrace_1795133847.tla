---- MODULE Threads_TTrace_1795133847 ----
EXTENDS Threads_TEConstants, Threads, Sequences, TLCExt, Toolbox, Naturals, TLC

_expression ==
    LET Threads_TEExpression == INSTANCE Threads_TEExpression
    IN Threads_TEExpression!expression
----

_trace ==
    LET Threads_TETrace == INSTANCE Threads_TETrace
    IN Threads_TETrace!trace
----

_inv ==
    ~(
        TLCGet("level") = Len(_TETrace)
        /\
        stack = ((t1 :> <<[pc |-> "nest", layer |-> a, backup |-> 0, tmp |-> 1, inner |-> b]>> @@ t2 :> <<>>))
        /\
        left = ((t1 :> 0 @@ t2 :> 1))
        /\
        lock = ([all |-> [owner |-> t1, count |-> 1]])
        /\
        used = ((t1 :> 1 @@ t2 :> 1))
        /\
        attr = ((a :> 1 @@ b :> 0))
    )
----

_init ==
    /\ lock = _TETrace[1].lock
    /\ stack = _TETrace[1].stack
    /\ used = _TETrace[1].used
    /\ left = _TETrace[1].left
    /\ attr = _TETrace[1].attr
----

_next ==
    /\ \E i,j \in DOMAIN _TETrace:
        /\ \/ /\ j = i + 1
              /\ i = TLCGet("level")
        /\ lock  = _TETrace[i].lock
        /\ lock' = _TETrace[j].lock
        /\ stack  = _TETrace[i].stack
        /\ stack' = _TETrace[j].stack
        /\ used  = _TETrace[i].used
        /\ used' = _TETrace[j].used
        /\ left  = _TETrace[i].left
        /\ left' = _TETrace[j].left
        /\ attr  = _TETrace[i].attr
        /\ attr' = _TETrace[j].attr

\* Uncomment the ASSUME below to write the states of the error trace
\* to the given file in Json format. Note that you can pass any tuple
\* to `JsonSerialize`. For example, a sub-sequence of _TETrace.
    \* ASSUME
    \*     LET J == INSTANCE Json
    \*         IN J!JsonSerialize("Threads_TTrace_1795133847.json", _TETrace)

=============================================================================

 Note that you can extract this module `Threads_TEExpression`
  to a dedicated file to reuse `expression` (the module in the 
  dedicated `Threads_TEExpression.tla` file takes precedence 
  over the module `Threads_TEExpression` below).

---- MODULE Threads_TEExpression ----
EXTENDS Threads_TEConstants, Threads, Sequences, TLCExt, Toolbox, Naturals, TLC

expression == 
    [
        \* To hide variables of the `Threads` spec from the error trace,
        \* remove the variables below.  The trace will be written in the order
        \* of the fields of this record.
        lock |-> lock
        ,stack |-> stack
        ,used |-> used
        ,left |-> left
        ,attr |-> attr
        
        \* Put additional constant-, state-, and action-level expressions here:
        \* ,_stateNumber |-> _TEPosition
        \* ,_lockUnchanged |-> lock = lock'
        
        \* Format the `lock` variable as Json value.
        \* ,_lockJson |->
        \*     LET J == INSTANCE Json
        \*     IN J!ToJson(lock)
        
        \* Lastly, you may build expressions over arbitrary sets of states by
        \* leveraging the _TETrace operator.  For example, this is how to
        \* count the number of times a spec variable changed up to the current
        \* state in the trace.
        \* ,_lockModCount |->
        \*     LET F[s \in DOMAIN _TETrace] ==
        \*         IF s = 1 THEN 0
        \*         ELSE IF _TETrace[s].lock # _TETrace[s-1].lock
        \*             THEN 1 + F[s-1] ELSE F[s-1]
        \*     IN F[_TEPosition - 1]
    ]

=============================================================================



Parsing and semantic processing can take forever if the trace below is long.
 In this case, it is advised to uncomment the module below to deserialize the
 trace from a generated binary file.

\*
\*---- MODULE Threads_TETrace ----
\*EXTENDS Threads_TEConstants, Threads, IOUtils, TLC
\*
\*trace == IODeserialize("Threads_TTrace_1795133847.bin", TRUE)
\*
\*=============================================================================
\*

---- MODULE Threads_TETrace ----
EXTENDS Threads_TEConstants, Threads, TLC

trace == 
    <<
    ([stack |-> (t1 :> <<>> @@ t2 :> <<>>),left |-> (t1 :> 1 @@ t2 :> 1),lock |-> [all |-> [owner |-> "none", count |-> 0]],used |-> (t1 :> 1 @@ t2 :> 1),attr |-> (a :> 0 @@ b :> 0)]),
    ([stack |-> (t1 :> <<[pc |-> "backup", layer |-> a, backup |-> 0, tmp |-> 0, inner |-> "none"]>> @@ t2 :> <<>>),left |-> (t1 :> 0 @@ t2 :> 1),lock |-> [all |-> [owner |-> t1, count |-> 1]],used |-> (t1 :> 1 @@ t2 :> 1),attr |-> (a :> 0 @@ b :> 0)]),
    ([stack |-> (t1 :> <<[pc |-> "read", layer |-> a, backup |-> 0, tmp |-> 0, inner |-> "none"]>> @@ t2 :> <<>>),left |-> (t1 :> 0 @@ t2 :> 1),lock |-> [all |-> [owner |-> t1, count |-> 1]],used |-> (t1 :> 1 @@ t2 :> 1),attr |-> (a :> 0 @@ b :> 0)]),
    ([stack |-> (t1 :> <<[pc |-> "write", layer |-> a, backup |-> 0, tmp |-> 1, inner |-> "none"]>> @@ t2 :> <<>>),left |-> (t1 :> 0 @@ t2 :> 1),lock |-> [all |-> [owner |-> t1, count |-> 1]],used |-> (t1 :> 1 @@ t2 :> 1),attr |-> (a :> 0 @@ b :> 0)]),
    ([stack |-> (t1 :> <<[pc |-> "compute", layer |-> a, backup |-> 0, tmp |-> 1, inner |-> "none"]>> @@ t2 :> <<>>),left |-> (t1 :> 0 @@ t2 :> 1),lock |-> [all |-> [owner |-> t1, count |-> 1]],used |-> (t1 :> 1 @@ t2 :> 1),attr |-> (a :> 1 @@ b :> 0)]),
    ([stack |-> (t1 :> <<[pc |-> "nest", layer |-> a, backup |-> 0, tmp |-> 1, inner |-> b]>> @@ t2 :> <<>>),left |-> (t1 :> 0 @@ t2 :> 1),lock |-> [all |-> [owner |-> t1, count |-> 1]],used |-> (t1 :> 1 @@ t2 :> 1),attr |-> (a :> 1 @@ b :> 0)])
    >>
----


=============================================================================

---- MODULE Threads_TEConstants ----
EXTENDS Threads

CONSTANTS t1, t2, a, b

=============================================================================

---- CONFIG Threads_TTrace_1795133847 ----
CONSTANTS
    Threads = { t1 , t2 }
    Calls = 1
    Layers = { a , b }
    Nests = TRUE
    Locking = "all"
    Reentrant = FALSE
    Finally = TRUE
    Failures = FALSE
    t1 = t1
    a = a
    b = b
    t2 = t2

INVARIANT
    _inv

CHECK_DEADLOCK
    \* CHECK_DEADLOCK off because of PROPERTY or INVARIANT above.
    FALSE

INIT
    _init

NEXT
    _next

CONSTANT
    _TETrace <- _trace

ALIAS
    _expression
=============================================================================
\* Generated on Fri Nov 20 00:17:27 UTC 2026