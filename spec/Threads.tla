------------------------------- MODULE Threads ------------------------------
(***************************************************************************)
(* The inside of a call of a convolution layer, as GroCo does it: the      *)
(* attributes of the layer are exchanged for their transforms, the Keras   *)
(* layer does its work with them, and they are put back.  One action per   *)
(* access to the attributes, so that every interleaving of several threads *)
(* is explored.  While a layer works, its activation may call another      *)
(* layer (a nested call); the exception of a nested call may be caught by  *)
(* the activation or not.                                                  *)
(*                                                                         *)
(* The attribute of a layer is counted in transforms: 0 is the weight      *)
(* itself, 1 its transform, which is what a computation has to use.        *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences

CONSTANTS Threads,     \* the threads
          Calls,       \* calls per thread
          Layers,      \* the layers
          Nests,       \* activations call another layer
          Locking,     \* "none", "layer" (a lock for each), "all" (a lock for all of them)
          Reentrant,   \* a thread may take a lock that it holds
          Finally,     \* attributes are put back after a failure too
          Failures     \* calls may fail half-way

VARIABLES attr, lock, stack, left, used
vars == <<attr, lock, stack, left, used>>

None == "none"
Lock(l) == IF Locking = "all" THEN "all" ELSE l
Locks == {Lock(l) : l \in Layers}

Init == /\ attr = [l \in Layers |-> 0]
        /\ lock = [k \in Locks |-> [owner |-> None, count |-> 0]]
        /\ stack = [t \in Threads |-> <<>>]       \* the calls under way, the innermost one first
        /\ left = [t \in Threads |-> Calls]
        /\ used = [t \in Threads |-> 1]           \* what the last computation of a thread used

Top(t) == Head(stack[t])
At(t, l) == stack[t] # <<>> /\ Top(t).pc = l
SetTop(t, f) == stack' = [stack EXCEPT ![t] = <<f>> \o Tail(@)]
Goto(t, l) == SetTop(t, [Top(t) EXCEPT !.pc = l])

CanTake(t, l) == \/ Locking = "none" \/ lock[Lock(l)].owner = None
                 \/ Reentrant /\ lock[Lock(l)].owner = t
Take(t, l) == lock' = IF Locking = "none" THEN lock
                      ELSE [lock EXCEPT ![Lock(l)] = [owner |-> t, count |-> @.count + 1]]
Release(l) == lock' = IF Locking = "none" THEN lock
                      ELSE [lock EXCEPT ![Lock(l)] = IF @.count = 1 THEN [owner |-> None, count |-> 0]
                                                     ELSE [@ EXCEPT !.count = @ - 1]]
Push(t, l) == stack' = [stack EXCEPT ![t] = <<[layer |-> l, pc |-> "backup", backup |-> 0, tmp |-> 0, inner |-> None]>> \o @]

Enter(t) == /\ stack[t] = <<>> /\ left[t] > 0
            /\ \E l \in Layers : CanTake(t, l) /\ Take(t, l) /\ Push(t, l)
            /\ left' = [left EXCEPT ![t] = @ - 1] /\ UNCHANGED <<attr, used>>

Backup(t) == /\ At(t, "backup")
             /\ SetTop(t, [Top(t) EXCEPT !.pc = "read", !.backup = attr[Top(t).layer]])
             /\ UNCHANGED <<attr, lock, left, used>>

Read(t) == /\ At(t, "read")
           /\ SetTop(t, [Top(t) EXCEPT !.pc = "write", !.tmp = attr[Top(t).layer] + 1])
           /\ UNCHANGED <<attr, lock, left, used>>

Write(t) == /\ At(t, "write") /\ attr' = [attr EXCEPT ![Top(t).layer] = Top(t).tmp]
            /\ Goto(t, "compute") /\ UNCHANGED <<lock, left, used>>

(* the convolution, then the activation, which may want to call another layer; it is committed to *)
(* one of them, whose lock it then waits for                                                      *)
Compute(t) == /\ At(t, "compute") /\ used' = [used EXCEPT ![t] = attr[Top(t).layer]]
              /\ \/ Goto(t, "restore")
                 \/ /\ Nests /\ Len(stack[t]) = 1
                    /\ \E l \in Layers \ {Top(t).layer} : SetTop(t, [Top(t) EXCEPT !.pc = "nest", !.inner = l])
              /\ UNCHANGED <<attr, lock, left>>

Nest(t) == /\ At(t, "nest") /\ CanTake(t, Top(t).inner) /\ Take(t, Top(t).inner)
           /\ stack' = [stack EXCEPT ![t] = <<[layer |-> Top(t).inner, pc |-> "backup", backup |-> 0, tmp |-> 0, inner |-> None],
                                              [Top(t) EXCEPT !.pc = "nested"]>>]
           /\ UNCHANGED <<attr, left, used>>

(* the nested call is over, well or with an exception that is caught *)
Resume(t) == At(t, "nested") /\ Goto(t, "restore") /\ UNCHANGED <<attr, lock, left, used>>

(* preparing, computing, or a nested call raises an exception *)
Fail(t) == /\ Failures /\ \E l \in {"read", "compute", "nested"} : At(t, l)
           /\ Goto(t, IF Finally THEN "restore" ELSE "exit")
           /\ UNCHANGED <<attr, lock, left, used>>

Restore(t) == /\ At(t, "restore") /\ attr' = [attr EXCEPT ![Top(t).layer] = Top(t).backup]
              /\ Goto(t, "exit") /\ UNCHANGED <<lock, left, used>>

Exit(t) == /\ At(t, "exit") /\ Release(Top(t).layer)
           /\ stack' = [stack EXCEPT ![t] = Tail(@)] /\ UNCHANGED <<attr, left, used>>

Step(t) == Enter(t) \/ Backup(t) \/ Read(t) \/ Write(t) \/ Compute(t) \/ Nest(t) \/ Resume(t) \/ Restore(t) \/ Exit(t)
Next == \E t \in Threads : Step(t) \/ Fail(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))

(* what a call computes with, and what it leaves behind *)
RightWeights == \A t \in Threads : used[t] = 1
Quiet == \A t \in Threads : stack[t] = <<>>
NoTrace == Quiet => /\ \A l \in Layers : attr[l] = 0
                    /\ \A k \in Locks : lock[k].owner = None
(* no thread waits for ever: as long as there are calls to make, something can be done *)
NoDeadlock == (\E t \in Threads : stack[t] # <<>>) => \E t \in Threads : stack[t] # <<>> /\ ENABLED Step(t)
Finishes == <>(Quiet /\ \A t \in Threads : left[t] = 0)
=============================================================================
