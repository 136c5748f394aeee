----------------------------- MODULE MCSymmetry ----------------------------
(***************************************************************************)
(* The documented groups are groups, and acting on signals is an action:   *)
(* acting with h and then with g is acting with gh.  All groups, all pairs *)
(* of elements, on signals with distinct values (so for all signals).      *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC, Symmetry, Tensors, Actions

VARIABLES name, g, h
vars == <<name, g, h>>

Tup(q) == [p |-> [a \in 1..Len(q.p) |-> q.p[a]], s |-> [a \in 1..Len(q.s) |-> q.s[a]]]
Elems(n) == TLCEval(SetToSeq({ Tup(q) : q \in Documented(n) }))
E == TLCEval([n \in GroupNames |-> Elems(n)])

Init == name \in GroupNames /\ g = 1 /\ h \in 1..Len(E[name])
Next == g < Len(E[name]) /\ g' = g + 1 /\ UNCHANGED <<name, h>>
Spec == Init /\ [][Next]_vars

d == Dim[name]
Order == [ P1 |-> 1, P2 |-> 2, PMw |-> 2, PMh |-> 2, P2MM |-> 4, P4 |-> 4, P4M |-> 8,
           Oh |-> 48, O |-> 24, D4h |-> 16, D4 |-> 8 ]
OrderOk == Len(E[name]) = Order[name]

Closed == Compose(E[name][g], E[name][h]) \in Documented(name)
Inverses == /\ InverseSym(E[name][g]) \in Documented(name)
            /\ Compose(E[name][g], InverseSym(E[name][g])) = IdentitySym(d)
            /\ Compose(InverseSym(E[name][g]), E[name][g]) = IdentitySym(d)
DetMult == Det(Compose(E[name][g], E[name][h])) = Det(E[name][g]) * Det(E[name][h])

(* grid signals, with one more axis in front *)
X == LET sh == <<2>> \o [a \in 1..d |-> IF d = 2 THEN 3 ELSE 2]
     IN  [s |-> sh, v |-> [o \in 1..Prod(sh) |-> o]]
sp == [a \in 1..d |-> a + 1]
GridAction ==
  Act(E[name][g], Act(E[name][h], X, sp, 0, <<>>, <<>>), sp, 0, <<>>, <<>>)
    = Act(Compose(E[name][g], E[name][h]), X, sp, 0, <<>>, <<>>)

(* signals on the group itself, for the smaller groups *)
XG == LET sh == [a \in 1..d |-> 2] \o <<Len(E[name])>>
      IN  [s |-> sh, v |-> [o \in 1..Prod(sh) |-> o]]
spg == [a \in 1..d |-> a]
Dm == E[name]
GroupAction ==
  Len(Dm) <= 16 =>
    Act(Dm[g], Act(Dm[h], XG, spg, d + 1, Dm, Dm), spg, d + 1, Dm, Dm)
      = Act(Compose(Dm[g], Dm[h]), XG, spg, d + 1, Dm, Dm)
=============================================================================
