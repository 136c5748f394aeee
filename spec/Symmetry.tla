------------------------------ MODULE Symmetry ------------------------------
(***************************************************************************)
(* The symmetries of a square or cubic grid, as signed permutations of the *)
(* coordinate axes, and the point groups that GroCo documents.             *)
(*                                                                         *)
(* A symmetry g is a record [p, s] of a permutation p of 1..d and signs s, *)
(* acting on a vector v of (centered) coordinates as                       *)
(*       (g v)[a] = s[a] * v[p[a]].                                        *)
(***************************************************************************)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE TLC

Axes(d) == 1..d

Perms(d) == { p \in [1..d -> 1..d] : \A a, b \in 1..d : a # b => p[a] # p[b] }

AllSymmetries(d) == { [p |-> p, s |-> s] : p \in Perms(d), s \in [1..d -> {-1, 1}] }

IdentitySym(d) == [p |-> [a \in 1..d |-> a], s |-> [a \in 1..d |-> 1]]

(* apply h first, then g *)
Compose(g, h) ==
  [p |-> [a \in DOMAIN g.p |-> h.p[g.p[a]]],
   s |-> [a \in DOMAIN g.p |-> g.s[a] * h.s[g.p[a]]]]

InverseSym(g) ==
  LET d == Len(g.p)
      q == [b \in 1..d |-> CHOOSE a \in 1..d : g.p[a] = b]
  IN  [p |-> q, s |-> [b \in 1..d |-> g.s[q[b]]]]

Inversions(p) == Cardinality({ <<a, b>> \in (DOMAIN p) \X (DOMAIN p) : a < b /\ p[a] > p[b] })

RECURSIVE ProdSigns(_, _)
ProdSigns(s, n) == IF n = 0 THEN 1 ELSE s[n] * ProdSigns(s, n - 1)

(* +1 for rotations, -1 for reflections and rotoreflections *)
Det(g) == (IF Inversions(g.p) % 2 = 0 THEN 1 ELSE -1) * ProdSigns(g.s, Len(g.s))

Diagonal(d) == { g \in AllSymmetries(d) : g.p = IdentitySym(d).p }

(***************************************************************************)
(* The documented groups.  2D axes are (height, width); the third axis of  *)
(* a 3D grid is the depth.                                                 *)
(***************************************************************************)
Dim == [ P1 |-> 2, P2 |-> 2, PMw |-> 2, PMh |-> 2, P2MM |-> 2, P4 |-> 2, P4M |-> 2,
         Oh |-> 3, O |-> 3, D4h |-> 3, D4 |-> 3 ]

GroupNames == DOMAIN Dim

Documented(name) ==
  CASE name = "P1"   -> { IdentitySym(2) }
    [] name = "P2"   -> { g \in Diagonal(2) : Det(g) = 1 }
    [] name = "PMw"  -> { g \in Diagonal(2) : g.s[1] = 1 }
    [] name = "PMh"  -> { g \in Diagonal(2) : g.s[2] = 1 }
    [] name = "P2MM" -> Diagonal(2)
    [] name = "P4"   -> { g \in AllSymmetries(2) : Det(g) = 1 }
    [] name = "P4M"  -> AllSymmetries(2)
    [] name = "Oh"   -> AllSymmetries(3)
    [] name = "O"    -> { g \in AllSymmetries(3) : Det(g) = 1 }
    [] name = "D4h"  -> { g \in AllSymmetries(3) : g.p[3] = 3 }
    [] name = "D4"   -> { g \in AllSymmetries(3) : g.p[3] = 3 /\ Det(g) = 1 }

(* the subgroups that GroCo lists for every group *)
IsGroupOf(S, d) ==
  /\ IdentitySym(d) \in S
  /\ \A g \in S : InverseSym(g) \in S
  /\ \A g, h \in S : Compose(g, h) \in S

(***************************************************************************)
(* A labelling of a group is a sequence of its symmetries: element i-1 of  *)
(* the implementation is symmetry Labels[i].                               *)
(***************************************************************************)
Index(labels, g) == CHOOSE i \in 1..Len(labels) : labels[i] = g

(* position of a symmetry in a labelling, 0 if absent *)
IndexOrZero(labels, g) ==
  IF \E i \in 1..Len(labels) : labels[i] = g THEN Index(labels, g) ELSE 0

(* quotient table: entry [i][j] is the position in dom of acting[i]^-1 dom[j], 0 if absent *)
QuotientTable(acting, dom) ==
  [i \in 1..Len(acting) |->
     LET inv == InverseSym(acting[i])
     IN  [j \in 1..Len(dom) |-> IndexOrZero(dom, Compose(inv, dom[j]))]]
=============================================================================
