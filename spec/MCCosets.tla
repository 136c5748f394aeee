------------------------------ MODULE MCCosets -----------------------------
(***************************************************************************)
(* What coset representatives are for.  Aggregating a signal on G over     *)
(* { h r : r in R } for every h in a subgroup H gives a signal on H, and   *)
(* commutes with H, whatever R is; it uses every component exactly once    *)
(* iff every element of G is in exactly one way a product of an element of *)
(* H and one of R.  Explored: all groups and subgroups in 2D, and all      *)
(* choices of R containing the identity.                                   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Symmetry

VARIABLES G, H, R, k
vars == <<G, H, R, k>>
Names2 == { n \in GroupNames : Dim[n] = 2 }
Init == /\ G \in Names2
        /\ H \in { n \in Names2 : Documented(n) \subseteq Documented(G) }
        /\ R = { IdentitySym(2) } /\ k = 1
Next == /\ k < Cardinality(Documented(G)) \div Cardinality(Documented(H))
        /\ \E r \in Documented(G) \ R : R' = R \cup {r}
        /\ k' = k + 1 /\ UNCHANGED <<G, H>>
Spec == Init /\ [][Next]_vars

Coset(h) == { Compose(h, r) : r \in R }
Transversal == Cardinality({ Compose(h, r) : h \in Documented(H), r \in R })
                 = Cardinality(Documented(H)) * Cardinality(R)
Full == k * Cardinality(Documented(H)) = Cardinality(Documented(G))

(* component h of the pooled g-transform is component g^-1 h of the pooled signal *)
Commutes == \A g, h \in Documented(H) :
              { Compose(InverseSym(g), q) : q \in Coset(h) } = Coset(Compose(InverseSym(g), h))
ExactlyOnce == (Transversal /\ Full) <=>
                 \A q \in Documented(G) : Cardinality({ h \in Documented(H) : q \in Coset(h) }) = 1
SubgroupsAreGroups == IsGroupOf(Documented(G), 2)
=============================================================================
