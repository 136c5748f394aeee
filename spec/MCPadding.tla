----------------------------- MODULE MCPadding -----------------------------
(***************************************************************************)
(* The padding rule, for all extents, windows and strides up to a bound:   *)
(* the closed form is the declared minimum, and the declared conditions    *)
(* are exactly what makes the sampled positions symmetric about the center *)
(* of the input, so exactly what equivariance under reversing an axis      *)
(* takes.                                                                  *)
(***************************************************************************)
EXTENDS Naturals, Integers, TLC, Padding

CONSTANTS MaxN, MaxK, MaxS
VARIABLES n, k, s, mode, transpose
vars == <<n, k, s, mode, transpose>>

Init == n = 1 /\ k \in 1..MaxK /\ s \in 1..MaxS /\ mode \in Modes /\ transpose \in BOOLEAN
Next == n < MaxN /\ n' = n + 1 /\ UNCHANGED <<k, s, mode, transpose>>
Spec == Init /\ [][Next]_vars

b == BuiltIn(n, k, s, IsSame(mode), transpose)
e == MinimalExtra(n, b, k, s)
P == AxisPad(n, k, s, mode, FALSE, transpose)
Q == AxisPad(n, k, s, mode, TRUE, transpose)

ClosedForm == RuleExtra(n, b, k, s) = e

(* no amount at all works if none was found *)
Complete == e = -1 => \A t \in 0..(8 * s) : ~Aligned(n, b + t, k, s)

Minimal == e # -1 => Aligned(n, b + e, k, s) /\ \A t \in 0..(e - 1) : ~Aligned(n, b + t, k, s)

(* an accepted padding is the same on both sides, counting what the operation pads itself *)
BothSides == P.ok => 2 * (P.lo + b \div 2) = P.lo + P.hi + P.b

(* the positions sampled are symmetric exactly if the padding is accepted as it is *)
Low == b \div 2
SharpCheck == (~transpose /\ ~IsEquivMode(mode) /\ OutSize(n, b, k, s) > 0) =>
                 (P.ok <=> SymmetricSet(Centers(n, Low, b, k, s)))
EquivSymmetric == (~transpose /\ IsEquivMode(mode) /\ P.ok) =>
                 SymmetricSet(Centers(n, P.lo + Low, b + e, k, s))
(* with equal padding on both sides nothing else makes them symmetric *)
OnlyThat == ~transpose => \A t \in 0..(3 * s) :
              (t % 2 = 0 /\ OutSize(n, t, k, s) > 0) =>
                 (SymmetricSet(Centers(n, t \div 2, t, k, s)) <=> Reaches(n, t, k, s))
AllowedAddsNothing == (~IsEquivMode(mode)) => Q.ok /\ Q.lo = 0 /\ Q.hi = 0
EquivIgnoresAllow == IsEquivMode(mode) => P = Q
=============================================================================
