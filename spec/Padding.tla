------------------------------ MODULE Padding -------------------------------
(***************************************************************************)
(* The padding of one spatial axis: extent n, window (dilated kernel) k,   *)
(* stride s.  What GroCo promises is stated declaratively (MinimalExtra),  *)
(* its closed form is RuleExtra; MCPadding checks that they agree and that *)
(* they do what they are for (Aligned is exactly equivariance of the       *)
(* sampling positions under reversal of the axis).                         *)
(***************************************************************************)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Integers

Modes == {"valid", "same", "valid_equiv", "same_equiv"}
IsEquivMode(m) == m \in {"valid_equiv", "same_equiv"}
IsSame(m) == m \in {"same", "same_equiv"}

Dilated(k, d) == (k - 1) * d + 1

Relu(x) == IF x > 0 THEN x ELSE 0
Ceil(a, b) == (a + b - 1) \div b
NegMod(a, m) == ((m - (a % m)) % m)

(* what the wrapped Keras operation pads by itself, in total *)
BuiltIn(n, k, s, same, transpose) ==
  IF same THEN Relu((Ceil(n, s) - 1) * s + k - n)
  ELSE IF transpose THEN Relu(s - k) ELSE 0

(* the two conditions for equivariance, for a total amount of padding t *)
Even(t) == t % 2 = 0
Reaches(n, t, k, s) == (n + t - k) % s = 0
Aligned(n, t, k, s) == Even(t) /\ Reaches(n, t, k, s)

(* the smallest extra padding that makes the total aligned, -1 if there is none *)
MinimalExtra(n, b, k, s) ==
  IF \E e \in 0..(2 * s) : Aligned(n, b + e, k, s)
  THEN CHOOSE e \in 0..(2 * s) : /\ Aligned(n, b + e, k, s)
                                 /\ \A f \in 0..(e - 1) : ~Aligned(n, b + f, k, s)
  ELSE -1

(* the closed form in the implementation, -1 if its result is not even *)
RuleExtra(n, b, k, s) ==
  LET e0 == (k - n - b) % s
      e  == e0 + ((e0 + b) % 2) * s
  IN  IF (e + b) % 2 = 0 THEN e ELSE -1

(* outcome for one axis: [ok, lo, hi, kind]; lo, hi explicit padding before and after *)
AxisPad(n, k, s, mode, allow, transpose) ==
  LET b == BuiltIn(n, k, s, IsSame(mode), transpose)
      e == MinimalExtra(n, b, k, s)
      before == Ceil(e, 2)
  IN  IF ~IsEquivMode(mode) /\ allow
      THEN [ok |-> TRUE, lo |-> 0, hi |-> 0, b |-> b]
      ELSE IF e = -1 \/ (e # 0 /\ ~IsEquivMode(mode))
      THEN [ok |-> FALSE, lo |-> 0, hi |-> 0, b |-> b]
      ELSE [ok |-> TRUE, lo |-> before, hi |-> e - before, b |-> b]

(* the positions sampled along one axis, in doubled centered coordinates:
   window q covers [q*s - low, q*s - low + k), its center is at twice
   q*s - low + (k-1)/2 - (n-1)/2 *)
OutSize(n, t, k, s) == IF n + t - k < 0 THEN 0 ELSE (n + t - k) \div s + 1
Centers(n, low, t, k, s) ==
  { 2 * q * s - 2 * low + (k - 1) - (n - 1) : q \in 0..(OutSize(n, t, k, s) - 1) }
SymmetricSet(S) == \A c \in S : (0 - c) \in S
=============================================================================
