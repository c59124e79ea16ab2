-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rational arithmetic.  TLC integers are 32 bit, so a rational is   *)
(* carried as a string: a canonical "n" or "n/d" (d > 0, gcd 1), and every *)
(* operator also accepts decimal literals ("12.5", "1e-3") as they appear  *)
(* in recorded traces, and TLA+ integers.  "nan" is the result of dividing *)
(* by zero and is absorbing.  The operators below are given their meaning  *)
(* by java/Rat.java (BigInteger), a TLC module override; the definitions   *)
(* in this file are placeholders that never run.                           *)
(***************************************************************************)
LOCAL U == CHOOSE x \in {} : TRUE
RNorm(a) == U           \* canonical form
RAdd(a, b) == U
RSub(a, b) == U
RMul(a, b) == U
RDiv(a, b) == U         \* "nan" when b = 0
RDivZ(a, b) == U        \* "0" when b = 0 (the library's 1/missing = missing)
RNeg(a) == U
RAbs(a) == U
RIsNan(a) == U
RIsZero(a) == U
RLt(a, b) == U
RLe(a, b) == U
REq(a, b) == U
RMin2(a, b) == U
RMax2(a, b) == U
RPow(a, k) == U         \* k a TLA+ integer
RSum(s) == U            \* sum of a sequence
RProd(s) == U           \* product of a sequence
RFloor(a) == U          \* TLA+ integer
RRound(a, k) == U       \* half even at k decimals
RTrim(a) == U           \* identity up to 50 significant digits
RLn(a) == U             \* the four transcendental primitives are double precision
RExp(a) == U
RSqrt(a) == U
RPowR(a, b) == U
RMatch(a, b) == U       \* nested sequences agree up to float tolerance; "any" matches all
RMatchTol(a, b, t) == U
=============================================================================
