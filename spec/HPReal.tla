------------------------------- MODULE HPReal -------------------------------
(***************************************************************************)
(* Real arithmetic.  The definitions below are the mathematical meaning;   *)
(* TLC evaluates the operators with 50-significant-digit decimal           *)
(* arithmetic (java/HPReal.java, loaded by TLC as a module override).      *)
(* A real is denoted by an integer, a decimal string, or the hexadecimal   *)
(* literal of an IEEE double ("0x1.8p+3", the form in which the            *)
(* conformance harness records floats, so nothing is lost in transport).   *)
(***************************************************************************)
EXTENDS Reals

R(x) == CHOOSE r \in Real : r = x           \* the real denoted by a literal
RAdd(a, b) == a + b
RSub(a, b) == a - b
RMul(a, b) == a * b
RDiv(a, b) == a / b
RNeg(a)    == 0 - a
RAbs(a)    == IF a < 0 THEN 0 - a ELSE a
RLeq(a, b) == a <= b
RLt(a, b)  == a < b
REq(a, b)  == a = b
RMax(a, b) == IF a < b THEN b ELSE a
RMin(a, b) == IF a < b THEN a ELSE b
RSqrt(a)   == CHOOSE r \in Real : r >= 0 /\ r * r = a
RCeil(a)   == CHOOSE n \in Int : n >= a /\ n - 1 < a
\* exp and ln are characterised by what the self-test verifies of the evaluation:
\* exp(a+b) = exp(a) exp(b), exp(1) = e, ln(exp(a)) = a.
RExp(a)    == CHOOSE r \in Real : TRUE
RLn(a)     == CHOOSE r \in Real : RExp(r) = a
RPi        == CHOOSE r \in Real : TRUE
RIsFinite(x) == x \in Real                  \* recorded "inf" / "nan" are not reals
RStr(a)    == "a printable form of a"

a ++ b  == RAdd(a, b)
a -- b == RSub(a, b)
a ** b == RMul(a, b)
a // b == RDiv(a, b)
a \preceq b == RLeq(a, b)
a \prec b   == RLt(a, b)

RClip(x, lo, hi) == RMin(RMax(x, lo), hi)
RSq(x) == RMul(x, x)
RPow(x, g) == IF REq(x, 0) THEN R(0) ELSE RExp(RMul(g, RLn(x)))   \* x >= 0
=============================================================================
