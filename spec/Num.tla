-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Exact extended-rational arithmetic.  A number is a TLA+ integer or a    *)
(* string "n" / "n/d" / "inf" / "-inf" / "nan".  TLC's own integers are    *)
(* 32-bit; java/Num.java realises these operators with big integers, so a  *)
(* specification can be evaluated on the exact value of any IEEE double    *)
(* the implementation consumed or produced.  The bodies below are only     *)
(* place-holders for the (constant-level) operators TLC loads from Java;   *)
(* MC_Num.tla checks the realisation against the field laws and against    *)
(* TLC's integers.                                                         *)
(***************************************************************************)
RAdd(a, b) == "nan"      \* a + b
RSub(a, b) == "nan"      \* a - b
RMul(a, b) == "nan"      \* a * b
RDiv(a, b) == "nan"      \* a / b   (IEEE conventions at zero and infinity)
RNeg(a) == "nan"         \* - a
RAbs(a) == "nan"         \* | a |
RLe(a, b) == FALSE       \* a <= b  (false when nan is involved)
RLt(a, b) == FALSE       \* a < b
REq(a, b) == FALSE       \* a = b
RMin(a, b) == "nan"      \* least of a and b
RMax(a, b) == "nan"      \* greatest of a and b
RFin(a) == FALSE         \* a is a finite number
RSign(a) == 0            \* -1, 0 or 1
RFloor(a) == 0           \* greatest integer <= a, as a TLA+ integer
RSum(s) == "nan"         \* sum of a sequence
RDot(s, t) == "nan"      \* scalar product of two sequences
RNear(a, b, tol) == FALSE  \* |a-b| <= tol * max(1, |a|, |b|)
RTrim(a) == "nan"        \* a, rounded at 2^-220 when its representation is long
RExp(a) == "nan"         \* e^a, a double
RLog(a) == "nan"         \* ln a, a double
RCos(a) == "nan"         \* cos a, a double
RSin(a) == "nan"         \* sin a, a double
RTanh(a) == "nan"        \* tanh a, a double
RPi == "nan"             \* pi, a double
RPowR(a, b) == "nan"     \* a^b, a double
RSqrt(a) == "nan"        \* square root, to 2^-120
RPhi(a) == "nan"         \* standard normal distribution function, a double
RTQuantile(p, v) == "nan" \* quantile of Student's t with v degrees of freedom, a double
RSeq(s) == s              \* s itself, evaluated once (TLC keeps function constructors lazy)
RStr(a) == ""            \* decimal rendering for messages
-----------------------------------------------------------------------------
RSq(a) == RMul(a, a)
RGt(a, b) == RLt(b, a)
RGe(a, b) == RLe(b, a)
RFrac(n, d) == RDiv(n, d)

=============================================================================
