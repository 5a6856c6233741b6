------------------------------- MODULE GReal -------------------------------
(* Real arithmetic for the specification.  Numbers enter as decimal or       *)
(* hexadecimal floating point literals (strings) or as integers.  TLC        *)
(* evaluates these operators through java/GReal.java (40 digits and a        *)
(* running magnitude); the definitions here state their meaning over Real.   *)
EXTENDS Integers, Sequences
LOCAL INSTANCE Reals

R(s) == CHOOSE x \in Real : TRUE          \* the number the literal s denotes
RUndef == CHOOSE x : x \notin Real        \* an undetermined value
RIsUndef(a) == a = RUndef
RIsBad(a) == a \notin Real /\ a # RUndef  \* a logged NaN or infinity
RAdd(a, b) == a + b
RSub(a, b) == a - b
RNeg(a) == -a
RAbs(a) == IF a >= 0 THEN a ELSE -a
RMul(a, b) == a * b
RDiv(a, b) == IF b = 0 THEN RUndef ELSE a / b
RSqrt(a) == CHOOSE x \in Real : x >= 0 /\ x * x = a
RSin(a) == CHOOSE x \in Real : TRUE
RCos(a) == CHOOSE x \in Real : TRUE
RExp(a) == CHOOSE x \in Real : TRUE
RCmp(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
RLe(a, b) == a <= b
RLt(a, b) == a < b
RBlurred(a, b) == FALSE                   \* may rounding change the order?
RMag(a) == RAbs(a)                        \* running magnitude
RClose(spec, obs, tol) == RAbs(spec - obs) <= tol * RMag(spec)
RStr(a) == "0"
RExact(a) == a                            \* a, forgetting what it was computed from
RBlur(a, b) == a                          \* a, of running magnitude at least |b|

RVec(s) == s                              \* (evaluated at once)
RVAdd(a, b) == [i \in 1..Len(a) |-> RAdd(a[i], b[i])]
RVSub(a, b) == [i \in 1..Len(a) |-> RSub(a[i], b[i])]
RVScale(c, a) == [i \in 1..Len(a) |-> RMul(c, a[i])]
RECURSIVE RSum(_)
RSum(s) == IF s = <<>> THEN R("0") ELSE RAdd(Head(s), RSum(Tail(s)))
RDot(a, b) == RSum([i \in 1..Len(a) |-> RMul(a[i], b[i])])
RConv(a, b) == [k \in 1..Len(a) |-> RSum([i \in 1..k |-> RMul(a[i], b[k + 1 - i])])]
RIntProd(a, b) ==                         \* integral over [-1, 1] of the product of two series
  LET p == RConv(a, b) IN RSum([i \in 1..Len(p) |-> IF i % 2 = 1 THEN RDiv(RMul(R(2), p[i]), R(i)) ELSE R(0)])
=============================================================================
