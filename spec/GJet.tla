-------------------------------- MODULE GJet --------------------------------
(* Truncated Taylor series.  A jet of order k of f at t is the sequence      *)
(* <<f(t), f'(t), f''(t)/2!, ..., f^(k)(t)/k!>>.  A jet of a vector function *)
(* is the sequence of its components' jets.  All jets combined have the same *)
(* length.                                                                   *)
EXTENDS GReal

JConst(c, k) == RVec([i \in 1..(k + 1) |-> IF i = 1 THEN R(c) ELSE R(0)])
JVar(t, k) == RVec([i \in 1..(k + 1) |-> IF i = 1 THEN R(t) ELSE IF i = 2 THEN R(1) ELSE R(0)])
JAffine(v, slope, k) == RVec([i \in 1..(k + 1) |-> IF i = 1 THEN v ELSE IF i = 2 THEN slope ELSE R(0)])
JAdd(a, b) == RVAdd(a, b)
JSub(a, b) == RVSub(a, b)
JNeg(a) == RVScale(R(-1), a)
JScale(c, a) == RVScale(c, a)
JMul(a, b) == RConv(a, b)
JUndef(k) == RVec([i \in 1..(k + 1) |-> RUndef])

(* (i+m)!/i! as a real *)
RECURSIVE Rising(_, _)
Rising(i, m) == IF m = 0 THEN R(1) ELSE RMul(R(i + m), Rising(i, m - 1))
RFact(n) == Rising(0, n)
RECURSIVE RPow(_, _)
RPow(x, n) == IF n = 0 THEN R(1) ELSE RMul(x, RPow(x, n - 1))

(* jet of order k of the m-th derivative, from a jet of order k + m *)
JShift(a, m) == RVec([i \in 1..(Len(a) - m) |-> RMul(Rising(i - 1, m), a[i + m])])

(* f o g from the jet of f at g(t) and the jet of g at t (Horner)            *)
RECURSIVE JCompFrom(_, _, _)
JCompFrom(f, g, i) ==
  LET acc == [j \in 1..Len(f) |-> IF j = 1 THEN f[i] ELSE R(0)]
  IN IF i = Len(f) THEN acc
     ELSE JAdd(acc, JMul([g EXCEPT ![1] = R(0)], JCompFrom(f, g, i + 1)))
JComp(f, g) == JCompFrom(f, g, 1)

(* f o g for an affine g of the given slope *)
JCompAffine(f, slope) ==
  LET RECURSIVE go(_, _, _)
      go(i, p, acc) == IF i > Len(f) THEN acc
                       ELSE go(i + 1, RMul(p, slope), Append(acc, RMul(f[i], p)))
  IN go(1, R(1), <<>>)

(* jets of elementary functions at the point v *)
JExpAt(v, k) == LET e == RExp(v) IN RVec([i \in 1..(k + 1) |-> RDiv(e, RFact(i - 1))])
JSinAt(v, k) ==
  LET s == RSin(v) c == RCos(v)
      D(n) == CASE n % 4 = 0 -> s [] n % 4 = 1 -> c [] n % 4 = 2 -> RNeg(s) [] n % 4 = 3 -> RNeg(c)
  IN RVec([i \in 1..(k + 1) |-> RDiv(D(i - 1), RFact(i - 1))])
JCosAt(v, k) ==
  LET s == RSin(v) c == RCos(v)
      D(n) == CASE n % 4 = 0 -> c [] n % 4 = 1 -> RNeg(s) [] n % 4 = 2 -> RNeg(c) [] n % 4 = 3 -> s
  IN RVec([i \in 1..(k + 1) |-> RDiv(D(i - 1), RFact(i - 1))])

(* jet of the polynomial with coefficients c (lowest degree first) at v      *)
RECURSIVE JPolyFrom(_, _, _)
JPolyFrom(c, x, i) ==
  LET acc == [j \in 1..Len(x) |-> IF j = 1 THEN R(c[i]) ELSE R(0)]
  IN IF i = Len(c) THEN acc ELSE JAdd(acc, JMul(x, JPolyFrom(c, x, i + 1)))
JPolyAt(c, v, k) == JPolyFrom(c, JVar(v, k), 1)

(* per coefficient: the common value of two candidate jets, or undetermined  *)
JAgree(a, b) == RVec([i \in 1..Len(a) |->
  IF RClose(a[i], b[i], R("1e-9")) \/ RClose(b[i], a[i], R("1e-9")) THEN a[i] ELSE RUndef])
=============================================================================
